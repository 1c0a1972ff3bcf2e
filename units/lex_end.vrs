proof fn lem_word(s: Seq<u8>, p: int, w: Seq<u8>)
    ensures word_at(s, p, w) ==> p + w.len() <= s.len(),
{}

proof fn lem_body_end(s: Seq<u8>, p: int)
    requires str_body(s, p) is Some,
    ensures p < (str_body(s, p)->0).1 <= s.len(),
    decreases s.len() - p,
{
    if s[p] == 0x22 {}
    else if s[p] == 0x5c {
        let q = (escape(s, p + 1)->0).1;
        assert(p < q);
        lem_body_end(s, q);
    }
    else { lem_body_end(s, p + 1); }
}

proof fn lem_number_end(s: Seq<u8>, p: int, nonneg: bool)
    requires 0 <= p, number(s, p, nonneg) is Some,
    ensures p < (number(s, p, nonneg)->0).1 <= s.len(),
{
    let (sig, q) = sig_end(s, p, 0);
    lem_sig_end(s, p, 0);
    lem_digits_end(s, p);
    let e = digits_end(s, q);
    reveal_with_fuel(digits_end, 2);
    if at(s, e) == 0x2e {
        lem_sig_end(s, e + 1, sig);
        lem_digits_end(s, e + 1);
        let (sig2, q2) = sig_end(s, e + 1, sig);
        let e2 = digits_end(s, q2);
        lem_exp_end(s, e2);
    } else {
        lem_exp_end(s, e);
    }
}

proof fn lem_exp_end(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures exp_part(s, p) is Some ==> p < (exp_part(s, p)->0).1 <= s.len(),
{
    let sgn = at(s, p + 1);
    let d = if sgn == 0x2b || sgn == 0x2d { p + 2 } else { p + 1 };
    if d <= s.len() { lem_digits_end(s, d); }
}

proof fn lem_lex(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(), lex(s, p) is Some,
    ensures p < (lex(s, p)->0).1 <= s.len(),
{
    lem_skip_ws(s, p);
    let w = skip_ws(s, p);
    if s[w] == 0x22 { lem_body_end(s, w + 1); }
    else if is_digit(s[w]) { lem_number_end(s, w, true); }
    else if s[w] == 0x2d { lem_number_end(s, w + 1, false); }
}

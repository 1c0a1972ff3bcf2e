// ---------------------------------------------------------------------------
// lemmas
// ---------------------------------------------------------------------------
proof fn lem_hex_none(s: Seq<u8>, p: int, k: int, j: int)
    requires 0 <= k <= j, hex_prefix(s, p, k) is None,
    ensures hex_prefix(s, p, j) is None,
    decreases j,
{
    if k < j { lem_hex_none(s, p, k, j - 1); }
}

proof fn lem_hex_range(s: Seq<u8>, p: int, k: int)
    requires 0 <= k, hex_prefix(s, p, k) is Some,
    ensures 0 <= hex_prefix(s, p, k)->0,
        k <= 1 ==> hex_prefix(s, p, k)->0 < 16,
        k <= 2 ==> hex_prefix(s, p, k)->0 < 256,
        k <= 3 ==> hex_prefix(s, p, k)->0 < 4096,
        k <= 4 ==> hex_prefix(s, p, k)->0 < 65536,
        k > 0 ==> 0 <= p && p + k <= s.len(),
        forall|i: int| p <= i < p + k ==> #[trigger] at(s, i) < 0x80,
    decreases k,
{
    if k > 0 {
        lem_hex_range(s, p, k - 1);
        assert forall|i: int| p <= i < p + k implies #[trigger] at(s, i) < 0x80 by {
            if i < p + (k - 1) { assert(at(s, i) < 0x80); } else { assert(i == p + k - 1); }
        }
    }
}

proof fn lem_hex_sv(s: Seq<u8>, p: int, k: int)
    requires 0 <= k, hex_prefix(s, p, k) is Some, sv(s, p),
    ensures sv(s, p + k),
    decreases k,
{
    if k > 0 { lem_hex_sv(s, p, k - 1); lem_hex_range(s, p, k); assert(at(s, p + k - 1) < 0x80); lem_sv_step(s, p + k - 1); }
}

proof fn lem_escape(s: Seq<u8>, p: int)
    requires escape(s, p) is Some, sv(s, p),
    ensures p < (escape(s, p)->0).1 <= s.len(), sv(s, (escape(s, p)->0).1),
        (escape(s, p)->0).0.len() > 0,
{
    lem_sv_step(s, p);
    if s[p] == 0x75 {
        lem_hex_sv(s, p + 1, 4);
        lem_hex_range(s, p + 1, 4);
        let n1 = hex4(s, p + 1)->0;
        if 0xD800 <= n1 <= 0xDBFF {
            lem_sv_step(s, p + 5);
            lem_sv_step(s, p + 6);
            lem_hex_sv(s, p + 7, 4);
            lem_hex_range(s, p + 7, 4);
        }
    }
}

/// plain characters contribute themselves
proof fn lem_body_plain(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> s[i] != 0x22 && s[i] != 0x5c && s[i] >= 0x20,
    ensures str_body(s, a) == prepend(s.subrange(a, b), str_body(s, b)),
    decreases b - a,
{
    if a < b {
        lem_body_plain(s, a + 1, b);
        assert(s.subrange(a, b) =~= seq![s[a]] + s.subrange(a + 1, b));
        match str_body(s, b) {
            None => {},
            Some((t, e)) => { assert(s.subrange(a, b) + t =~= seq![s[a]] + (s.subrange(a + 1, b) + t)); },
        }
    } else {
        assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        match str_body(s, b) {
            None => {},
            Some((t, e)) => { assert(Seq::<u8>::empty() + t =~= t); },
        }
    }
}

proof fn lem_prepend_assoc(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, int)>)
    ensures prepend(a, prepend(b, r)) == prepend(a + b, r),
{
    match r { None => {}, Some((t, e)) => { assert(a + (b + t) =~= (a + b) + t); } }
}

proof fn lem_skip_ws(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures p <= skip_ws(s, p) <= s.len(), skip_ws(s, p) < s.len() ==> !is_ws(s[skip_ws(s, p)]),
    decreases s.len() - p,
{
    if p < s.len() && is_ws(s[p]) { lem_skip_ws(s, p + 1); }
}

proof fn lem_digits_end(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures p <= digits_end(s, p) <= s.len(), !is_digit(at(s, digits_end(s, p))),
        forall|i: int| p <= i < digits_end(s, p) ==> is_digit(#[trigger] s[i]),
    decreases s.len() - p,
{
    if p < s.len() && is_digit(s[p]) { lem_digits_end(s, p + 1); }
}

proof fn lem_sig_end(s: Seq<u8>, p: int, v: int)
    requires 0 <= p <= s.len(), 0 <= v <= u64::MAX,
    ensures p <= sig_end(s, p, v).1 <= digits_end(s, p), v <= sig_end(s, p, v).0 <= u64::MAX,
        digits_end(s, sig_end(s, p, v).1) == digits_end(s, p),
    decreases s.len() - p,
{
    lem_digits_end(s, p);
    if p < s.len() && is_digit(s[p]) && v * 10 + dval(s[p]) <= u64::MAX { lem_sig_end(s, p + 1, v * 10 + dval(s[p])); }
}

proof fn lem_dec_ge(s: Seq<u8>, p: int, v: int)
    requires 0 <= p <= s.len(), 0 <= v,
    ensures dec(s, p, digits_end(s, p), v) >= v,
    decreases s.len() - p,
{
    lem_digits_end(s, p);
    if p < s.len() && is_digit(s[p]) { lem_dec_ge(s, p + 1, v * 10 + dval(s[p])); }
}


pub open spec fn ends_number(s: Seq<u8>, e: int) -> bool {
    !is_digit(at(s, e)) && at(s, e) != 0x2e && at(s, e) != 0x65 && at(s, e) != 0x45
}
/// a value may be followed by the end, a comma or a closing bracket
spec fn delim(s: Seq<u8>, e: int) -> bool { e == s.len() || (0 <= e < s.len() && (s[e] == 0x2c || s[e] == 0x5d || s[e] == 0x7d)) }

// ---- the calls that rebuild a tree ------------------------------------------
pub open spec fn scalar_ev(t: Tree) -> Ev {
    match t {
        Tree::Null => Ev::Null,
        Tree::Bool(b) => Ev::Bool(b),
        Tree::Str(s) => Ev::Str(s),
        Tree::U64(n) => Ev::Nonneg(n),
        Tree::I64(n) => if n < 0 { Ev::Neg(n) } else { Ev::Nonneg(n as u64) },
        Tree::F64(f) => if f_finite(f) { Ev::Float(reread(f)) } else { Ev::Null },
        Tree::Seq(_) => Ev::SeqStart,
        Tree::Map(_) => Ev::MapStart,
    }
}
pub open spec fn evs(t: Tree, vis: int, k: int) -> Seq<Call>
    decreases t, 0int,
{
    match t {
        Tree::Seq(kids) => seq![Call::Val(vis, Ev::SeqStart)] + evs_elems(kids, 0, k, k + 1),
        Tree::Map(kids) => seq![Call::Val(vis, Ev::MapStart)] + evs_members(kids, 0, k, k + 1),
        _ => seq![Call::Val(vis, scalar_ev(t))],
    }
}
pub open spec fn evs_elems(kids: Seq<Tree>, i: int, id: int, k: int) -> Seq<Call>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() {
        let v = evs(kids[i], k, k + 1);
        seq![Call::Elem(id)] + (v + evs_elems(kids, i + 1, id, k + 1 + v.len()))
    } else { seq![Call::End(id, false)] }
}
pub open spec fn evs_members(kids: Seq<(Seq<u8>, Tree)>, i: int, id: int, k: int) -> Seq<Call>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() {
        let v = evs(kids[i].1, k, k + 1);
        seq![Call::Key(id, kids[i].0)] + (v + evs_members(kids, i + 1, id, k + 1 + v.len()))
    } else { seq![Call::End(id, true)] }
}

// ---- pieces of a text ---------------------------------------------------------
proof fn lem_word_cat(s: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires word_at(s, p, a + b),
    ensures word_at(s, p, a), word_at(s, p + a.len(), b),
        a.len() > 0 ==> s[p] == a[0], b.len() > 0 ==> s[p + a.len()] == b[0],
{
    let w = a + b;
    let t = s.subrange(p, p + w.len());
    assert(t == w);
    assert(s.subrange(p, p + a.len()) =~= a) by {
        assert forall|i: int| 0 <= i < a.len() implies s.subrange(p, p + a.len())[i] == a[i] by { assert(t[i] == w[i]); assert(t[i] == s[p + i]); }
    }
    assert(s.subrange(p + a.len(), p + a.len() + b.len()) =~= b) by {
        assert forall|i: int| 0 <= i < b.len() implies s.subrange(p + a.len(), p + a.len() + b.len())[i] == b[i] by { assert(t[a.len() + i] == w[a.len() + i]); assert(t[a.len() + i] == s[p + a.len() + i]); }
    }
    if a.len() > 0 { assert(t[0] == w[0]); }
    if b.len() > 0 { assert(t[a.len() as int] == w[a.len() as int]); assert(t[a.len() as int] == s[p + a.len()]); }
}
proof fn lem_word_at(s: Seq<u8>, p: int, w: Seq<u8>)
    requires word_at(s, p, w),
    ensures forall|i: int| 0 <= i < w.len() ==> s[p + i] == #[trigger] w[i], 0 <= p, p + w.len() <= s.len(),
{
    let t = s.subrange(p, p + w.len());
    assert forall|i: int| 0 <= i < w.len() implies s[p + i] == #[trigger] w[i] by { assert(t[i] == w[i]); }
}

// ---- integers -------------------------------------------------------------------
proof fn lem_nat_text(n: int)
    requires 0 <= n,
    ensures p_nat(n).len() > 0, forall|i: int| 0 <= i < p_nat(n).len() ==> is_digit(#[trigger] p_nat(n)[i]),
        p_nat(n)[0] == 0x30 ==> p_nat(n).len() == 1,
    decreases n,
{
    if n >= 10 {
        lem_nat_text(n / 10);
        let a = p_nat(n / 10);
        assert(p_nat(n)[0] == a[0]);
        if a[0] == 0x30 { lem_nat_zero(n / 10); }
        assert forall|i: int| 0 <= i < p_nat(n).len() implies is_digit(#[trigger] p_nat(n)[i]) by { if i < a.len() { assert(is_digit(a[i])); } }
    }
}
proof fn lem_nat_zero(n: int)
    requires 0 <= n, p_nat(n)[0] == 0x30,
    ensures n == 0,
    decreases n,
{
    if n >= 10 { lem_nat_text(n / 10); assert(p_nat(n)[0] == p_nat(n / 10)[0]); lem_nat_zero(n / 10); }
}
proof fn lem_nat_read(s: Seq<u8>, p: int, n: int)
    requires 0 <= n <= u64::MAX, word_at(s, p, p_nat(n)),
    ensures sig_end(s, p, 0) == sig_end(s, p + p_nat(n).len(), n), digits_end(s, p) == digits_end(s, p + p_nat(n).len()),
    decreases n,
{
    lem_word_at(s, p, p_nat(n));
    if n < 10 {
        assert(p_nat(n)[0] == (0x30 + n) as u8);
        assert(s[p + 0] == p_nat(n)[0]);
        assert(s[p] == (0x30 + n) as u8);
    } else {
        let a = p_nat(n / 10);
        assert(p_nat(n) =~= a + seq![(0x30 + n % 10) as u8]);
        lem_word_cat(s, p, a, seq![(0x30 + n % 10) as u8]);
        lem_nat_read(s, p, n / 10);
        let e = p + a.len();
        assert(s[e] == (0x30 + n % 10) as u8);
        assert((n / 10) * 10 + n % 10 == n) by (nonlinear_arith) requires n >= 0;
    }
}
/// canonical decimal text of an integer reads back as that integer
//@lemma C09
proof fn integers_read_back(s: Seq<u8>, p: int, n: int)
    requires i64::MIN <= n <= u64::MAX, word_at(s, p, p_int(n)), ends_number(s, p + p_int(n).len()),
    ensures token(s, p) == Some((if n < 0 { Ev::Neg(n as i64) } else { Ev::Nonneg(n as u64) }, p + p_int(n).len())),
        p_int(n).len() > 0,
{
    let m = if n < 0 { -n } else { n };
    let q = if n < 0 { p + 1 } else { p };
    if n < 0 { lem_word_cat(s, p, seq![0x2du8], p_nat(m)); assert(s[p] == 0x2d); }
    lem_nat_text(m);
    lem_nat_read(s, q, m);
    lem_word_at(s, q, p_nat(m));
    let e = q + p_nat(m).len();
    assert(s[q + 0] == p_nat(m)[0]);
    assert(is_digit(s[q]));
    assert(at(s, e) == at(s, p + p_int(n).len()));
    assert(sig_end(s, e, m) == (m, e));
    assert(digits_end(s, e) == e);
    if at(s, q) == 0x30 { assert(e == q + 1); }
    assert(number(s, q, n >= 0) == Some((signed_num(n >= 0, m), e)));
}

//@include ryu_read.vrs
// ---- strings ----------------------------------------------------------------------
proof fn lem_ascii_scalar(b: u8)
    requires b < 0x80,
    ensures utf8_of(b as int) == seq![b],
{
    let c = b as char;
    lem_char_bytes(c);
    is_ascii_chars_encode_utf8(seq![c]);
    assert(encode_utf8(seq![c]) =~= seq![b]);
}
proof fn lem_hex_back(d: int)
    requires 0 <= d < 16,
    ensures hexval(hexdig(d)) == Some(d),
{}
proof fn lem_esc1_read(s: Seq<u8>, p: int, b: u8)
    requires word_at(s, p, esc1(b)),
    ensures str_body(s, p) == prepend(seq![b], str_body(s, p + esc1(b).len())), esc1(b).len() > 0,
{
    lem_word_at(s, p, esc1(b));
    assert(s[p + 0] == esc1(b)[0]);
    if esc1(b)[0] == 0x5c {
        assert(s[p + 1] == esc1(b)[1]);
        if esc1(b).len() == 6 {
            assert(s[p + 2] == esc1(b)[2]); assert(s[p + 3] == esc1(b)[3]); assert(s[p + 4] == esc1(b)[4]); assert(s[p + 5] == esc1(b)[5]);
            lem_hex_back(b as int / 16); lem_hex_back(b as int % 16);
            assert(hexval(0x30) == Some(0int));
            assert(hex_prefix(s, p + 2, 0) == Some(0int));
            assert(hex_prefix(s, p + 2, 1) == Some(0int));
            assert(hex_prefix(s, p + 2, 2) == Some(0int));
            assert(hex_prefix(s, p + 2, 3) == Some(b as int / 16));
            assert(hex_prefix(s, p + 2, 4) == Some(b as int));
            lem_ascii_scalar(b);
            assert(escape(s, p + 1) == Some((seq![b], p + 6)));
        }
    }
}
proof fn lem_esc_read(s: Seq<u8>, p: int, v: Seq<u8>, i: int)
    requires 0 <= i <= v.len(), word_at(s, p, esc_from(v, i) + seq![0x22u8]),
    ensures str_body(s, p) == Some((v.subrange(i, v.len() as int), p + esc_from(v, i).len() + 1)),
    decreases v.len() - i,
{
    if i < v.len() {
        let r = esc_from(v, i + 1) + seq![0x22u8];
        assert(esc_from(v, i) + seq![0x22u8] =~= esc1(v[i]) + r);
        lem_word_cat(s, p, esc1(v[i]), r);
        lem_esc1_read(s, p, v[i]);
        lem_esc_read(s, p + esc1(v[i]).len(), v, i + 1);
        assert(seq![v[i]] + v.subrange(i + 1, v.len() as int) =~= v.subrange(i, v.len() as int));
    } else {
        lem_word_cat(s, p, esc_from(v, i), seq![0x22u8]);
        assert(v.subrange(i, v.len() as int) =~= Seq::<u8>::empty());
    }
}
/// the text of a string is one string literal that decodes to that string
//@lemma C08 C10 C11
proof fn strings_read_back(s: Seq<u8>, p: int, v: Seq<u8>)
    requires word_at(s, p, p_str(v)),
    ensures token(s, p) == Some((Ev::Str(v), p + p_str(v).len())),
        s[p] == 0x22, str_body(s, p + 1) == Some((v, p + p_str(v).len())), p_str(v).len() >= 2,
{
    assert(p_str(v) =~= seq![0x22u8] + (esc_from(v, 0) + seq![0x22u8]));
    lem_word_cat(s, p, seq![0x22u8], esc_from(v, 0) + seq![0x22u8]);
    lem_esc_read(s, p + 1, v, 0);
    assert(v.subrange(0, v.len() as int) =~= v);
}
/// it contains no raw control character and no raw quote or backslash outside escapes
//@lemma C08
proof fn no_control_characters(v: Seq<u8>, i: int)
    requires 0 <= i <= v.len(),
    ensures forall|j: int| 0 <= j < esc_from(v, i).len() ==> #[trigger] esc_from(v, i)[j] >= 0x20,
    decreases v.len() - i,
{
    if i < v.len() {
        no_control_characters(v, i + 1);
        let a = esc1(v[i]);
        let r = esc_from(v, i + 1);
        assert forall|j: int| 0 <= j < esc_from(v, i).len() implies #[trigger] esc_from(v, i)[j] >= 0x20 by {
            if j < a.len() { assert((a + r)[j] == a[j]); } else { assert((a + r)[j] == r[j - a.len()]); }
        }
    }
}

// ---- whole values -------------------------------------------------------------------
/// the first byte of a value's text opens a token
spec fn opens(b: u8) -> bool { !is_ws(b) && b != 0x5d && b != 0x7d && b != 0x2c }

proof fn lem_delim_ends(s: Seq<u8>, e: int)
    requires delim(s, e),
    ensures ends_number(s, e),
{}
proof fn lem_kw(s: Seq<u8>, p: int, b: u8, w: Seq<u8>)
    requires word_at(s, p, seq![b] + w),
    ensures word_at(s, p + 1, w), s[p] == b, 0 <= p < s.len(),
{ lem_word_cat(s, p, seq![b], w); }

proof fn lem_scalar_read(s: Seq<u8>, p: int, t: Tree)
    requires word_at(s, p, print(t)), delim(s, p + print(t).len()), !(t is Seq), !(t is Map),
    ensures token(s, p) == Some((scalar_ev(t), p + print(t).len())), print(t).len() > 0, opens(s[p]),
{
    lem_delim_ends(s, p + print(t).len());
    match t {
        Tree::Null => { assert(b_null() =~= seq![0x6eu8] + w_ull()); lem_kw(s, p, 0x6e, w_ull()); },
        Tree::Bool(true) => { assert(b_true() =~= seq![0x74u8] + w_rue()); lem_kw(s, p, 0x74, w_rue()); },
        Tree::Bool(false) => { assert(b_false() =~= seq![0x66u8] + w_alse()); lem_kw(s, p, 0x66, w_alse()); },
        Tree::Str(v) => { strings_read_back(s, p, v); },
        Tree::U64(n) => { integers_read_back(s, p, n as int); },
        Tree::I64(n) => { integers_read_back(s, p, n as int); },
        Tree::F64(f) => {
            if f_finite(f) { floats_read_back(s, p, f); }
            else { assert(b_null() =~= seq![0x6eu8] + w_ull()); lem_kw(s, p, 0x6e, w_ull()); }
        },
        _ => {},
    }
}

/// reading the text of a value at p makes exactly that value's calls and ends after it
//@lemma C07 C10 C11
proof fn values_read_back(s: Seq<u8>, p: int, t: Tree, vis: int, k: int)
    requires word_at(s, p, print(t)), delim(s, p + print(t).len()),
    ensures g_value(s, p, vis, k) == (Part { calls: evs(t, vis, k), end: Some(p + print(t).len()) }),
        print(t).len() > 0, opens(s[p]),
    decreases t, 0int,
{
    match t {
        Tree::Seq(kids) => {
            lem_word_cat(s, p, seq![0x5bu8], p_elems(kids, 0));
            lem_elems_back(s, p + 1, kids, 0, k, k + 1);
        },
        Tree::Map(kids) => {
            lem_word_cat(s, p, seq![0x7bu8], p_members(kids, 0));
            lem_members_back(s, p + 1, kids, 0, k, k + 1);
        },
        _ => { lem_scalar_read(s, p, t); },
    }
    assert(skip_ws(s, p) == p);
}
proof fn lem_elems_first(kids: Seq<Tree>, i: int)
    requires 0 < i <= kids.len(),
    ensures p_elems(kids, i).len() > 0, p_elems(kids, i)[0] == 0x2c || p_elems(kids, i)[0] == 0x5d,
{}
proof fn lem_members_first(kids: Seq<(Seq<u8>, Tree)>, i: int)
    requires 0 < i <= kids.len(),
    ensures p_members(kids, i).len() > 0, p_members(kids, i)[0] == 0x2c || p_members(kids, i)[0] == 0x7d,
{}
proof fn lem_elems_step(s: Seq<u8>, q: int, fr: Frame, k: int, more: bool, m: int)
    requires !fr.map, 0 <= q <= m < s.len(), opens(s[m]), more ==> m == q + 1 && s[q] == 0x2c, !more ==> m == q,
    ensures g_members(s, q, fr, k, more) == pcat(seq![Call::Elem(fr.id)], g_rest(s, m, fr, k)),
{
    assert(skip_ws(s, q) == q);
}
proof fn lem_close_step(s: Seq<u8>, q: int, fr: Frame, k: int, more: bool)
    requires 0 <= q < s.len(), s[q] == (if fr.map { 0x7du8 } else { 0x5du8 }),
    ensures g_members(s, q, fr, k, more) == (Part { calls: seq![Call::End(fr.id, fr.map)], end: Some(q + 1) }),
{
    assert(skip_ws(s, q) == q);
}
proof fn lem_evs_elem(kids: Seq<Tree>, i: int, id: int, k: int)
    requires 0 <= i < kids.len(),
    ensures evs_elems(kids, i, id, k) == seq![Call::Elem(id)] + (evs(kids[i], k, k + 1) + evs_elems(kids, i + 1, id, k + 1 + evs(kids[i], k, k + 1).len())),
{}
proof fn lem_elems_text(kids: Seq<Tree>, i: int)
    requires 0 <= i <= kids.len(),
    ensures p_elems(kids, i) == (if i < kids.len() { (if i > 0 { seq![0x2cu8] } else { Seq::empty() }) + (print(kids[i]) + p_elems(kids, i + 1)) } else { seq![0x5du8] }),
{
    if i < kids.len() { assert(p_elems(kids, i) =~= (if i > 0 { seq![0x2cu8] } else { Seq::empty() }) + (print(kids[i]) + p_elems(kids, i + 1))); }
}
proof fn lem_elems_back(s: Seq<u8>, q: int, kids: Seq<Tree>, i: int, id: int, k: int)
    requires 0 <= i <= kids.len(), word_at(s, q, p_elems(kids, i)),
    ensures g_members(s, q, Frame { map: false, id }, k, i > 0) == (Part { calls: evs_elems(kids, i, id, k), end: Some(q + p_elems(kids, i).len()) }),
        p_elems(kids, i).len() > 0,
    decreases kids, kids.len() - i,
{
    hide(g_members); hide(g_member); hide(g_rest); hide(g_value); hide(word_at); hide(lex); hide(evs); hide(print); hide(p_elems);
    let fr = Frame { map: false, id };
    lem_word_at(s, q, p_elems(kids, i));
    lem_elems_text(kids, i);
    if i < kids.len() {
        let c = if i > 0 { seq![0x2cu8] } else { Seq::empty() };
        let t = kids[i];
        let r1 = p_elems(kids, i + 1);
        lem_word_cat(s, q, c, print(t) + r1);
        let m = q + c.len();
        lem_word_cat(s, m, print(t), r1);
        let e = m + print(t).len();
        lem_elems_first(kids, i + 1);
        lem_word_at(s, e, r1);
        values_read_back(s, m, t, k, k + 1);
        let v = evs(t, k, k + 1);
        lem_elems_back(s, e, kids, i + 1, id, k + 1 + v.len());
        let z = q + p_elems(kids, i).len();
        assert(e + r1.len() == z);
        lem_rest_shape(s, m, fr, k, v, e, evs_elems(kids, i + 1, id, k + 1 + v.len()), z);
        if i > 0 { lem_word_at(s, q, c); }
        lem_elems_step(s, q, fr, k, i > 0, m);
        lem_evs_elem(kids, i, id, k);
    } else {
        assert(p_elems(kids, i)[0] == 0x5d);
        assert(s[q + 0] == 0x5d);
        lem_close_step(s, q, fr, k, i > 0);
        reveal(evs_elems);
    }
}
proof fn lem_member_shape(s: Seq<u8>, m: int, fr: Frame, k: int, name: Seq<u8>, n: int)
    requires fr.map, 0 <= m < n < s.len(), s[m] == 0x22, s[n] == 0x3a, str_body(s, m + 1) == Some((name, n)),
    ensures g_member(s, m, fr, k) == pcat(seq![Call::Key(fr.id, name)], g_rest(s, n + 1, fr, k)),
{
    hide(str_body);
    assert(skip_ws(s, m) == m);
    assert(skip_ws(s, n) == n);
}
proof fn lem_rest_shape(s: Seq<u8>, c: int, fr: Frame, k: int, v: Seq<Call>, e: int, r: Seq<Call>, z: int)
    requires g_value(s, c, k, k + 1) == (Part { calls: v, end: Some(e) }), c < e <= s.len(),
        g_members(s, e, fr, k + 1 + v.len(), true) == (Part { calls: r, end: Some(z) }),
    ensures g_rest(s, c, fr, k) == (Part { calls: v + r, end: Some(z) }),
{}
proof fn lem_members_step(s: Seq<u8>, q: int, fr: Frame, k: int, more: bool, m: int)
    requires fr.map, 0 <= q <= m < s.len(), s[m] == 0x22, more ==> m == q + 1 && s[q] == 0x2c, !more ==> m == q,
    ensures g_members(s, q, fr, k, more) == g_member(s, m, fr, k),
{
    assert(skip_ws(s, q) == q);
}
proof fn lem_members_back(s: Seq<u8>, q: int, kids: Seq<(Seq<u8>, Tree)>, i: int, id: int, k: int)
    requires 0 <= i <= kids.len(), word_at(s, q, p_members(kids, i)),
    ensures g_members(s, q, Frame { map: true, id }, k, i > 0) == (Part { calls: evs_members(kids, i, id, k), end: Some(q + p_members(kids, i).len()) }),
        p_members(kids, i).len() > 0,
    decreases kids, kids.len() - i,
{
    hide(str_body); hide(p_str); hide(g_member); hide(g_rest); hide(g_value); hide(word_at); hide(lex);
    let fr = Frame { map: true, id };
    lem_word_at(s, q, p_members(kids, i));
    if i < kids.len() {
        let c = if i > 0 { seq![0x2cu8] } else { Seq::empty() };
        let name = kids[i].0;
        let t = kids[i].1;
        let r3 = p_members(kids, i + 1);
        let r2 = print(t) + r3;
        let r1 = seq![0x3au8] + r2;
        let w = p_members(kids, i);
        assert(w =~= c + (p_str(name) + r1));
        lem_word_cat(s, q, c, p_str(name) + r1);
        let m = q + c.len();
        lem_word_cat(s, m, p_str(name), r1);
        strings_read_back(s, m, name);
        let n = m + p_str(name).len();
        lem_word_cat(s, n, seq![0x3au8], r2);
        lem_word_cat(s, n + 1, print(t), r3);
        let e = n + 1 + print(t).len();
        lem_members_first(kids, i + 1);
        lem_word_at(s, e, r3);
        values_read_back(s, n + 1, t, k, k + 1);
        let v = evs(t, k, k + 1);
        lem_members_back(s, e, kids, i + 1, id, k + 1 + v.len());
        let z = q + w.len();
        assert(e + r3.len() == z);
        lem_rest_shape(s, n + 1, fr, k, v, e, evs_members(kids, i + 1, id, k + 1 + v.len()), z);
        lem_member_shape(s, m, fr, k, name, n);
        lem_members_step(s, q, fr, k, i > 0, m);
    } else {
        assert(p_members(kids, i)[0] == 0x7d);
        assert(s[q + 0] == 0x7d);
        assert(skip_ws(s, q) == q);
    }
}
/// printed text is one JSON document, and parsing it makes exactly the value's calls
//@lemma C07 C10 C11
proof fn printed_text_is_json(t: Tree)
    ensures is_json(print(t)), g_value(print(t), 0, ROOT(), 0).calls == evs(t, ROOT(), 0),
{
    let s = print(t);
    assert(s.subrange(0, s.len() as int) =~= s);
    values_read_back(s, 0, t, ROOT(), 0);
}

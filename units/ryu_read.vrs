// ---- a printed double reads back as a double ----------------------------------
/// the value of the digits d appended to v
pub open spec fn valof(d: Seq<u8>, v: int) -> int
    decreases d.len(),
{ if d.len() == 0 { v } else { valof(d.drop_last(), v) * 10 + dval(d.last()) } }
pub open spec fn all_digits(d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i]) }
proof fn lem_val_cat(d: Seq<u8>, c: Seq<u8>, v: int)
    ensures valof(d + c, v) == valof(c, valof(d, v)),
    decreases c.len(),
{
    if c.len() == 0 { assert(d + c =~= d); }
    else { assert((d + c).drop_last() =~= d + c.drop_last()); assert((d + c).last() == c.last()); lem_val_cat(d, c.drop_last(), v); }
}
proof fn lem_val_grows(d: Seq<u8>, v: int)
    requires all_digits(d), v >= 0,
    ensures valof(d, v) >= v,
    decreases d.len(),
{
    if d.len() > 0 {
        assert forall|i: int| 0 <= i < d.drop_last().len() implies is_digit(#[trigger] d.drop_last()[i]) by { assert(is_digit(d[i])); }
        lem_val_grows(d.drop_last(), v);
        assert(is_digit(d[d.len() - 1]));
    }
}
proof fn lem_val_nat(n: int)
    requires n >= 0,
    ensures valof(p_nat(n), 0) == n,
    decreases n,
{
    let d = p_nat(n);
    if n >= 10 { lem_val_nat(n / 10); assert(d.drop_last() =~= p_nat(n / 10)); assert(d.last() == (0x30 + n % 10) as u8); }
    else { assert(d.drop_last() =~= Seq::<u8>::empty()); assert(d.last() == (0x30 + n) as u8); assert(valof(d.drop_last(), 0) == 0); }
}
proof fn lem_val_zeros(n: int)
    requires n >= 0,
    ensures valof(zeros(n), 0) == 0, all_digits(zeros(n)),
    decreases n,
{ if n > 0 { lem_val_zeros(n - 1); assert(zeros(n).drop_last() =~= zeros(n - 1)); assert(zeros(n).last() == 0x30u8); } }
/// k zeros more: below 10^(digits)
proof fn lem_val_bound(d: Seq<u8>)
    requires all_digits(d), d.len() <= 17,
    ensures 0 <= valof(d, 0) < 100_000_000_000_000_000
{
    lem_val_pow(d);
    lem_ten_mono(d.len(), 17);
    assert(ten(17) == 100_000_000_000_000_000) by (compute);
}
pub open spec fn ten(k: nat) -> int decreases k { if k == 0 { 1 } else { 10 * ten((k - 1) as nat) } }
proof fn lem_ten_mono(a: nat, b: nat)
    requires a <= b,
    ensures 1 <= ten(a) <= ten(b),
    decreases b,
{ if a < b { lem_ten_mono(a, (b - 1) as nat); } else if a > 0 { lem_ten_mono((a - 1) as nat, (a - 1) as nat); } }
proof fn lem_val_pow(d: Seq<u8>)
    requires all_digits(d),
    ensures 0 <= valof(d, 0) < ten(d.len()),
    decreases d.len(),
{
    if d.len() > 0 {
        assert forall|i: int| 0 <= i < d.drop_last().len() implies is_digit(#[trigger] d.drop_last()[i]) by { assert(is_digit(d[i])); }
        lem_val_pow(d.drop_last());
        assert(is_digit(d[d.len() - 1]));
    }
}
/// digits standing in the text
proof fn lem_digits_read(s: Seq<u8>, p: int, d: Seq<u8>, v: int)
    requires word_at(s, p, d), all_digits(d), v >= 0, valof(d, v) <= u64::MAX,
    ensures sig_end(s, p, v) == sig_end(s, p + d.len(), valof(d, v)), digits_end(s, p) == digits_end(s, p + d.len()),
    decreases d.len(),
{
    if d.len() > 0 {
        let a = d.drop_last(); let z = d.last();
        assert(d =~= a + seq![z]);
        lem_word_cat(s, p, a, seq![z]);
        assert forall|i: int| 0 <= i < a.len() implies is_digit(#[trigger] a[i]) by { assert(is_digit(d[i])); }
        assert(is_digit(d[d.len() - 1]));
        lem_val_grows(a, v);
        lem_digits_read(s, p, a, v);
        assert(s[p + a.len()] == z);
        lem_word_at(s, p, d);
    }
}
/// the digits of an exponent
proof fn lem_dec_read(s: Seq<u8>, p: int, d: Seq<u8>, v: int)
    requires word_at(s, p, d),
    ensures dec(s, p, p + d.len(), v) == valof(d, v),
    decreases d.len(),
{
    if d.len() > 0 {
        let a = d.drop_last(); let z = d.last();
        assert(d =~= a + seq![z]);
        lem_word_cat(s, p, a, seq![z]);
        lem_dec_read(s, p, a, v);
        lem_dec_last(s, p, p + a.len(), v);
        assert(s[p + a.len()] == z);
        lem_word_at(s, p, d);
    }
}
proof fn lem_dec_last(s: Seq<u8>, p: int, q: int, v: int)
    requires p <= q,
    ensures dec(s, p, q + 1, v) == dec(s, p, q, v) * 10 + dval(at(s, q)),
    decreases q - p,
{
    if p < q { lem_dec_last(s, p + 1, q, v * 10 + dval(at(s, p))); }
    else { assert(dec(s, q + 1, q + 1, v * 10 + dval(at(s, q))) == v * 10 + dval(at(s, q))); }
}
proof fn lem_exp_read(s: Seq<u8>, p: int, x: int)
    requires word_at(s, p, seq![0x65u8] + p_int(x)), ends_number(s, p + 1 + p_int(x).len()),
    ensures at(s, p) == 0x65, exp_part(s, p) == Some((x, p + 1 + p_int(x).len())),
{
    lem_word_cat(s, p, seq![0x65u8], p_int(x));
    let n = if x < 0 { -x } else { x };
    let q = if x < 0 { p + 2 } else { p + 1 };
    let d = p_nat(n);
    lem_nat_text(n);
    if x < 0 { lem_word_cat(s, p + 1, seq![0x2du8], d); } else { assert(p_int(x)[0] == d[0]); }
    lem_word_at(s, q, d);
    lem_word_at(s, p, seq![0x65u8] + p_int(x));
    assert(is_digit(d[0]));
    assert(s[q + 0] == d[0]);
    lem_val_nat(n);
    lem_dec_read(s, q, d, 0);
    lem_run_read(s, q, d);
    assert(digits_end(s, q + d.len()) == q + d.len());
}
proof fn lem_run_read(s: Seq<u8>, p: int, d: Seq<u8>)
    requires word_at(s, p, d), all_digits(d),
    ensures digits_end(s, p) == digits_end(s, p + d.len()),
    decreases d.len(),
{
    if d.len() > 0 {
        let a = d.drop_last(); let z = d.last();
        assert(d =~= a + seq![z]);
        lem_word_cat(s, p, a, seq![z]);
        assert forall|i: int| 0 <= i < a.len() implies is_digit(#[trigger] a[i]) by { assert(is_digit(d[i])); }
        assert(is_digit(d[d.len() - 1]));
        lem_run_read(s, p, a);
        assert(s[p + a.len()] == z);
        lem_word_at(s, p, d);
    }
}
/// what is read of the decimal m * 10^k: significand and exponent
pub open spec fn read_sig(m: int, k: int) -> int { if 0 <= k && p_nat(m).len() + k <= 16 { valof(p_nat(m) + zeros(k) + seq![0x30u8], 0) } else { m } }
pub open spec fn read_exp(m: int, k: int) -> int { if 0 <= k && p_nat(m).len() + k <= 16 { -1 } else { k } }
/// integer digits, a point, fraction digits
proof fn lem_point_read(s: Seq<u8>, q: int, nonneg: bool, i: Seq<u8>, f: Seq<u8>, e: int)
    requires word_at(s, q, i + seq![0x2eu8] + f), e == q + i.len() + 1 + f.len(), i.len() >= 1, f.len() >= 1, all_digits(i), all_digits(f),
        i[0] == 0x30 ==> i.len() == 1, valof(i + f, 0) <= u64::MAX, !is_digit(at(s, e)),
    ensures number(s, q, nonneg) == float_of(with_exp(s, e, nonneg, valof(i + f, 0), -(f.len() as int))), is_digit(at(s, q)),
{
    let v = valof(i, 0);
    lem_val_cat(i, f, 0);
    lem_val_grows(i, 0);
    lem_val_grows(f, v);
    lem_word_cat(s, q, i + seq![0x2eu8], f);
    lem_word_cat(s, q, i, seq![0x2eu8]);
    let p = q + i.len();
    assert(s[p] == 0x2e);
    lem_digits_read(s, q, i, 0);
    lem_digits_read(s, p + 1, f, v);
    lem_word_at(s, q, i);
    lem_word_at(s, p + 1, f);
    assert(is_digit(i[0])); assert(s[q + 0] == i[0]);
    assert(is_digit(f[0])); assert(s[p + 1 + 0] == f[0]);
    assert(sig_end(s, p, v) == (v, p));
    assert(digits_end(s, p) == p);
    assert(sig_end(s, e, valof(i + f, 0)) == (valof(i + f, 0), e));
    assert(digits_end(s, e) == e);
    if i[0] == 0x30 { assert(p == q + 1); } 
    assert(at(s, q) == i[0]);
}
/// the text of m * 10^k reads as that significand and exponent
#[verifier::spinoff_prover]
proof fn lem_dec_whole(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), 0 <= k && p_nat(m).len() + k <= 16,
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    hide(number); hide(exp_part); hide(digits_end); hide(p_nat); hide(p_int); hide(scaled); hide(sig_end);
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    let end = q + ryu_dec(m, k).len();
    lem_nat_text(m);
    lem_val_nat(m);
    if d[0] == 0x30 { lem_nat_zero(m); }
    lem_val_zeros(k);
    let i = d + zeros(k); let f = seq![0x30u8];
    assert(seq![0x2eu8, 0x30] =~= seq![0x2eu8] + f);
    assert(ryu_dec(m, k) =~= i + seq![0x2eu8] + f);
    assert(i + f =~= d + zeros(k) + seq![0x30u8]);
    assert(all_digits(i + f));
    lem_val_bound(i + f);
    lem_val_cat(i, f, 0); lem_val_cat(d, zeros(k), 0); 
    lem_val_grows(zeros(k), m); 
    assert((i + f).drop_last() =~= i);
    lem_point_read(s, q, nonneg, i, f, end);
}
#[verifier::spinoff_prover]
proof fn lem_dec_split(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), k < 0 && 0 < p_nat(m).len() + k <= 16,
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    hide(number); hide(exp_part); hide(digits_end); hide(p_nat); hide(p_int); hide(scaled); hide(sig_end);
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    let end = q + ryu_dec(m, k).len();
    lem_nat_text(m);
    lem_val_nat(m);
    if d[0] == 0x30 { lem_nat_zero(m); }
    let i = d.take(e); let f = d.skip(e);
    assert(i + f =~= d);
    lem_point_read(s, q, nonneg, i, f, end);
}
#[verifier::spinoff_prover]
proof fn lem_dec_small(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), -5 < p_nat(m).len() + k <= 0,
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    hide(number); hide(exp_part); hide(digits_end); hide(p_nat); hide(p_int); hide(scaled); hide(sig_end);
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    let end = q + ryu_dec(m, k).len();
    lem_nat_text(m);
    lem_val_nat(m);
    if d[0] == 0x30 { lem_nat_zero(m); }
    lem_val_zeros(-e);
    let i = seq![0x30u8]; let f = zeros(-e) + d;
    assert(ryu_dec(m, k) =~= i + seq![0x2eu8] + f);
    lem_val_cat(i, f, 0); lem_val_cat(zeros(-e), d, 0);
    assert(i =~= zeros(1)); lem_val_zeros(1);
    lem_point_read(s, q, nonneg, i, f, end);
}
/// digits, then an exponent
proof fn lem_bare_read(s: Seq<u8>, q: int, nonneg: bool, i: Seq<u8>, e: int)
    requires word_at(s, q, i), e == q + i.len(), i.len() >= 1, all_digits(i), i[0] == 0x30 ==> i.len() == 1, valof(i, 0) <= u64::MAX, at(s, e) == 0x65,
    ensures number(s, q, nonneg) == float_of(with_exp(s, e, nonneg, valof(i, 0), 0)), is_digit(at(s, q)),
{
    lem_digits_read(s, q, i, 0);
    lem_word_at(s, q, i);
    assert(is_digit(i[0])); assert(s[q + 0] == i[0]);
    assert(sig_end(s, e, valof(i, 0)) == (valof(i, 0), e));
    assert(digits_end(s, e) == e);
    assert(at(s, q) == i[0]);
}
#[verifier::spinoff_prover]
proof fn lem_dec_one(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), p_nat(m).len() == 1 && !(-5 < p_nat(m).len() + k <= 16),
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    hide(number); hide(exp_part); hide(digits_end); hide(p_nat); hide(p_int); hide(scaled); hide(valof); hide(sig_end);
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    let end = q + ryu_dec(m, k).len();
    lem_nat_text(m);
    lem_val_nat(m);
    if d[0] == 0x30 { lem_nat_zero(m); }
    let x = seq![0x65u8] + p_int(e - 1);
    assert(e - 1 >= 16 || e - 1 <= -6);
    assert(ryu_dec(m, k) =~= d + x);
    assert(x.len() == 1 + p_int(e - 1).len());
    lem_word_cat(s, q, d, x);
    assert(q + 1 + 1 + p_int(e - 1).len() == end);
    lem_exp_read(s, q + 1, e - 1);
    lem_bare_read(s, q, nonneg, d, q + 1);
    assert(with_exp(s, q + 1, nonneg, m, 0) == match scaled(nonneg, m, k) { Some(g) => Some((g, end)), None => None });
}
#[verifier::spinoff_prover]
proof fn lem_dec_sci(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), p_nat(m).len() > 1 && !(-5 < p_nat(m).len() + k <= 16),
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    hide(number); hide(exp_part); hide(digits_end); hide(p_nat); hide(p_int); hide(scaled); hide(valof); hide(sig_end);
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    let end = q + ryu_dec(m, k).len();
    lem_nat_text(m);
    lem_val_nat(m);
    if d[0] == 0x30 { lem_nat_zero(m); }
    let i = d.take(1); let f = d.skip(1); let x = seq![0x65u8] + p_int(e - 1);
    assert(i + f =~= d);
    assert(e - 1 >= 16 || e - 1 <= -6);
    let t = i + seq![0x2eu8] + f;
    assert(ryu_dec(m, k) =~= t + x);
    assert(t.len() == l + 1);
    assert(x.len() == 1 + p_int(e - 1).len());
    lem_word_cat(s, q, t, x);
    let r = q + 1 + l;
    assert(word_at(s, r, x));
    assert(r + 1 + p_int(e - 1).len() == end);
    lem_exp_read(s, r, e - 1);
    assert(all_digits(i)) by { assert forall|n: int| 0 <= n < i.len() implies is_digit(#[trigger] i[n]) by { assert(is_digit(d[n])); } }
    assert(all_digits(f)) by { assert forall|n: int| 0 <= n < f.len() implies is_digit(#[trigger] f[n]) by { assert(is_digit(d[n + 1])); } }
    lem_point_read(s, q, nonneg, i, f, r);
    assert(-(f.len() as int) + (e - 1) == k);
    assert(with_exp(s, r, nonneg, m, -(f.len() as int)) == match scaled(nonneg, m, k) { Some(g) => Some((g, end)), None => None });
}
proof fn lem_dec_back(s: Seq<u8>, q: int, nonneg: bool, m: int, k: int)
    requires dec_ok(m, k), word_at(s, q, ryu_dec(m, k)), ends_number(s, q + ryu_dec(m, k).len()), 
    ensures
        number(s, q, nonneg) == float_of(match scaled(nonneg, read_sig(m, k), read_exp(m, k)) { Some(f) => Some((f, q + ryu_dec(m, k).len())), None => None }),
        is_digit(at(s, q)), ryu_dec(m, k).len() > 0,
        1 <= read_sig(m, k) <= u64::MAX, read_exp(m, k) == k || read_exp(m, k) == -1,
{
    lem_nat_text(m);
    if 0 <= k && p_nat(m).len() + k <= 16 { lem_dec_whole(s, q, nonneg, m, k); }
    else if k < 0 && 0 < p_nat(m).len() + k <= 16 { lem_dec_split(s, q, nonneg, m, k); }
    else if -5 < p_nat(m).len() + k <= 0 { lem_dec_small(s, q, nonneg, m, k); }
    else if p_nat(m).len() == 1 && !(-5 < p_nat(m).len() + k <= 16) { lem_dec_one(s, q, nonneg, m, k); }
    else if p_nat(m).len() > 1 && !(-5 < p_nat(m).len() + k <= 16) { lem_dec_sci(s, q, nonneg, m, k); }
}
/// IEEE: the shortest decimal of a finite double does not overflow when it is read
pub axiom fn ax_in_range(mant: u64, expo: u32)
    requires mant < 0x10_0000_0000_0000, expo < 0x7ff, mant != 0 || expo != 0,
    ensures 0 <= dec_k(mant, expo) <= 308 ==> !f_inf(f_mul(f_of_u64(dec_m(mant, expo) as u64), pow10(dec_k(mant, expo))));
/// the double the reader makes of a printed double (not always the same bits: the reader rounds twice)
#[verifier::opaque]
pub open spec fn reread(f: f64) -> f64 {
    let b = f_bits(f);
    let (m, k) = (dec_m(b_mant(b), b_expo(b)), dec_k(b_mant(b), b_expo(b)));
    if b_mant(b) == 0 && b_expo(b) == 0 { f_sign(!b_neg(b), f_zero()) } else { scaled(!b_neg(b), read_sig(m, k), read_exp(m, k))->0 }
}
/// the text of a finite double is a JSON number with a fraction or an exponent, in range
//@lemma C09
proof fn floats_read_back(s: Seq<u8>, p: int, f: f64)
    requires f_finite(f), word_at(s, p, ryu_text(f)), ends_number(s, p + ryu_text(f).len()),
    ensures token(s, p) == Some((Ev::Float(reread(f)), p + ryu_text(f).len())), ryu_text(f).len() > 0,
{
    reveal(ryu_text); reveal(reread);
    let b = f_bits(f);
    ax_finite_bits(f);
    let sg = if b_neg(b) { seq![0x2du8] } else { Seq::<u8>::empty() };
    let q = p + sg.len();
    let zero = b_mant(b) == 0 && b_expo(b) == 0;
    let (m, k) = (dec_m(b_mant(b), b_expo(b)), dec_k(b_mant(b), b_expo(b)));
    let t = if zero { b_zero() } else { ryu_dec(m, k) };
    assert(ryu_text(f) == sg + t);
    lem_word_cat(s, p, sg, t);
    if zero {
        assert(b_zero() =~= zeros(1) + seq![0x2eu8] + zeros(1));
        lem_val_zeros(1); lem_val_zeros(2);
        assert(zeros(1) + zeros(1) =~= zeros(2));
        lem_point_read(s, q, !b_neg(b), zeros(1), zeros(1), q + 3);
    } else {
        ax_d2d(b_mant(b), b_expo(b));
        ax_in_range(b_mant(b), b_expo(b));
        lem_nat_text(m);
        lem_dec_back(s, q, !b_neg(b), m, k);
    }
    lem_word_at(s, p, ryu_text(f));
}

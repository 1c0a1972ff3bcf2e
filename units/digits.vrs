// ---- decimal digits of a number, as specified and as a pair table has them ----
//@include itoa_spec.vrs
/// the digits of n, none for 0
pub open spec fn pre(n: int) -> Seq<u8> { if n == 0 { Seq::empty() } else { p_nat(n) } }
pub proof fn lem_digits(n: int)
    requires n >= 0,
    ensures p_nat(n).len() >= 1, forall|i: int| 0 <= i < p_nat(n).len() ==> 0x30 <= #[trigger] p_nat(n)[i] <= 0x39,
    decreases n,
{ if n >= 10 { lem_digits(n / 10); } }
/// a number below 10^k has at most k digits
pub proof fn lem_width(n: int, k: nat)
    requires 0 <= n < pow(10, k), k >= 1,
    ensures p_nat(n).len() <= k,
    decreases k,
{
    reveal_with_fuel(pow, 2);
    if n >= 10 { assert(k > 1); assert(n / 10 < pow(10, (k - 1) as nat)) by (nonlinear_arith) requires n < 10 * pow(10, (k - 1) as nat); lem_width(n / 10, (k - 1) as nat); }
}
pub proof fn lem_one(n: int)
    requires n >= 1,
    ensures pre(n) == pre(n / 10).push((0x30 + n % 10) as u8),
{ if n < 10 { assert(pre(n) =~= pre(n / 10).push((0x30 + n % 10) as u8)); } }
pub proof fn lem_two(n: int)
    requires n >= 10,
    ensures pre(n) == pre(n / 100) + seq![(0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8],
{
    lem_one(n);
    lem_one(n / 10);
    assert(n / 10 / 10 == n / 100);
    assert(pre(n) =~= pre(n / 100) + seq![(0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8]);
}
pub proof fn lem_four(n: int)
    requires n >= 1000,
    ensures pre(n) == pre(n / 10000) + seq![(0x30 + n / 1000 % 10) as u8, (0x30 + n / 100 % 10) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8],
{
    lem_two(n);
    lem_two(n / 100);
    assert(n / 100 / 100 == n / 10000);
    assert(n / 100 / 10 == n / 1000);
    assert(pre(n) =~= pre(n / 10000) + seq![(0x30 + n / 1000 % 10) as u8, (0x30 + n / 100 % 10) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8]);
}
/// the pair table's entries for the pairs a four-digit group splits into
pub proof fn lem_pairs(n: int, p: int, q: int)
    requires n >= 0, p == n % 10000 / 100, q == n % 10000 % 100,
    ensures
        0 <= p < 100, 0 <= q < 100,
        pd(p * 2) == (0x30 + n / 1000 % 10) as u8, pd(p * 2 + 1) == (0x30 + n / 100 % 10) as u8,
        pd(q * 2) == (0x30 + n / 10 % 10) as u8, pd(q * 2 + 1) == (0x30 + n % 10) as u8,
{
    lem_pair(p); lem_pair(q);
    let a = n / 10000;
    let m = n % 10000;
    assert(n == 10000 * a + 100 * p + q);
    lem_tens(p); lem_tens(q);
    lem_dm(n, 1000, 10 * a + p / 10, 100 * (p % 10) + q);
    lem_dm(n / 1000, 10, a, p / 10);
    lem_dm(n, 100, 100 * a + p, q);
    lem_dm(n / 100, 10, 10 * a + p / 10, p % 10);
    lem_dm(n, 10, 1000 * a + 10 * p + q / 10, q % 10);
    lem_dm(n / 10, 10, 100 * a + p, q / 10);
}
pub proof fn lem_tens(q: int)
    requires 0 <= q < 100,
    ensures q == 10 * (q / 10) + q % 10, 0 <= q / 10 < 10, 0 <= q % 10 < 10
{ }
pub proof fn lem_dm(n: int, d: int, a: int, r: int)
    requires n == d * a + r, 0 <= r < d, d > 0
    ensures n / d == a, n % d == r
{ assert(a * d == d * a) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, d, a, r); }
pub proof fn lem_pair(q: int)
    requires 0 <= q < 100,
    ensures (q * 2) / 20 == q / 10, ((q * 2 + 1) / 2) % 10 == q % 10, (q * 2) % 2 == 0, (q * 2 + 1) % 2 == 1, pd(q * 2) == (0x30 + q / 10) as u8, pd(q * 2 + 1) == (0x30 + q % 10) as u8
{ assert((q * 2 + 1) / 2 == q); assert((q * 2) / 20 == q / 10); }
pub proof fn lem_4len(n: int)
    requires n > 0,
    ensures pre(n).len() >= 1, n >= 10 ==> pre(n).len() >= 2, n >= 1000 ==> pre(n).len() >= 4
{ lem_digits(n); if n >= 10 { lem_two(n); } if n >= 1000 { lem_four(n); } }
pub proof fn lem_last(n: int)
    ensures n > 0 ==> pre(n) == p_nat(n), p_nat(0) == seq![0x30u8], pre(0) == Seq::<u8>::empty(), 1 <= n < 10 ==> pre(n) == seq![(0x30 + n) as u8]
{ }
pub proof fn lem_rem(n: int)
    requires n >= 0,
    ensures n % 100 / 10 == n / 10 % 10, n % 100 % 10 == n % 10
{ lem_dm(n, 10, 10 * (n / 100) + n % 100 / 10, n % 10); lem_dm(n / 10, 10, n / 100, n % 100 / 10); }
pub open spec fn pow(b: int, k: nat) -> int decreases k { if k == 0 { 1 } else { b * pow(b, (k - 1) as nat) } }
/// the table's byte i
pub open spec fn pd(i: int) -> u8 { if i % 2 == 0 { (0x30 + i / 20) as u8 } else { (0x30 + (i / 2) % 10) as u8 } }

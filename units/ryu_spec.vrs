// ---- the text ryu writes for a double: a decimal m * 10^k with at most 17 digits ----
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0x30u8) }
pub open spec fn b_zero() -> Seq<u8> { seq![0x30u8, 0x2e, 0x30] }
/// m * 10^k, m >= 1
pub open spec fn ryu_dec(m: int, k: int) -> Seq<u8> {
    let d = p_nat(m);
    let l = d.len() as int;
    let e = l + k;
    if 0 <= k && e <= 16 { d + zeros(k) + seq![0x2eu8, 0x30] }
    else if 0 < e && e <= 16 { d.take(e) + seq![0x2eu8] + d.skip(e) }
    else if -5 < e && e <= 0 { seq![0x30u8, 0x2e] + zeros(-e) + d }
    else if l == 1 { d + seq![0x65u8] + p_int(e - 1) }
    else { d.take(1) + seq![0x2eu8] + d.skip(1) + seq![0x65u8] + p_int(e - 1) }
}
/// f64::to_bits
pub uninterp spec fn f_bits(f: f64) -> u64;
/// IEEE: finite exactly when the exponent field is not all ones
pub axiom fn ax_finite_bits(f: f64)
    ensures f_finite(f) <==> b_expo(f_bits(f)) != 0x7ff, b_mant(f_bits(f)) < 0x10_0000_0000_0000, b_expo(f_bits(f)) <= 0x7ff;
pub open spec fn b_neg(b: u64) -> bool { b >= 0x8000_0000_0000_0000 }
pub open spec fn b_mant(b: u64) -> u64 { (b % 0x10_0000_0000_0000) as u64 }
pub open spec fn b_expo(b: u64) -> u32 { (b / 0x10_0000_0000_0000 % 0x800) as u32 }
/// the shortest decimal of the double with these fields (d2s::d2d)
pub uninterp spec fn dec_m(mant: u64, expo: u32) -> int;
pub uninterp spec fn dec_k(mant: u64, expo: u32) -> int;
/// d2s::d2d: at most 17 digits, within the range of a double
pub open spec fn dec_ok(m: int, k: int) -> bool { 1 <= m < 100_000_000_000_000_000 && -324 <= k && k + p_nat(m).len() <= 309 }
pub open spec fn ryu_bits(b: u64) -> Seq<u8> {
    (if b_neg(b) { seq![0x2du8] } else { Seq::<u8>::empty() })
        + (if b_mant(b) == 0 && b_expo(b) == 0 { b_zero() } else { ryu_dec(dec_m(b_mant(b), b_expo(b)), dec_k(b_mant(b), b_expo(b))) })
}
/// the text the float formatter produces for a finite double
#[verifier::opaque]
pub open spec fn ryu_text(f: f64) -> Seq<u8> { ryu_bits(f_bits(f)) }
pub axiom fn ax_d2d(mant: u64, expo: u32)
    requires mant < 0x10_0000_0000_0000, expo < 0x7ff, mant != 0 || expo != 0,
    ensures dec_ok(dec_m(mant, expo), dec_k(mant, expo));

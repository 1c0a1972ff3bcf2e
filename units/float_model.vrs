// ---------------------------------------------------------------------------
// Floating point: operators are uninterpreted; the axioms below are facts of
// IEEE-754 binary64, proved about the machine operators by Kani (kani/, complete harnesses).
// ---------------------------------------------------------------------------
pub uninterp spec fn f_of_u64(n: u64) -> f64;
pub uninterp spec fn f_of_i64(n: i64) -> f64;
pub uninterp spec fn f_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn f_div(a: f64, b: f64) -> f64;
pub uninterp spec fn f_neg(a: f64) -> f64;
pub uninterp spec fn f_eq(a: f64, b: f64) -> bool;
pub uninterp spec fn f_inf(a: f64) -> bool;
pub uninterp spec fn f_finite(a: f64) -> bool;
pub uninterp spec fn f_lit(m: int, e: int) -> f64;   // the double nearest to m * 10^e
pub uninterp spec fn f32_of_u64(n: u64) -> f32;
pub uninterp spec fn f32_of_i64(n: i64) -> f32;
pub uninterp spec fn f32_of_f64(n: f64) -> f32;
pub uninterp spec fn f64_of_f32(n: f32) -> f64;

pub open spec fn pow10(i: int) -> f64 { f_lit(1, i) }
pub open spec fn f_zero() -> f64 { f_lit(0, 0) }

pub open spec fn f_sign(nonneg: bool, f: f64) -> f64 { if nonneg { f } else { f_neg(f) } }

#[verifier::external_body] pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == f_mul(a, b) { a * b }
#[verifier::external_body] pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == f_div(a, b) { a / b }
#[verifier::external_body] pub fn vx_fneg(a: f64) -> (r: f64) ensures r == f_neg(a) { -a }
#[verifier::external_body] pub fn vx_feq(a: f64, b: f64) -> (r: bool) ensures r == f_eq(a, b) { a == b }
pub assume_specification [f64::is_infinite] (a: f64) -> (r: bool) ensures r == f_inf(a);
pub assume_specification [f64::is_finite] (a: f64) -> (r: bool) ensures r == f_finite(a);

pub trait VxCast: Sized {
    spec fn s_f64(self) -> f64;
    spec fn s_f32(self) -> f32;
    fn vx_as_f64(self) -> (r: f64) ensures r == self.s_f64();
    fn vx_as_f32(self) -> (r: f32) ensures r == self.s_f32();
}
impl VxCast for u64 {
    open spec fn s_f64(self) -> f64 { f_of_u64(self) }
    open spec fn s_f32(self) -> f32 { f32_of_u64(self) }
    #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 }
    #[verifier::external_body] fn vx_as_f32(self) -> (r: f32) { self as f32 }
}
impl VxCast for i64 {
    open spec fn s_f64(self) -> f64 { f_of_i64(self) }
    open spec fn s_f32(self) -> f32 { f32_of_i64(self) }
    #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 }
    #[verifier::external_body] fn vx_as_f32(self) -> (r: f32) { self as f32 }
}
impl VxCast for f64 {
    open spec fn s_f64(self) -> f64 { self }
    open spec fn s_f32(self) -> f32 { f32_of_f64(self) }
    #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self }
    #[verifier::external_body] fn vx_as_f32(self) -> (r: f32) { self as f32 }
}
impl VxCast for f32 {
    open spec fn s_f64(self) -> f64 { f64_of_f32(self) }
    open spec fn s_f32(self) -> f32 { self }
    #[verifier::external_body] fn vx_as_f64(self) -> (r: f64) { self as f64 }
    #[verifier::external_body] fn vx_as_f32(self) -> (r: f32) { self }
}

/// a decimal literal of the source text
#[verifier::external_body]
pub const fn vx_flit(m: u64, e: i32, v: f64) -> (r: f64) ensures r == f_lit(m as int, e as int) { v }

// ---- the value of a decimal number: significand * 10^x, rounding at each step
/// None: magnitude beyond the double range
pub open spec fn scaled(nonneg: bool, sig: int, x: int) -> Option<f64> {
    let f = f_of_u64(sig as u64);
    if sig == 0 { Some(f_sign(nonneg, f_zero())) }
    else if x > 308 { None }
    else if x >= 0 { let g = f_mul(f, pow10(x)); if f_inf(g) { None } else { Some(f_sign(nonneg, g)) } }
    else if x >= -308 { Some(f_sign(nonneg, f_div(f, pow10(-x)))) }
    else if x >= -616 { Some(f_sign(nonneg, f_div(f_div(f, pow10(308)), pow10(-x - 308)))) }
    else { Some(f_sign(nonneg, f_zero())) }
}

// IEEE-754 facts used (each proved for every u64 / every double by a complete Kani harness, see kani/)
pub axiom fn ax_float_zero(n: u64, x: int)
    ensures
        f_eq(f_of_u64(n), f_zero()) <==> n == 0,
        f_of_u64(0) == f_zero(),
        // 0 * 10^x = 0 / 10^x = +0 and 0 is finite
        0 <= x <= 308 ==> f_mul(f_zero(), pow10(x)) == f_zero(),
        0 <= x <= 308 ==> f_div(f_zero(), pow10(x)) == f_zero(),
        !f_inf(f_zero()),
        f_eq(f_zero(), f_zero()),
        // one division by 1e308 leaves a positive integer nonzero, two leave zero
        n != 0 ==> !f_eq(f_div(f_of_u64(n), pow10(308)), f_zero()),
        f_div(f_div(f_of_u64(n), pow10(308)), pow10(308)) == f_zero();
/// conversion from u64 is finite, so is a finite double over a power of ten; a product of two finite positive
/// doubles is finite or infinite
pub axiom fn ax_float_finite(n: u64, x: int, f: f64)
    ensures
        f_finite(f_zero()), f_finite(f_of_u64(n)),
        0 <= x <= 308 && !f_inf(f_mul(f_of_u64(n), pow10(x))) ==> f_finite(f_mul(f_of_u64(n), pow10(x))),
        0 <= x <= 308 && f_finite(f) ==> f_finite(f_div(f, pow10(x)));
pub axiom fn ax_neg_finite(f: f64) ensures f_finite(f) ==> f_finite(f_neg(f));

//! The axioms of units/float_model.vrs, each for every double / every u64 (complete: no loop, no bound).
//! `cargo kani` proves them about the machine operators the model's functions stand for.
#![allow(dead_code)]
/// 1e0 ..= 1e308, as the compiler reads them
const POW10: [f64; 309] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 1e24, 1e25, 1e26, 1e27, 1e28, 1e29, 1e30, 1e31, 1e32, 1e33, 1e34, 1e35, 1e36, 1e37, 1e38, 1e39, 1e40, 1e41, 1e42, 1e43, 1e44, 1e45, 1e46, 1e47, 1e48, 1e49, 1e50, 1e51, 1e52, 1e53, 1e54, 1e55, 1e56, 1e57, 1e58, 1e59, 1e60, 1e61, 1e62, 1e63, 1e64, 1e65, 1e66, 1e67, 1e68, 1e69, 1e70, 1e71, 1e72, 1e73, 1e74, 1e75, 1e76, 1e77, 1e78, 1e79, 1e80, 1e81, 1e82, 1e83, 1e84, 1e85, 1e86, 1e87, 1e88, 1e89, 1e90, 1e91, 1e92, 1e93, 1e94, 1e95, 1e96, 1e97, 1e98, 1e99, 1e100, 1e101, 1e102, 1e103, 1e104, 1e105, 1e106, 1e107, 1e108, 1e109, 1e110, 1e111, 1e112, 1e113, 1e114, 1e115, 1e116, 1e117, 1e118, 1e119, 1e120, 1e121, 1e122, 1e123, 1e124, 1e125, 1e126, 1e127, 1e128, 1e129, 1e130, 1e131, 1e132, 1e133, 1e134, 1e135, 1e136, 1e137, 1e138, 1e139, 1e140, 1e141, 1e142, 1e143, 1e144, 1e145, 1e146, 1e147, 1e148, 1e149, 1e150, 1e151, 1e152, 1e153, 1e154, 1e155, 1e156, 1e157, 1e158, 1e159, 1e160, 1e161, 1e162, 1e163, 1e164, 1e165, 1e166, 1e167, 1e168, 1e169, 1e170, 1e171, 1e172, 1e173, 1e174, 1e175, 1e176, 1e177, 1e178, 1e179, 1e180, 1e181, 1e182, 1e183, 1e184, 1e185, 1e186, 1e187, 1e188, 1e189, 1e190, 1e191, 1e192, 1e193, 1e194, 1e195, 1e196, 1e197, 1e198, 1e199, 1e200, 1e201, 1e202, 1e203, 1e204, 1e205, 1e206, 1e207, 1e208, 1e209, 1e210, 1e211, 1e212, 1e213, 1e214, 1e215, 1e216, 1e217, 1e218, 1e219, 1e220, 1e221, 1e222, 1e223, 1e224, 1e225, 1e226, 1e227, 1e228, 1e229, 1e230, 1e231, 1e232, 1e233, 1e234, 1e235, 1e236, 1e237, 1e238, 1e239, 1e240, 1e241, 1e242, 1e243, 1e244, 1e245, 1e246, 1e247, 1e248, 1e249, 1e250, 1e251, 1e252, 1e253, 1e254, 1e255, 1e256, 1e257, 1e258, 1e259, 1e260, 1e261, 1e262, 1e263, 1e264, 1e265, 1e266, 1e267, 1e268, 1e269, 1e270, 1e271, 1e272, 1e273, 1e274, 1e275, 1e276, 1e277, 1e278, 1e279, 1e280, 1e281, 1e282, 1e283, 1e284, 1e285, 1e286, 1e287, 1e288, 1e289, 1e290, 1e291, 1e292, 1e293, 1e294, 1e295, 1e296, 1e297, 1e298, 1e299, 1e300, 1e301, 1e302, 1e303, 1e304, 1e305, 1e306, 1e307, 1e308];

#[cfg(kani)]
mod float_facts {
    use super::POW10;
    fn is_pos_zero(f: f64) -> bool { f.to_bits() == 0 }
    fn pow() -> f64 { let x: usize = kani::any(); kani::assume(x <= 308); POW10[x] }

    // ax_float_zero
    #[kani::proof] fn u64_is_zero() { let n: u64 = kani::any(); assert!((n as f64 == 0.0) == (n == 0)); assert!(is_pos_zero(0u64 as f64)); assert!(!0.0f64.is_infinite()); assert!(0.0f64 == 0.0); }
    #[kani::proof] fn zero_times_pow() { let p = pow(); assert!(is_pos_zero(0.0 * p)); }
    #[kani::proof] fn zero_over_pow() { let p = pow(); assert!(is_pos_zero(0.0 / p)); }
    #[kani::proof] fn one_division_stays_nonzero() { let n: u64 = kani::any(); kani::assume(n != 0); assert!(n as f64 / 1e308 != 0.0); }
    #[kani::proof] fn two_divisions_vanish() { let n: u64 = kani::any(); assert!(is_pos_zero(n as f64 / 1e308 / 1e308)); }
    // ax_float_finite
    #[kani::proof] fn u64_is_finite() { let n: u64 = kani::any(); assert!((n as f64).is_finite()); assert!(0.0f64.is_finite()); }
    #[kani::proof] fn product_is_finite_or_infinite() { let n: u64 = kani::any(); let g = n as f64 * pow(); assert!(g.is_infinite() || g.is_finite()); }
    #[kani::proof] fn quotient_is_finite() { let f: f64 = kani::any(); kani::assume(f.is_finite()); assert!((f / pow()).is_finite()); }
    // ax_neg_finite
    #[kani::proof] fn negation_is_finite() { let f: f64 = kani::any(); kani::assume(f.is_finite()); assert!((-f).is_finite()); }
    // ax_finite_bits
    #[kani::proof] fn finite_by_its_bits() {
        let f: f64 = kani::any();
        let b = f.to_bits();
        let (mant, expo) = (b % 0x10_0000_0000_0000, (b / 0x10_0000_0000_0000 % 0x800) as u32);
        assert!(f.is_finite() == (expo != 0x7ff));
        assert!(f.is_finite() == !(f.is_nan() || f.is_infinite()));
        assert!(mant < 0x10_0000_0000_0000 && expo <= 0x7ff);
    }
}

/// The contracts of units/std_specs.vrs and units/std_extra.vrs on functions over machine scalars, each
/// proved about the standard library's own code for every argument (complete: no bound is reached).
#[cfg(kani)]
mod std_facts {
    fn scalar(n: u32) -> bool { n <= 0x10ffff && !(n >= 0xd800 && n <= 0xdfff) }
    #[kani::proof] fn char_from_u32() { let n: u32 = kani::any(); match char::from_u32(n) { Some(c) => assert!(scalar(n) && c as u32 == n), None => assert!(!scalar(n)) } }
    #[kani::proof] fn char_scalar() { let c: char = kani::any(); assert!(scalar(c as u32)); }
    // the text handed back is the one-character text: its bytes are the encoding vstd::utf8::encode_scalar gives
    #[kani::proof] fn char_encode_utf8() {
        let c: char = kani::any();
        let n = c as u32;
        let mut d = [0u8; 4];
        let r = c.encode_utf8(&mut d).as_bytes();
        if n <= 0x7f { assert!(r.len() == 1 && r[0] as u32 == n) }
        else if n <= 0x7ff { assert!(r.len() == 2 && r[0] as u32 == 0xc0 | (n >> 6) && r[1] as u32 == 0x80 | (n & 0x3f)) }
        else if n <= 0xffff { assert!(r.len() == 3 && r[0] as u32 == 0xe0 | (n >> 12) && r[1] as u32 == 0x80 | ((n >> 6) & 0x3f) && r[2] as u32 == 0x80 | (n & 0x3f)) }
        else { assert!(r.len() == 4 && r[0] as u32 == 0xf0 | (n >> 18) && r[1] as u32 == 0x80 | ((n >> 12) & 0x3f) && r[2] as u32 == 0x80 | ((n >> 6) & 0x3f) && r[3] as u32 == 0x80 | (n & 0x3f)) }
    }
    #[kani::proof] fn char_to_digit() {
        let c: char = kani::any();
        let n = c as u32;
        let d = if 0x30 <= n && n <= 0x39 { n - 0x30 } else if 0x41 <= n && n <= 0x46 { n - 0x41 + 10 } else if 0x61 <= n && n <= 0x66 { n - 0x61 + 10 } else { 99 };
        assert!(c.to_digit(10) == if d < 10 { Some(d) } else { None });
        assert!(c.to_digit(16) == if d < 16 { Some(d) } else { None });
    }
    #[kani::proof] fn i32_arith() {
        let (a, b): (i32, i32) = (kani::any(), kani::any());
        let clamp = |x: i64| if x > i32::MAX as i64 { i32::MAX } else if x < i32::MIN as i64 { i32::MIN } else { x as i32 };
        assert!(a.saturating_add(b) == clamp(a as i64 + b as i64));
        assert!(a.saturating_sub(b) == clamp(a as i64 - b as i64));
        assert!(a.unsigned_abs() as i64 == if a < 0 { -(a as i64) } else { a as i64 });
        if a > i32::MIN { assert!(a.abs() as i64 == if a < 0 { -(a as i64) } else { a as i64 }) }
    }
    // the lengths itoa's buffers have
    #[kani::proof] fn decimal_lengths() { assert!(u64::MAX.ilog10() + 1 == 20 && i64::MAX.ilog10() + 2 == 20); }
    #[kani::proof] fn i64_arith() {
        let a: i64 = kani::any();
        assert!(a.wrapping_neg() == if a == i64::MIN { i64::MIN } else { -a });
        assert!(a.checked_neg() == if a == i64::MIN { None } else { Some(-a) });
        assert!(a.unsigned_abs() as i128 == if a < 0 { -(a as i128) } else { a as i128 });
    }
    #[kani::proof] fn u64_overflowing_add() { let (a, b): (u64, u64) = (kani::any(), kani::any()); let (r, o) = a.overflowing_add(b); let s = a as u128 + b as u128; assert!(o == (s > u64::MAX as u128)); if !o { assert!(r as u128 == s) } }
    #[kani::proof] fn u8_classes() {
        let b: u8 = kani::any();
        assert!(b.is_ascii_digit() == (0x30 <= b && b <= 0x39));
        assert!(b.is_ascii_hexdigit() == (0x30 <= b && b <= 0x39 || 0x41 <= b && b <= 0x46 || 0x61 <= b && b <= 0x66));
        assert!(b.is_ascii_control() == (b < 0x20 || b == 0x7f));
        assert!(b.is_ascii_whitespace() == (b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0c || b == 0x0d));
        assert!(b.is_ascii_alphabetic() == (0x41 <= b && b <= 0x5a || 0x61 <= b && b <= 0x7a));
        assert!(b.is_ascii() == (b < 0x80));
        assert!(b.is_ascii_uppercase() == (0x41 <= b && b <= 0x5a));
        assert!(b.is_ascii_lowercase() == (0x61 <= b && b <= 0x7a));
        assert!(b.is_ascii_alphanumeric() == (b.is_ascii_digit() || b.is_ascii_uppercase() || b.is_ascii_lowercase()));
        let c: char = kani::any();
        assert!(c.is_ascii_digit() == (0x30 <= c as u32 && c as u32 <= 0x39));
        assert!(b.to_ascii_lowercase() == if 0x41 <= b && b <= 0x5a { b + 0x20 } else { b });
        assert!(b.to_ascii_uppercase() == if 0x61 <= b && b <= 0x7a { b - 0x20 } else { b });
        assert!(i32::from(b) == b as i32);
    }
    #[kani::proof] fn widening() {
        let (a, b, c): (u8, u16, u32) = (kani::any(), kani::any(), kani::any());
        assert!(i16::from(a) as i64 == a as i64 && i32::from(a) as i64 == a as i64 && i64::from(a) == a as i64);
        assert!(i32::from(b) as i64 == b as i64 && i64::from(b) == b as i64 && i64::from(c) == c as i64);
        let t: bool = kani::any();
        let n = if t { 1u8 } else { 0 };
        assert!(u8::from(t) == n && u16::from(t) == n as u16 && u32::from(t) == n as u32 && u64::from(t) == n as u64 && usize::from(t) == n as usize && i32::from(t) == n as i32 && i64::from(t) == n as i64);
        let x: char = kani::any();
        assert!(char::from(a) == a as char && u32::from(x) == x as u32 && u64::from(x) == x as u64);
        assert!(i64::from(c as i64) == c as i64);
    }
    #[kani::proof] fn signs() {
        let (a, b, u): (i64, i32, u64) = (kani::any(), kani::any(), kani::any());
        assert!(a.is_negative() == (a < 0) && a.is_positive() == (a > 0) && b.is_negative() == (b < 0) && b.is_positive() == (b > 0));
        assert!(u.wrapping_neg() as u128 == if u == 0 { 0 } else { 0x1_0000_0000_0000_0000u128 - u as u128 });
    }
    // the narrowing conversions of the integer visitors: an Ok carries the number itself, an Err means it does not fit
    macro_rules! narrow {
        ($($name:ident $t:ty: $($s:ty)*;)*) => {$(
            #[kani::proof] fn $name() { $({
                let x: $s = kani::any();
                let w = x as i128;
                match <$t>::try_from(x) { Ok(v) => assert!(v as i128 == w), Err(_) => assert!(w < <$t>::MIN as i128 || w > <$t>::MAX as i128) }
            })* }
        )*};
    }
    narrow! {
        to_u8 u8: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_u16 u16: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_u32 u32: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_u64 u64: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_usize usize: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_i8 i8: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_i16 i16: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_i32 i32: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_i64 i64: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
        to_isize isize: u8 u16 u32 u64 usize i8 i16 i32 i64 isize;
    }
}

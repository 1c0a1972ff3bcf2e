// ---------------------------------------------------------------------------
// More standard-library functions vstd has no contract for. The present source does not call them; an edit
// that does keeps its proof. Each contract is the function's documentation (assumed).
// ---------------------------------------------------------------------------
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None::<T> };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == if o is Some { o } else { p };
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool)
    ensures r == (0x30 <= *b <= 0x39);
pub assume_specification [u8::is_ascii_hexdigit] (b: &u8) -> (r: bool)
    ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x46 || 0x61 <= *b <= 0x66);
pub assume_specification [u8::is_ascii_control] (b: &u8) -> (r: bool)
    ensures r == (*b < 0x20 || *b == 0x7f);
pub assume_specification [u8::is_ascii_whitespace] (b: &u8) -> (r: bool)
    ensures r == (*b == 0x20 || *b == 0x09 || *b == 0x0a || *b == 0x0c || *b == 0x0d);
pub assume_specification [u8::is_ascii_alphabetic] (b: &u8) -> (r: bool)
    ensures r == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [u8::to_ascii_lowercase] (b: &u8) -> (r: u8)
    ensures r == if 0x41 <= *b <= 0x5a { (*b + 0x20) as u8 } else { *b };
pub assume_specification [u8::to_ascii_uppercase] (b: &u8) -> (r: u8)
    ensures r == if 0x61 <= *b <= 0x7a { (*b - 0x20) as u8 } else { *b };
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>)
    ensures r == if a == i64::MIN { None::<i64> } else { Some((-a) as i64) };
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64)
    ensures r == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [i32::abs] (a: i32) -> (r: i32)
    requires a > i32::MIN,
    ensures r == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [u64::overflowing_mul] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a * b > u64::MAX), a * b <= u64::MAX ==> r.0 == a * b;
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a + b > u64::MAX), a + b <= u64::MAX ==> r.0 == a + b;
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires radix == 10 || radix == 16,
    ensures r == {
        let n = c as u32;
        let d = if 0x30 <= n <= 0x39 { n - 0x30 } else if 0x41 <= n <= 0x46 { n - 0x41 + 10 } else if 0x61 <= n <= 0x66 { n - 0x61 + 10 } else { 99 };
        if d < radix { Some(d as u32) } else { None::<u32> }
    };
pub assume_specification [<i16 as From<u8>>::from] (n: u8) -> (r: i16) ensures r == n;
pub assume_specification [<i32 as From<u8>>::from] (n: u8) -> (r: i32) ensures r == n;
pub assume_specification [<i32 as From<u16>>::from] (n: u16) -> (r: i32) ensures r == n;
pub assume_specification [<i64 as From<u8>>::from] (n: u8) -> (r: i64) ensures r == n;
pub assume_specification [<i64 as From<u16>>::from] (n: u16) -> (r: i64) ensures r == n;
pub assume_specification [<i64 as From<u32>>::from] (n: u32) -> (r: i64) ensures r == n;
pub assume_specification [<u8 as From<bool>>::from] (b: bool) -> (r: u8) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<u16 as From<bool>>::from] (b: bool) -> (r: u16) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<u32 as From<bool>>::from] (b: bool) -> (r: u32) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<u64 as From<bool>>::from] (b: bool) -> (r: u64) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<usize as From<bool>>::from] (b: bool) -> (r: usize) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<i32 as From<bool>>::from] (b: bool) -> (r: i32) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<i64 as From<bool>>::from] (b: bool) -> (r: i64) ensures r == (if b { 1int } else { 0int });
pub assume_specification [<char as From<u8>>::from] (b: u8) -> (r: char) ensures r == b as char;
pub assume_specification [<u32 as From<char>>::from] (c: char) -> (r: u32) ensures r == c as u32;
pub assume_specification [<u64 as From<char>>::from] (c: char) -> (r: u64) ensures r == c as u32;
pub assume_specification<T> [<T as From<T>>::from] (t: T) -> (r: T) ensures r == t;
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [i32::is_negative] (a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i32::is_positive] (a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification [u64::wrapping_neg] (a: u64) -> (r: u64) ensures r == if a == 0 { 0int } else { 0x1_0000_0000_0000_0000 - a };
pub assume_specification [u8::is_ascii] (b: &u8) -> (r: bool) ensures r == (*b < 0x80);
pub assume_specification [u8::is_ascii_uppercase] (b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a);
pub assume_specification [u8::is_ascii_lowercase] (b: &u8) -> (r: bool) ensures r == (0x61 <= *b <= 0x7a);
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool)
    ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == (0x30 <= (*c as u32) <= 0x39);
pub assume_specification<T, U> [Option::<T>::and::<U>] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == if o is Some { p } else { None::<U> };
pub assume_specification<T, U> [Option::<T>::zip::<U>] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None::<(T, U)> };
pub assume_specification<T, E, U> [core::result::Result::<T, E>::and::<U>] (a: core::result::Result<T, E>, b: core::result::Result<U, E>) -> (r: core::result::Result<U, E>)
    ensures r == match a { Ok(_) => b, Err(e) => Err(e) };
pub assume_specification<T> [bool::then_some::<T>] (b: bool, t: T) -> (r: Option<T>) ensures r == if b { Some(t) } else { None::<T> };
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification [String::reserve] (s: &mut String, n: usize) ensures final(s)@ == old(s)@;
pub trait VxInt: Sized { spec fn ival(self) -> int; }
//@for T u8 u16 u32 u64 usize i8 i16 i32 i64 isize
impl VxInt for $T { open spec fn ival(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_try_$T<S: VxInt>(s: S) -> (r: core::result::Result<$T, core::num::TryFromIntError>)
    ensures match r { Ok(v) => v as int == s.ival(), Err(_) => !($T::MIN <= s.ival() <= $T::MAX) }
{ unimplemented!() }
//@endfor
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
pub assume_specification<T> [core::mem::drop::<T>] (x: T)
    ensures has_resolved(x);
pub assume_specification<T> [core::mem::replace::<T>] (x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;

// ---------------------------------------------------------------------------
// Standard-library functions vstd has no contract for; each contract is the
// function's documentation (assumed, listed in the evidence).
// ---------------------------------------------------------------------------
pub assume_specification [core::char::from_u32] (n: u32) -> (r: Option<char>)
    ensures is_scalar(n) ==> r is Some && r->0 as u32 == n, !is_scalar(n) ==> r is None;
pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>)
    ensures is_scalar(n) ==> r is Some && r->0 as u32 == n, !is_scalar(n) ==> r is None;
pub assume_specification<'a> [char::encode_utf8] (c: char, dst: &'a mut [u8]) -> (r: &'a mut str)
    requires old(dst).len() >= 4,
    ensures r@ == seq![c];
pub assume_specification [i32::saturating_add] (a: i32, b: i32) -> (r: i32)
    ensures r as int == if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b };
pub assume_specification [i32::saturating_sub] (a: i32, b: i32) -> (r: i32)
    ensures r as int == if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b };
pub assume_specification [i64::wrapping_neg] (a: i64) -> (r: i64)
    ensures r as int == if a == i64::MIN { i64::MIN as int } else { -(a as int) };
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r == if x < 0 { -(x as int) } else { x as int };
pub fn vx_i32_from_u8(b: u8) -> (r: i32) ensures r == b { b as i32 }
//@map i32 :: from => vx_i32_from_u8
/// Vec::extend_from_slice with its contract stated extensionally (proved from vstd's)
pub trait VxVec {
    spec fn vb(&self) -> Seq<u8>;
    fn vx_extend(&mut self, o: &[u8]) ensures final(self).vb() == old(self).vb() + o@;
}
impl VxVec for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    fn vx_extend(&mut self, o: &[u8]) {
        let ghost a = self@;
        self.extend_from_slice(o);
        proof { assert(self@ =~= a + o@); }
    }
}
//@map extend_from_slice => vx_extend

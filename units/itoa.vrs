//@include prelude_iso.vrs
//@include utf8.vrs
//@props C09
// ---- the itoa crate (dependency): how it writes a u64 and an i64 -------------------------
// (p_nat, p_int: the decimal text `ser` assumes of itoa::Buffer::format)
//@include digits.vrs
/// [MaybeUninit<u8>; 20]: per byte, what was written
#[verifier::external_body]
pub struct Digits { _p: () }
/// one MaybeUninit<u8>
#[verifier::external_body]
pub struct Digit { _p: () }
impl View for Digits { type V = Seq<Option<u8>>; uninterp spec fn view(&self) -> Seq<Option<u8>>; }
impl View for Digit { type V = Option<u8>; uninterp spec fn view(&self) -> Option<u8>; }
impl Digit {
    /// MaybeUninit::write
    #[verifier::external_body]
    pub fn write(&mut self, b: u8) ensures final(self)@ == Some(b) { unimplemented!() }
}
impl Digits {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == 20, self@.len() == 20 { unimplemented!() }
    /// indexing: in bounds
    #[verifier::external_body]
    pub fn vx_slot(&mut self, i: usize) -> (r: &mut Digit)
        requires i < 20,
        ensures old(self)@.len() == 20, r@ == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, final(r)@),
    { unimplemented!() }
    /// `(&mut buf[offset..]).try_into().unwrap()`: the whole buffer, as an array
    #[verifier::external_body]
    pub fn vx_from(&mut self, i: usize) -> (r: &mut Digits) requires i == 0, ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
/// everything from `o` on was written, and is `t`
pub open spec fn holds(b: Seq<Option<u8>>, o: int, t: Seq<u8>) -> bool {
    done(b, o) && tail(b, o) =~= t
}
/// [MaybeUninit<u8>]: a part of the buffer
#[verifier::external_body]
pub struct Part { _p: () }
pub open spec fn vals(b: Seq<Option<u8>>) -> Seq<u8> { Seq::new(b.len(), |i: int| b[i]->0) }
impl View for Part { type V = Seq<Option<u8>>; uninterp spec fn view(&self) -> Seq<Option<u8>>; }
impl Part {
    /// as initialized bytes: every one was written
    #[verifier::external_body]
    pub fn vx_written(&self) -> (r: &[u8])
        requires forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) is Some,
        ensures r@ == vals(self@),
    { unimplemented!() }
}
impl Digits {
    /// get_unchecked(offset..): in bounds
    #[verifier::external_body]
    pub fn vx_rest(&self, o: usize) -> (r: &Part) requires o <= 20, ensures self@.len() == 20, r@ == self@.subrange(o as int, 20) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str(b: &[u8]) -> (r: &str) requires valid_utf8(b@), ensures txt(r) == b@ { unimplemented!() }
pub proof fn lem_ascii_utf8(t: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 0x80,
    ensures valid_utf8(t),
    decreases t.len(),
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.skip(1).len() implies #[trigger] t.skip(1)[i] < 0x80 by { assert(t[i + 1] < 0x80); }
        lem_ascii_utf8(t.skip(1));
        assert(t[0] < 0x80);
        assert(t =~= seq![t[0]] + t.skip(1));
    }
}
/// slice::get_unchecked: in bounds
pub trait VxAt {
    spec fn vx_all(&self) -> Seq<u8>;
    fn vx_at(&self, i: usize) -> (r: &u8) requires i < self.vx_all().len(), ensures *r == self.vx_all()[i as int];
}
impl VxAt for [u8; 200] {
    open spec fn vx_all(&self) -> Seq<u8> { self@ }
    fn vx_at(&self, i: usize) -> (r: &u8) { &self[i] }
}
/// what was written from `o` on
pub open spec fn tail(b: Seq<Option<u8>>, o: int) -> Seq<u8> { Seq::new((20 - o) as nat, |i: int| b[o + i]->0) }
pub open spec fn done(b: Seq<Option<u8>>, o: int) -> bool { b.len() == 20 && 0 <= o <= 20 && forall|i: int| o <= i < 20 ==> (#[trigger] b[i]) is Some }
pub proof fn lem_20(n: u64)
    ensures p_nat(n as int).len() <= 20, pre(n as int).len() <= 20
{
    assert(pow(10, 20) == 100_000_000_000_000_000_000) by (compute);
    lem_width(n as int, 20);
}
pub proof fn lem_mask(n: u64)
    ensures forall|k: u8| k < 10 ==> #[trigger] (k & 15u8) == k
{ assert(forall|k: u8| k < 10 ==> #[trigger] (k & 15u8) == k) by (bit_vector); }
pub proof fn lem_len(b: Seq<Option<u8>>, o: int)
    requires done(b, o),
    ensures b.len() == 20, 0 <= o <= 20, tail(b, o).len() == 20 - o
{ }
/// nothing written yet
pub proof fn lem_none(b: Seq<Option<u8>>)
    requires b.len() == 20,
    ensures done(b, 20), tail(b, 20) == Seq::<u8>::empty()
{ assert(tail(b, 20) =~= Seq::<u8>::empty()); }
/// writing `t` in front of what was written from `o` on
pub proof fn lem_put(b: Seq<Option<u8>>, o: int, c: Seq<Option<u8>>, t: Seq<u8>)
    requires done(b, o), c.len() == 20, t.len() <= o,
        forall|i: int| o <= i < 20 ==> #[trigger] c[i] == b[i],
        forall|i: int| 0 <= i < t.len() ==> c[o - t.len() + i] == Some(#[trigger] t[i]),
    ensures done(c, o - t.len()), tail(c, o - t.len()) == t + tail(b, o)
{
    assert forall|i: int| o - t.len() <= i < 20 implies (#[trigger] c[i]) is Some by { if i < o { assert(c[o - t.len() + (i - o + t.len())] == Some(t[i - o + t.len()])); } else { assert(b[i] is Some); } }
    assert(tail(c, o - t.len()) =~= t + tail(b, o)) by {
        assert forall|k: int| 0 <= k < 20 - o + t.len() implies tail(c, o - t.len())[k] == (t + tail(b, o))[k] by {
            if k < t.len() { assert(c[o - t.len() + k] == Some(t[k])); } else { assert(c[o - t.len() + k] == b[o - t.len() + k]); }
        }
    }
}
/// at most three digits left after the groups of four
pub proof fn lem_finish(v: int, n: int, b: Seq<Option<u8>>, o: int, c: Seq<Option<u8>>, p: int)
    requires
        v >= 0, 0 <= n < 1000, v == 0 ==> n == 0 && o == 20, done(b, o), pre(v) == pre(n) + tail(b, o), c.len() == 20,
        forall|i: int| o <= i < 20 ==> #[trigger] c[i] == b[i],
        v == 0 ==> p == o - 1 && c[o - 1] == Some(0x30u8),
        v > 0 && n == 0 ==> p == o,
        v > 0 && 1 <= n < 10 ==> p == o - 1 && c[o - 1] == Some((0x30 + n) as u8),
        v > 0 && 10 <= n < 100 ==> p == o - 2 && c[o - 2] == Some((0x30 + n / 10) as u8) && c[o - 1] == Some((0x30 + n % 10) as u8),
        v > 0 && 100 <= n ==> p == o - 3 && c[o - 3] == Some((0x30 + n / 100) as u8) && c[o - 2] == Some((0x30 + n / 10 % 10) as u8) && c[o - 1] == Some((0x30 + n % 10) as u8),
        p >= 0,
    ensures holds(c, p, p_nat(v))
{
    lem_last(v); lem_last(n); lem_last(n / 100);
    if v == 0 { lem_put(b, o, c, seq![0x30u8]); assert(tail(b, o) =~= Seq::<u8>::empty()); assert(tail(c, p) =~= p_nat(0)); }
    else if n == 0 { lem_put(b, o, c, Seq::empty()); assert(tail(c, p) =~= p_nat(v)); }
    else if n < 10 { lem_put(b, o, c, seq![(0x30 + n) as u8]); assert(tail(c, p) =~= p_nat(v)); }
    else {
        lem_two(n);
        if n < 100 { lem_put(b, o, c, seq![(0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8]); assert(n / 100 == 0); assert(tail(c, p) =~= p_nat(v)); }
        else { lem_put(b, o, c, seq![(0x30 + n / 100) as u8, (0x30 + n / 10 % 10) as u8, (0x30 + n % 10) as u8]); assert(tail(c, p) =~= p_nat(v)); }
    }
}
pub trait Unsigned: Sized { spec fn nval(self) -> int; fn fmt(self, buf: &mut Digits) -> (r: usize) ensures r <= 20, holds(final(buf)@, r as int, p_nat(self.nval())); }
pub fn vx_u64_bytes() -> (r: usize) ensures r == 8 { 8 }
/// a failed debug assertion: never reached
#[verifier::external_body]
pub fn vx_panic(m: &str) -> (r: ()) requires false { unimplemented!() }
//@map :: core :: panicking :: panic => vx_panic
//@map get_unchecked => vx_at
//@map & mut Self :: Buffer => &mut Digits
//@item divmod100::EXP
//@item divmod100::SIG
//@item DecimalPairs
//@static DECIMAL_PAIRS
    ensures forall|i: int| 0 <= i < 200 ==> (#[trigger] DECIMAL_PAIRS.0[i]) == pd(i),
//@end
//@fn divmod100
//@ret r
//@params value
    requires value < 10_000,
    ensures r.0 == value / 100, r.1 == value % 100,
//@pre
    proof { assert((1u32 << 19u32) == 524288u32) by (bit_vector); assert(SIG == 5243); assert(value < 10_000u32 ==> ((((value * 5243u32) as u32) >> 19u32) as u32) == value / 100) by (bit_vector); }
//@end
impl Unsigned for u64 {
    open spec fn nval(self) -> int { self as int }
//@fn <Unsigned for u64>::fmt
//@ret r
//@params buf
//@subst mem :: size_of :: < Self > () => vx_u64_bytes()
//@subst 999 . try_into () . expect ("branch is not hit for types that cannot fit 999 (u8)") => 999
//@subst 1_00_00 . try_into () . expect ("branch is not hit for types that cannot fit 1E4 (u8)") => 1_00_00
//@subst buf [offset + 0] => buf.vx_slot(offset + 0)
//@subst buf [offset + 1] => buf.vx_slot(offset + 1)
//@subst buf [offset + 2] => buf.vx_slot(offset + 2)
//@subst buf [offset + 3] => buf.vx_slot(offset + 3)
//@subst buf [offset] => buf.vx_slot(offset)
//@pre
    hide(p_nat); hide(pre); hide(tail); hide(done); hide(pd);
    proof { lem_20(self); lem_digits(self as int); lem_last(self as int); }
//@after len
    proof { lem_none(buf@); assert(pre(self as int) =~= pre(self as int) + Seq::<u8>::empty()); }
//@loop 1
    invariant
        offset <= 20, self == 0 ==> remain == 0 && offset == 20, done(buf@, offset as int), pre(self as int) == pre(remain as int) + tail(buf@, offset as int),
        pre(self as int).len() <= 20, remain <= self,
    decreases remain,
//@in_loop 1
    let ghost b0 = buf@;
    let ghost n0 = remain as int;
    let ghost o0 = offset as int;
    proof { lem_len(b0, o0); lem_four(n0); lem_pairs(n0, n0 % 10000 / 100, n0 % 10000 % 100); lem_pair(n0 % 10000 / 100); lem_pair(n0 % 10000 % 100); lem_4len(n0); }
//@end_loop 1
    proof {
        let t = seq![(0x30 + n0 / 1000 % 10) as u8, (0x30 + n0 / 100 % 10) as u8, (0x30 + n0 / 10 % 10) as u8, (0x30 + n0 % 10) as u8];
        lem_put(b0, o0, buf@, t);
        assert(pre(self as int) =~= pre(remain as int) + tail(buf@, offset as int));
    }
//@after_loop 1
    let ghost b1 = buf@;
    let ghost n1 = remain as int;
    let ghost o1 = offset as int;
    proof { lem_len(b1, o1); if n1 > 0 { lem_4len(n1); } if n1 >= 10 { lem_two(n1); lem_pair(n1 % 100); lem_rem(n1); } lem_last(n1); lem_last(self as int); lem_last(n1 / 100); lem_mask(remain); }
//@before TAIL
    proof { lem_finish(self as int, n1, b1, o1, buf@, offset as int); }
//@end
}
pub proof fn lem_ascii(n: int)
    requires n >= 0,
    ensures forall|i: int| 0 <= i < p_nat(n).len() ==> #[trigger] p_nat(n)[i] < 0x80
{ lem_digits(n); }
pub proof fn lem_i64(n: i64)
    ensures p_nat(if n < 0 { -(n as int) } else { n as int }).len() <= 19
{
    assert(pow(10, 19) == 10_000_000_000_000_000_000) by (compute);
    lem_width(if n < 0 { -(n as int) } else { n as int }, 19);
}
pub trait Sealed: Sized { spec fn ival(self) -> int; fn write(self, buf: &mut Digits) -> (r: &str) ensures txt(r) == p_int(self.ival()), txt(r).len() <= 20; }
//@fn slice_buffer_to_str
//@ret r
//@params buf offset
//@subst buf . vx_at (offset ..) => buf.vx_rest(offset)
//@subst & * (written as * const [MaybeUninit < u8 >] as * const [u8]) => written.vx_written()
//@subst str :: from_utf8_unchecked => vx_str
//@sig fn slice_buffer_to_str(buf: &Digits, offset: usize) -> (r: &str)
    requires exists|t: Seq<u8>| holds(buf@, offset as int, t) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 0x80,
    ensures holds(buf@, offset as int, txt(r)),
//@pre
    let ghost t = choose|t: Seq<u8>| holds(buf@, offset as int, t) && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 0x80;
    proof { lem_ascii_utf8(t); }
//@before from_utf8_unchecked
    proof { assert(vals(written@) =~= tail(buf@, offset as int)); }
//@end
impl Sealed for u64 {
    open spec fn ival(self) -> int { self as int }
//@fn <Sealed for u64>::write
//@ret r
//@params buf
//@after fmt
    proof { lem_ascii(self as int); assert(holds(buf@, offset as int, p_nat(self as int))); }
//@end
}
impl Sealed for i64 {
    open spec fn ival(self) -> int { self as int }
//@fn <Sealed for i64>::write
//@ret r
//@params buf
//@subst Self :: MAX_STR_LEN => 20
//@subst u64 :: MAX_STR_LEN => 20
//@subst buf [offset] => buf.vx_slot(offset)
//@subst (& mut buf [offset ..]) . try_into () . unwrap () => buf.vx_from(offset)
//@after fmt
    let ghost m = if self < 0 { -(self as int) } else { self as int };
    let ghost b0 = buf@;
    let ghost o0 = offset as int;
    proof {
        lem_ascii(m); lem_i64(self);
        assert(holds(buf@, offset as int, p_nat(m)));
        if self < 0 {
            let b1 = b0.update(o0 - 1, Some(0x2du8));
            assert(holds(b1, o0 - 1, p_int(self as int)));
        }
    }
//@end
}
/// [MaybeUninit<u8>; 40], the longest an i128 needs
#[verifier::external_body]
pub struct Bytes { _p: () }
impl Bytes {
    /// the first bytes, as the buffer of an integer type whose texts have at most n bytes (`as_mut_ptr().cast()`)
    #[verifier::external_body]
    pub fn vx_first(&mut self, n: usize) -> (r: &mut Digits) requires n <= 40, n == 20 { unimplemented!() }
}
pub struct Buffer { pub bytes: Bytes }
#[verifier::external_body]
pub fn vx_len(s: &str) -> (r: usize) ensures r == txt(s).len() { unimplemented!() }
/// hint::unreachable_unchecked
#[verifier::external_body]
pub fn vx_unreachable() requires false { unimplemented!() }
impl Buffer {
//@fn Buffer::format
//@ret r
//@params i
//@sig fn format<I: Sealed>(&mut self, i: I) -> (r: &str)
//@subst self . bytes . as_mut_ptr () . cast :: < I :: Buffer > () => self.bytes.vx_first(20)
//@subst & mut * buf_ptr => buf_ptr
//@subst string . len () => vx_len(string)
//@subst I :: MAX_STR_LEN => 20
//@subst hint :: unreachable_unchecked => vx_unreachable
    ensures txt(r) == p_int(i.ival()),
//@end
}
}
fn main() {}

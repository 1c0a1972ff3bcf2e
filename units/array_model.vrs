// ---- [MaybeUninit<T>; N] ---------------------------------------------------------------
/// one MaybeUninit<T>: `@` is the value it owns, if it was written and not moved out
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Slot<T> { _p: Option<T> }
impl<T> View for Slot<T> { type V = Option<T>; uninterp spec fn view(&self) -> Option<T>; }
impl<T> Slot<T> {
    /// overwriting an owned value would leak it
    #[verifier::external_body]
    pub fn write(&mut self, e: T) requires old(self)@ is None, ensures final(self)@ == Some(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_mut(&mut self) -> (r: &mut Slot<T>) requires old(self)@ is Some, ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_drop(&mut self) requires old(self)@ is Some, ensures final(self)@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: &mut Slot<T>) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
/// ptr::drop_in_place: the value must exist, and is gone afterwards
#[verifier::external_body]
pub fn vx_drop_in_place<T>(s: &mut Slot<T>) requires old(s)@ is Some, ensures final(s)@ is None { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Slots<T, const N: usize> { _p: [Option<T>; N] }
impl<T, const N: usize> View for Slots<T, N> { type V = Seq<Option<T>>; uninterp spec fn view(&self) -> Seq<Option<T>>; }
impl<T, const N: usize> Slots<T, N> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] is None { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut Slot<T>>)
        ensures old(self)@.len() == N,
            match r {
                Some(p) => i < N && p@ == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, final(p)@),
                None => i >= N && *final(self) == *old(self),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_range(&mut self, lo: usize, hi: usize) requires lo <= hi <= N, ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_slot(&mut self, i: usize) -> (r: &mut Slot<T>)
        requires i < N,
        ensures old(self)@.len() == N, r@ == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, final(r)@),
    { unimplemented!() }
    /// reading the whole array moves every element out
    #[verifier::external_body]
    pub fn vx_read(&mut self) -> (r: [T; N])
        requires forall|i: int| 0 <= i < N ==> #[trigger] old(self)@[i] is Some,
        ensures final(self)@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] is None,
            r@.len() == N, forall|i: int| 0 <= i < N ==> Some(#[trigger] r@[i]) == old(self)@[i],
    { unimplemented!() }
}

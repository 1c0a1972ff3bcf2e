// ---- src/ptr.rs NonuniqueBox, core::mem::ManuallyDrop ---------------------------------
/// A heap slot which may be written through a reference that outlives the borrow it was
/// made from.  `now`: what a read sees once that reference is dead.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NonuniqueBox<T> { _p: Option<T> }
impl<T> NonuniqueBox<T> {
    pub uninterp spec fn now(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.now() == t { unimplemented!() }
}
impl<T> NonuniqueBox<Option<T>> {
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<T>) ensures r == old(self).now(), final(self).now() == None::<T> { unimplemented!() }
}
/// extend_lifetime!(&mut *b as &mut T): a reference of any lifetime into the slot
#[verifier::external_body]
pub fn vx_alias<'a, T>(b: &mut NonuniqueBox<T>) -> (r: &'a mut T)
    ensures *r == old(b).now(), final(b).now() == *final(r)
{ unimplemented!() }

/// ManuallyDrop<Box<dyn Seq + 'a>>; `live`: not yet dropped
pub struct MdSeq<'a> { pub b: Box<DynSeq<'a>>, pub live: Ghost<bool> }
impl<'a> MdSeq<'a> {
    #[verifier::prophetic] pub open spec fn rep(&self, js: Seq<J>) -> bool { self.b.rep(js) && self.live@ }
    pub open spec fn may(&self, js: Seq<J>) -> bool { self.b.may(js) }
    pub open spec fn wrote(&self, js: Seq<J>) -> bool { self.b.wrote(js) }
    #[verifier::prophetic] pub open spec fn promise(&self, js: Seq<J>) -> bool { self.b.promise(js) }
    pub fn new(b: Box<DynSeq<'a>>) -> (r: Self) ensures r.b == b, r.live@ { MdSeq { b, live: Ghost(true) } }
    /// ManuallyDrop::drop: never twice
    #[verifier::external_body]
    pub fn drop(s: &mut Self) requires old(s).live@, ensures !final(s).live@ { unimplemented!() }
//@include seq_methods.vrs MORE=final(self).live==old(self).live, ATTR=#[verifier::external_body] EBODY={unimplemented!()} FBODY={unimplemented!()}
}
pub struct MdMap<'a> { pub b: Box<DynMap<'a>>, pub live: Ghost<bool> }
impl<'a> MdMap<'a> {
    #[verifier::prophetic] pub open spec fn rep(&self, js: Members) -> bool { self.b.rep(js) && self.live@ }
    pub open spec fn may(&self, js: Members) -> bool { self.b.may(js) }
    pub open spec fn wrote(&self, js: Members) -> bool { self.b.wrote(js) }
    #[verifier::prophetic] pub open spec fn promise(&self, js: Members) -> bool { self.b.promise(js) }
    pub fn new(b: Box<DynMap<'a>>) -> (r: Self) ensures r.b == b, r.live@ { MdMap { b, live: Ghost(true) } }
    #[verifier::external_body]
    pub fn drop(s: &mut Self) requires old(s).live@, ensures !final(s).live@ { unimplemented!() }
//@include map_methods.vrs MORE=final(self).live==old(self).live, ATTR=#[verifier::external_body] EBODY={unimplemented!()} FBODY={unimplemented!()}
}

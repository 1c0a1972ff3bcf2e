//@props C14 C12
// ---- src/ignore.rs: accepts and forgets everything --------------------------------------
pub struct Ignore;
/// Box::new(Ignore) as a trait object, which holds no reference
#[verifier::external_body]
pub fn vx_idle_seq<'a>(b: Ignore) -> (r: Box<DynSeq<'a>>) ensures !r.lends() { unimplemented!() }
#[verifier::external_body]
pub fn vx_idle_map<'a>(b: Ignore) -> (r: Box<DynMap<'a>>) ensures !r.lends() { unimplemented!() }
impl DynVisitor {
    /// <dyn Visitor>::ignore(): a static zero-sized Ignore
    #[verifier::external_body]
    pub fn ignore<'x>() -> (r: &'x mut DynVisitor) ensures forall|j: J| #[trigger] r.takes(j), forall|j: J| #[trigger] final(r).done(j) { unimplemented!() }
}
impl Visitor for Ignore {
    open spec fn takes(&self, j: J) -> bool { true }
    open spec fn done(&self, j: J) -> bool { true }
//@for M null boolean string negative nonnegative float
//@fn <Visitor for Ignore>::$M
//@end
//@endfor
//@fn <Visitor for Ignore>::seq
//@subst Box :: new => vx_seq
//@end
//@fn <Visitor for Ignore>::map
//@subst Box :: new => vx_map
//@end
}
impl SeqBuilder for Ignore {
    #[verifier::prophetic] open spec fn rep(&self, js: Seq<J>) -> bool { true }
    open spec fn may(&self, js: Seq<J>) -> bool { true }
    open spec fn wrote(&self, js: Seq<J>) -> bool { true }
    #[verifier::prophetic] open spec fn promise(&self, js: Seq<J>) -> bool { true }
    #[verifier::prophetic] open spec fn gone(&self) -> bool { true }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn <Seq for Ignore>::element
//@end
//@fn <Seq for Ignore>::finish
//@end
}
impl MapBuilderTrait for Ignore {
    #[verifier::prophetic] open spec fn rep(&self, js: Members) -> bool { true }
    open spec fn may(&self, js: Members) -> bool { true }
    open spec fn wrote(&self, js: Members) -> bool { true }
    #[verifier::prophetic] open spec fn promise(&self, js: Members) -> bool { true }
    #[verifier::prophetic] open spec fn gone(&self) -> bool { true }
    proof fn resolves(tracked &self, js: Members) { }
//@fn <Map for Ignore>::key
//@end
//@fn <Map for Ignore>::finish
//@end
}

// ---------------------------------------------------------------------------
// Decoding: what a document means for a receiving type.
// ---------------------------------------------------------------------------
//@include json_doc.vrs

#[derive(Copy, Clone)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;

// ---- the receiver protocol ----------------------------------------------------
// `takes`: the documents this receiver accepts.  `done`: the place behind this
// receiver holds the decoding of the document.
pub trait Visitor {
    spec fn takes(&self, j: J) -> bool;
    spec fn done(&self, j: J) -> bool;
//@include visitor_methods.vrs ATTR= BODY=;
}
// `rep`: exactly these elements were received completely.  `may`: the documents the
// place accepts.  `wrote`: the place behind this builder was given the decoding.
// `promise`: when the builder is gone, the place holds the decoding.
pub trait SeqBuilder {
    #[verifier::prophetic] spec fn rep(&self, js: Seq<J>) -> bool;
    spec fn may(&self, js: Seq<J>) -> bool;
    spec fn wrote(&self, js: Seq<J>) -> bool;
    #[verifier::prophetic] spec fn promise(&self, js: Seq<J>) -> bool;
    #[verifier::prophetic] spec fn gone(&self) -> bool;
    /// dropping the builder ends its borrow of the place
    proof fn resolves(tracked &self, js: Seq<J>) requires self.gone(), self.wrote(js), ensures self.promise(js);
//@include seq_methods.vrs MORE= ATTR= EBODY=; FBODY=;
}
pub trait MapBuilderTrait {
    #[verifier::prophetic] spec fn rep(&self, js: Members) -> bool;
    spec fn may(&self, js: Members) -> bool;
    spec fn wrote(&self, js: Members) -> bool;
    #[verifier::prophetic] spec fn promise(&self, js: Members) -> bool;
    #[verifier::prophetic] spec fn gone(&self) -> bool;
    proof fn resolves(tracked &self, js: Members) requires self.gone(), self.wrote(js), ensures self.promise(js);
//@include map_methods.vrs MORE= ATTR= EBODY=; FBODY=;
}

// ---- trait objects: any receiver that keeps the protocol ------------------------
#[verifier::external_body] pub struct DynVisitor { _p: () }
#[verifier::external_body] pub struct DynSeq<'a> { _p: &'a mut () }
#[verifier::external_body] pub struct DynMap<'a> { _p: &'a mut () }
impl DynVisitor {
    pub uninterp spec fn takes(&self, j: J) -> bool;
    pub uninterp spec fn done(&self, j: J) -> bool;
//@include visitor_methods.vrs ATTR=#[verifier::external_body] BODY={unimplemented!()}
}
impl<'a> DynSeq<'a> {
    /// may hold references to data of its owner
    pub uninterp spec fn lends(&self) -> bool;
    #[verifier::prophetic] pub uninterp spec fn rep(&self, js: Seq<J>) -> bool;
    pub uninterp spec fn may(&self, js: Seq<J>) -> bool;
    pub uninterp spec fn wrote(&self, js: Seq<J>) -> bool;
    #[verifier::prophetic] pub uninterp spec fn promise(&self, js: Seq<J>) -> bool;
//@include seq_methods.vrs MORE= ATTR=#[verifier::external_body] EBODY={unimplemented!()} FBODY={unimplemented!()}
}
impl<'a> DynMap<'a> {
    pub uninterp spec fn lends(&self) -> bool;
    #[verifier::prophetic] pub uninterp spec fn rep(&self, js: Members) -> bool;
    pub uninterp spec fn may(&self, js: Members) -> bool;
    pub uninterp spec fn wrote(&self, js: Members) -> bool;
    #[verifier::prophetic] pub uninterp spec fn promise(&self, js: Members) -> bool;
//@include map_methods.vrs MORE= ATTR=#[verifier::external_body] EBODY={unimplemented!()} FBODY={unimplemented!()}
}
/// a trait object is dropped: its concrete builder is (see `resolves`)
pub broadcast axiom fn ax_seq_gone(b: DynSeq<'_>, js: Seq<J>)
    ensures has_resolved(b) && #[trigger] b.wrote(js) ==> b.promise(js);
pub broadcast axiom fn ax_map_gone(b: DynMap<'_>, js: Members)
    ensures has_resolved(b) && #[trigger] b.wrote(js) ==> b.promise(js);

// ---- unsizing coercions -----------------------------------------------------------
#[verifier::external_body]
pub fn vx_seq<'a, B: SeqBuilder + 'a>(b: B) -> (r: Box<DynSeq<'a>>)
    ensures forall|js: Seq<J>| #[trigger] r.rep(js) == b.rep(js), forall|js: Seq<J>| #[trigger] r.may(js) == b.may(js),
        forall|js: Seq<J>| #[trigger] r.wrote(js) == b.wrote(js), forall|js: Seq<J>| #[trigger] r.promise(js) == b.promise(js),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_map<'a, B: MapBuilderTrait + 'a>(b: B) -> (r: Box<DynMap<'a>>)
    ensures forall|js: Members| #[trigger] r.rep(js) == b.rep(js), forall|js: Members| #[trigger] r.may(js) == b.may(js),
        forall|js: Members| #[trigger] r.wrote(js) == b.wrote(js), forall|js: Members| #[trigger] r.promise(js) == b.promise(js),
{ unimplemented!() }
/// make_place!'s Place (a #[repr(C)] wrapper with one field) seen as a trait object
pub struct Place<T> { pub out: Option<T> }
#[verifier::external_body]
pub fn vx_place<'a, T>(out: &'a mut Option<T>) -> (r: &'a mut DynVisitor) where Place<T>: Visitor
    ensures forall|j: J| #[trigger] r.takes(j) == (Place { out: *old(out) }).takes(j),
        forall|j: J| #[trigger] final(r).done(j) == (Place { out: *final(out) }).done(j),
{ unimplemented!() }

// ---- types ------------------------------------------------------------------------
pub trait Deserialize: Sized {
    /// the documents of this type
    spec fn fits(j: J) -> bool;
    /// the place holds the decoding of j
    spec fn holds(o: Option<Self>, j: J) -> bool;
    /// value of a missing member
    spec fn absent() -> Option<Self>;
    proof fn holds_some(o: Option<Self>, j: J) requires Self::holds(o, j), ensures o is Some;
    fn begin(out: &mut Option<Self>) -> (r: &mut DynVisitor)
        ensures forall|j: J| #![trigger r.takes(j)] #![trigger Self::fits(j)] r.takes(j) == Self::fits(j),
            forall|j: J| #![trigger final(r).done(j)] #![trigger Self::holds(*final(out), j)] final(r).done(j) == Self::holds(*final(out), j);
    fn default() -> (r: Option<Self>) ensures r == Self::absent();
}
pub broadcast proof fn lem_holds_some<T: Deserialize>(o: Option<T>, j: J)
    ensures #[trigger] T::holds(o, j) ==> o is Some,
{ if T::holds(o, j) { T::holds_some(o, j); } }


// ---- element by element -------------------------------------------------------------
pub open spec fn all_fit<T: Deserialize>(js: Seq<J>) -> bool { forall|i: int| 0 <= i < js.len() ==> T::fits(#[trigger] js[i]) }
pub open spec fn all_hold<T: Deserialize>(v: Seq<T>, js: Seq<J>) -> bool {
    v.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> T::holds(Some(v[i]), #[trigger] js[i])
}
pub broadcast proof fn lem_fit_push<T: Deserialize>(js: Seq<J>, j: J)
    ensures all_fit::<T>(js) && T::fits(j) ==> #[trigger] all_fit::<T>(js.push(j)),
{ }
pub broadcast proof fn lem_hold_push<T: Deserialize>(v: Seq<T>, e: Option<T>, js: Seq<J>, j: J)
    ensures #![trigger all_hold(v, js), T::holds(e, j)]
        all_hold(v, js) && T::holds(e, j) ==> e is Some && all_hold(v.push((e->0)), js.push(j))
{
    if all_hold(v, js) && T::holds(e, j) {
        T::holds_some(e, j);
        let w = v.push((e->0));
        let ks = js.push(j);
        assert forall|i: int| 0 <= i < ks.len() implies T::holds(Some(w[i]), #[trigger] ks[i]) by {
            if i < js.len() { assert(ks[i] == js[i]); } else { assert(Some(w[i]) == e); }
        }
    }
}

impl$G Deserialize for $T {
    open spec fn fits(j: J) -> bool { type_fits::<Self>(j) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { o matches Some(v) && type_holds::<Self>(v, j) }
    open spec fn absent() -> Option<Self> { type_absent::<Self>() }
    proof fn holds_some(o: Option<Self>, j: J) { }
    #[verifier::external_body] fn begin(out: &mut Option<Self>) -> (r: &mut DynVisitor) { unimplemented!() }
    #[verifier::external_body] fn default() -> (r: Option<Self>) { unimplemented!() }
}

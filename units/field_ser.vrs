impl$G Serialize for $T {
    open spec fn tree(&self) -> Tree { type_tree::<Self>(self) }
    #[verifier::external_body] fn begin(&self) -> (r: Fragment) { unimplemented!() }
}

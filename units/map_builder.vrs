    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { keys_fit::<K, V>(js) && built(self.pairs(), js) }
    closed spec fn may(&self, js: Members) -> bool { keys_fit::<K, V>(js) }
    closed spec fn wrote(&self, js: Members) -> bool { $T::holds(*self.out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { $T::holds(*final(self.out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn <Map for $KEY>::key
//@pre
        broadcast use {lem_keys_push, lem_pending};
//@end
//@fn <Map for $KEY>::finish
//@end

    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { members_are(self.pairs(), js) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn $KEY::key
//@subst Deserialize :: begin => begin_value
//@pre
        broadcast use lem_pending_member;
//@end
//@fn $KEY::finish
//@end

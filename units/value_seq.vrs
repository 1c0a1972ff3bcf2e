    #[verifier::prophetic] closed spec fn rep(&self, js: Seq<J>) -> bool { values_are(self.items(), js) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn $KEY::element
//@subst Deserialize :: begin => begin_value
//@pre
        broadcast use lem_values_push;
//@end
//@fn $KEY::finish
//@end

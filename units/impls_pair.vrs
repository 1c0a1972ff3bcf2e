//@props C11 C12 C13
impl<A: Deserialize, B: Deserialize> Visitor for Place<(A, B)> {
    open spec fn takes(&self, j: J) -> bool { <(A, B)>::fits(j) }
    open spec fn done(&self, j: J) -> bool { <(A, B)>::holds(self.out, j) }
//@include methods8.vrs T=(A,B)
}
impl<A: Deserialize, B: Deserialize> Deserialize for (A, B) {
    /// exactly two elements
    open spec fn fits(j: J) -> bool { j matches J::List(js) && js.len() == 2 && A::fits(js[0]) && B::fits(js[1]) }
    open spec fn holds(o: Option<Self>, j: J) -> bool {
        j matches J::List(js) && o matches Some(v) && js.len() == 2 && A::holds(Some(v.0), js[0]) && B::holds(Some(v.1), js[1])
    }
//@include methods_de.vrs T=(A,B)
}
//@item TupleBuilder
impl<'a, A: Deserialize, B: Deserialize> SeqBuilder for TupleBuilder<'a, A, B> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Seq<J>) -> bool {
        js.len() <= 2
        && (js.len() >= 1 ==> A::fits(js[0]) && A::holds(self.tuple.0, js[0]))
        && (js.len() >= 2 ==> B::fits(js[1]) && B::holds(self.tuple.1, js[1]))
        && (self.tuple.0 is Some <==> js.len() >= 1)
        && (self.tuple.1 is Some <==> js.len() >= 2)
    }
    closed spec fn may(&self, js: Seq<J>) -> bool { <(A, B)>::fits(J::List(js)) }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { <(A, B)>::holds(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { <(A, B)>::holds(*final(self.out), J::List(js)) }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn <Seq for TupleBuilder<'a,A,B>>::element
//@pre
        broadcast use lem_holds_some;
//@end
//@fn <Seq for TupleBuilder<'a,A,B>>::finish
//@end
}

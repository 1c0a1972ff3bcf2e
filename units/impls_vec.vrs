//@props C11 C12
//@clearmaps
//@include maps_de.vrs T=T
impl<T: Deserialize> Visitor for Place<Vec<T>> {
    open spec fn takes(&self, j: J) -> bool { Vec::<T>::fits(j) }
    open spec fn done(&self, j: J) -> bool { Vec::<T>::holds(self.out, j) }
//@include methods8.vrs T=Vec<T>
}
impl<T: Deserialize> Deserialize for Vec<T> {
    open spec fn fits(j: J) -> bool { j matches J::List(js) && all_fit::<T>(js) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::List(js) && o matches Some(v) && all_hold(v@, js) }
//@include methods_de.vrs T=Vec<T>
}
//@item VecBuilder
impl<'a, T> VecBuilder<'a, T> {
    spec fn items(&self) -> Seq<T> { match self.element { Some(e) => self.vec@.push(e), None => self.vec@ } }
//@fn VecBuilder::shift
        ensures final(self).vec@ == old(self).items(), final(self).element is None, final(self).out == old(self).out
//@end
}
impl<'a, T: Deserialize> SeqBuilder for VecBuilder<'a, T> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Seq<J>) -> bool {
        all_fit::<T>(js) && all_hold(self.items(), js)
    }
    closed spec fn may(&self, js: Seq<J>) -> bool { Vec::<T>::fits(J::List(js)) }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { Vec::<T>::holds(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { Vec::<T>::holds(*final(self.out), J::List(js)) }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn <Seq for VecBuilder<'a,T>>::element
//@pre
        broadcast use {lem_holds_some, lem_fit_push, lem_hold_push};
//@end
//@fn <Seq for VecBuilder<'a,T>>::finish
//@end
}

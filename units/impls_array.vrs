//@props C11 C12 C13 C17
impl<T: Deserialize, const N: usize> Visitor for Place<[T; N]> {
    open spec fn takes(&self, j: J) -> bool { <[T; N]>::fits(j) }
    open spec fn done(&self, j: J) -> bool { <[T; N]>::holds(self.out, j) }
//@for M,P null, boolean,b string,s negative,n nonnegative,n float,n
//@fn <Visitor for Place<[T;N]>>::$M | de::Visitor::$M
//@params $P
//@end
//@endfor
//@fn <Visitor for Place<[T;N]>>::seq | de::Visitor::seq
//@subst MaybeUninit :: < Slots < T , N > > :: uninit () . assume_init () => Slots::<T, N>::uninit()
//@subst Box :: new => vx_seq
//@end
//@fn <Visitor for Place<[T;N]>>::map | de::Visitor::map
//@end
}
impl<T: Deserialize, const N: usize> Deserialize for [T; N] {
    open spec fn fits(j: J) -> bool { j matches J::List(js) && js.len() == N && all_fit::<T>(js) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::List(js) && o matches Some(v) && all_hold(v@, js) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn <Deserialize for [T;N]>::begin
//@end
//@fn <Deserialize for [T;N]>::default | de::Deserialize::default
//@end
}
//@item <Deserialize for [T;N]>::begin::ArrayBuilder
impl<'a, T, const N: usize> ArrayBuilder<'a, T, N> {
    /// exactly the first `len` slots own a value
    pub closed spec fn wf(&self) -> bool {
        self.array@.len() == N && self.len <= N && forall|i: int| 0 <= i < N ==> ((#[trigger] self.array@[i]) is Some <==> i < self.len)
    }
    spec fn stored(&self) -> Seq<T> { Seq::new(self.len as nat, |i: int| (self.array@[i]->0)) }
    spec fn items(&self) -> Seq<T> { match self.element { Some(e) => self.stored().push(e), None => self.stored() } }
//@fn <Deserialize for [T;N]>::begin::ArrayBuilder::shift
//@ret r
        requires old(self).wf(),
        ensures final(self).wf(), final(self).element is None, final(self).out == old(self).out,
            r is Ok <==> old(self).items().len() <= N,
            r is Ok ==> final(self).stored() == old(self).items(),
//@end
//@fn <Drop for ArrayBuilder<'a,T,N>>::drop
//@name vx_drop
//@subst ptr :: drop_in_place => vx_drop_in_place
        requires old(self).wf(),
        ensures forall|i: int| 0 <= i < N ==> (#[trigger] final(self).array@[i]) is None,
//@loop 1
        invariant
            __vx_hi2 <= N, __vx_i1 <= __vx_hi2, self.array@.len() == N,
            forall|i: int| 0 <= i < N ==> ((#[trigger] self.array@[i]) is Some <==> __vx_i1 <= i < __vx_hi2),
        decreases __vx_hi2 - __vx_i1,
//@end
}
impl<'a, T: Deserialize, const N: usize> SeqBuilder for ArrayBuilder<'a, T, N> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Seq<J>) -> bool { self.wf() && all_fit::<T>(js) && all_hold(self.items(), js) }
    closed spec fn may(&self, js: Seq<J>) -> bool { <[T; N]>::fits(J::List(js)) }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { <[T; N]>::holds(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { <[T; N]>::holds(*final(self.out), J::List(js)) }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn <Seq for ArrayBuilder<'a,T,N>>::element
        ensures final(self).wf()
//@pre
        broadcast use {lem_holds_some, lem_fit_push, lem_hold_push};
//@end
//@fn <Seq for ArrayBuilder<'a,T,N>>::finish
//@subst (& raw mut self . array) . cast :: < [T ; N] > () . read () => self . array . vx_read ()
//@before read
        // the place is empty: assigning to it runs no destructor while elements are owned twice
        proof { assert(*self.out is None); }
//@spec
        ensures final(self).wf()
//@end
}

//@props C11 C12 C17
//@map ManuallyDrop < Box < dyn Seq + 'a > > => MdSeq<'a>
//@map ManuallyDrop < Box < dyn Map + 'a > > => MdMap<'a>
impl<T: Deserialize> Visitor for Place<Box<T>> {
    open spec fn takes(&self, j: J) -> bool { Box::<T>::fits(j) }
    open spec fn done(&self, j: J) -> bool { Box::<T>::holds(self.out, j) }
//@for M,P null, boolean,b string,s negative,n nonnegative,n float,n
//@fn <Visitor for Place<Box<T>>>::$M | de::Visitor::$M
//@params $P
//@pre
        broadcast use lem_holds_some;
//@end
//@endfor
//@fn <Visitor for Place<Box<T>>>::seq | de::Visitor::seq
//@subst ManuallyDrop :: new => MdSeq::new
//@subst Box :: new => vx_seq
//@end
//@fn <Visitor for Place<Box<T>>>::map | de::Visitor::map
//@subst ManuallyDrop :: new => MdMap::new
//@subst Box :: new => vx_map
//@end
}
impl<T: Deserialize> Deserialize for Box<T> {
    open spec fn fits(j: J) -> bool { T::fits(j) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { o matches Some(b) && T::holds(Some(*b), j) }
//@include methods_de.vrs T=Box<T>
}
//@item BoxSeq
//@item BoxMap
//@for L,U,O,D,M Seq,Seq<J>,List,DynSeq,element Map,Members,Obj,DynMap,key
impl<'a, T> Box$L<'a, T> {
//@fn <Drop for Box$L<'a,T>>::drop
//@name vx_drop
//@props C17
//@subst ManuallyDrop :: drop => Md$L::drop
        requires old(self).live(), ensures !final(self).live()
//@end
}
//@endfor
impl<'a, T> BoxSeq<'a, T> {
    pub closed spec fn live(&self) -> bool { self.seq.live@ }
}
impl<'a, T> BoxMap<'a, T> {
    pub closed spec fn live(&self) -> bool { self.map.live@ }
}
impl<'a, T: Deserialize> SeqBuilder for BoxSeq<'a, T> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Seq<J>) -> bool {
        self.seq.rep(js) && forall|ks: Seq<J>| #[trigger] self.seq.promise(ks) ==> T::holds(self.value.now(), J::List(ks))
    }
    closed spec fn may(&self, js: Seq<J>) -> bool { self.seq.may(js) }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { Box::<T>::holds(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { Box::<T>::holds(*final(self.out), J::List(js)) }
    proof fn resolves(tracked &self, js: Seq<J>) { }
//@fn <Seq for BoxSeq<'a,T>>::element
        ensures old(self).live() ==> final(self).live()
//@end
//@fn <Seq for BoxSeq<'a,T>>::finish
//@subst * self . seq = => self . seq . b =
//@subst Box :: new (Ignore) => vx_idle_seq(Ignore)
//@before take
        // the inner builder, which may write into the slot, is gone
        proof { assert(!self.seq.b.lends()); }
//@spec
        ensures old(self).live() ==> final(self).live()
//@pre
        broadcast use {ax_seq_gone, lem_holds_some};
//@end
}
impl<'a, T: Deserialize> MapBuilderTrait for BoxMap<'a, T> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool {
        self.map.rep(js) && forall|ks: Members| #[trigger] self.map.promise(ks) ==> T::holds(self.value.now(), J::Obj(ks))
    }
    closed spec fn may(&self, js: Members) -> bool { self.map.may(js) }
    closed spec fn wrote(&self, js: Members) -> bool { Box::<T>::holds(*self.out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Box::<T>::holds(*final(self.out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn <Map for BoxMap<'a,T>>::key
        ensures old(self).live() ==> final(self).live()
//@end
//@fn <Map for BoxMap<'a,T>>::finish
//@subst * self . map = => self . map . b =
//@subst Box :: new (Ignore) => vx_idle_map(Ignore)
//@before take
        // the inner builder, which may write into the slot, is gone
        proof { assert(!self.map.b.lends()); }
//@spec
        ensures old(self).live() ==> final(self).live()
//@pre
        broadcast use {ax_map_gone, lem_holds_some};
//@end
}

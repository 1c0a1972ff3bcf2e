// ---- borrowing iterators ---------------------------------------------------------------
/// slice::Iter: the elements not yet yielded
pub struct VxIter<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub open spec fn left(&self) -> Seq<T> { self.s@.skip(self.i as int) }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), match r {
            Some(t) => old(self).left().len() > 0 && *t == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
        },
    {
        if self.i < self.s.len() {
            let t = &self.s[self.i];
            self.i += 1;
            proof { assert(old(self).left().drop_first() =~= self.left()); }
            Some(t)
        } else { proof { assert(self.left() =~= Seq::empty()); } None }
    }
}
pub trait VxSlice<T> { fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) ensures r.wf(), r.left() == self.elems(); spec fn elems(&self) -> Seq<T>; }
impl<T> VxSlice<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> (r: VxIter<'a, T>) { proof { assert(self@.skip(0) =~= self@); } VxIter { s: self, i: 0 } }
}
pub open spec fn trees<T: Serialize>(v: Seq<T>) -> Seq<Tree> { Seq::new(v.len(), |i: int| v[i].tree()) }
pub broadcast proof fn lem_trees_first<T: Serialize>(v: Seq<T>)
    ensures v.len() > 0 ==> #[trigger] trees(v.drop_first()) == trees(v).drop_first() && trees(v)[0] == v[0].tree(),
{ if v.len() > 0 { assert(trees(v.drop_first()) =~= trees(v).drop_first()); } }
//@map slice :: Iter < 'a , T > => VxIter<'a, T>

//@props C11 C13
//@item <Serialize for (A,B)>::begin::TupleStream
impl<'a> SerSeq for TupleStream<'a> {
    closed spec fn rest(&self) -> Seq<Tree> {
        if self.state == 0 { seq![self.first.tree(), self.second.tree()] } else if self.state == 1 { seq![self.second.tree()] } else { Seq::empty() }
    }
    closed spec fn live(&self) -> bool { self.state <= 2 }
//@fn <Serialize for (A,B)>::begin::<Seq for TupleStream<'a>>::next
//@flags ser
//@pre
    proof {
        assert(seq![self.first.tree(), self.second.tree()].drop_first() =~= seq![self.second.tree()]);
        assert(seq![self.second.tree()].drop_first() =~= Seq::empty());
    }
//@end
}
impl<A: Serialize, B: Serialize> Serialize for (A, B) {
    open spec fn tree(&self) -> Tree { Tree::Seq(seq![self.0.tree(), self.1.tree()]) }
//@fn <Serialize for (A,B)>::begin
//@flags ser
//@end
}
//@props C11
//@item stream_slice::SliceStream
impl<'a, T: Serialize> SerSeq for SliceStream<'a, T> {
    closed spec fn rest(&self) -> Seq<Tree> { trees(self.0.left()) }
    closed spec fn live(&self) -> bool { self.0.wf() }
//@fn stream_slice::<Seq for SliceStream<'a,T>>::next
//@flags ser
//@pre
    broadcast use lem_trees_first;
//@end
}
//@fn ser::impls::private::stream_slice
//@flags ser
//@ret r
//@params slice
//@subst . iter () => .vx_iter()
//@spec
    ensures shows(r, Tree::Seq(trees(slice@))),
//@end
impl<T: Serialize> Serialize for [T] {
    open spec fn tree(&self) -> Tree { Tree::Seq(trees(self@)) }
//@fn <Serialize for [T]>::begin
//@flags ser
//@subst private :: stream_slice => stream_slice
//@end
}
impl<T: Serialize, const N: usize> Serialize for [T; N] {
    open spec fn tree(&self) -> Tree { Tree::Seq(trees(self@)) }
//@fn <Serialize for [T;N]>::begin
//@flags ser
//@subst private :: stream_slice => stream_slice
//@end
}
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn tree(&self) -> Tree { Tree::Seq(trees(self@)) }
//@fn <Serialize for Vec<T>>::begin
//@flags ser
//@subst private :: stream_slice => stream_slice
//@end
}

//@include map_order.vrs
pub open spec fn entries<K: ToString, V: Serialize>(es: Seq<(K, V)>) -> Seq<(Seq<u8>, Tree)> {
    Seq::new(es.len(), |i: int| (es[i].0.text(), es[i].1.tree()))
}
pub broadcast proof fn lem_entries_first<K: ToString, V: Serialize>(v: Seq<(K, V)>)
    ensures v.len() > 0 ==> #[trigger] entries(v.drop_first()) == entries(v).drop_first() && entries(v)[0] == (v[0].0.text(), v[0].1.tree()),
{ if v.len() > 0 { assert(entries(v.drop_first()) =~= entries(v).drop_first()); } }
//@map hash_map :: Iter < 'a , K , V > => MapIter<'a, K, V>
//@map btree_map :: Iter < 'a , K , V > => MapIter<'a, K, V>
//@props C11 C15
//@item <Serialize for HashMap<K,V,H>>::begin::HashMapStream
impl<'a, K: ToString, V: Serialize> SerMap for HashMapStream<'a, K, V> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { entries(self.0.left()) }
    closed spec fn live(&self) -> bool { true }
//@fn <Serialize for HashMap<K,V,H>>::begin::<Map for HashMapStream<'a,K,V>>::next
//@flags ser
//@pre
    broadcast use lem_entries_first;
//@end
}
impl<K: Hash + Eq + ToString, V: Serialize, H: BuildHasher> Serialize for HashMap<K, V, H> {
    open spec fn tree(&self) -> Tree { Tree::Map(entries(self.order())) }
//@fn <Serialize for HashMap<K,V,H>>::begin
//@flags ser
//@end
}
//@item stream_btree_map::BTreeMapStream
impl<'a, K: ToString, V: Serialize> SerMap for BTreeMapStream<'a, K, V> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { entries(self.0.left()) }
    closed spec fn live(&self) -> bool { true }
//@fn stream_btree_map::<Map for BTreeMapStream<'a,K,V>>::next
//@flags ser
//@pre
    broadcast use lem_entries_first;
//@end
}
//@fn ser::impls::private::stream_btree_map
//@flags ser
//@ret r
//@params map
//@spec
    ensures shows(r, Tree::Map(entries(map.order()))),
//@end
impl<K: ToString, V: Serialize> Serialize for BTreeMap<K, V> {
    open spec fn tree(&self) -> Tree { Tree::Map(entries(self.order())) }
//@fn <Serialize for BTreeMap<K,V>>::begin
//@flags ser
//@subst private :: stream_btree_map => stream_btree_map
//@end
}

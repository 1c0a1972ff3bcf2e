// ---- iteration over a map: every entry once, in an order of the map's own choice ---------
pub open spec fn lists<K, V>(es: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|k: K| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k)
    && (forall|i: int| 0 <= i < es.len() ==> m[(#[trigger] es[i]).0] == es[i].1)
    && (forall|i: int, n: int| 0 <= i < n < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[n]).0)
}
pub trait ToString { spec fn text(&self) -> Seq<u8>; fn to_string(&self) -> (r: String) ensures encode_utf8(r@) == self.text(); }
impl ToString for String {
    open spec fn text(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body] fn to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct MapIter<'a, K, V> { _p: Option<(&'a K, &'a V)> }
impl<'a, K, V> MapIter<'a, K, V> {
    pub uninterp spec fn left(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r {
            Some(kv) => old(self).left().len() > 0 && (*kv.0, *kv.1) == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
        },
    { unimplemented!() }
}
impl<K, V, H> HashMap<K, V, H> {
    pub uninterp spec fn order(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: MapIter<'a, K, V>) ensures r.left() == self.order() { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn order(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: MapIter<'a, K, V>) ensures r.left() == self.order() { unimplemented!() }
}
pub broadcast axiom fn ax_hash_order<K, V, H>(m: HashMap<K, V, H>) ensures lists(#[trigger] m.order(), m@);
pub broadcast axiom fn ax_tree_order<K, V>(m: BTreeMap<K, V>) ensures lists(#[trigger] m.order(), m@);

//@props C18
//@map clone_from => vx_copy_from
impl Array {
//@fn json::array::<Default for Array>::default
//@ret r
//@name vx_default
//@spec
    ensures r.inner@ == Seq::<Value>::empty(),
//@end
//@fn json::array::<Clone for Array>::clone
//@ret r
//@name vx_clone
//@spec
    ensures list_alike(self.inner@, r.inner@),
//@pre
    broadcast use lem_cloned;
//@end
//@fn json::array::<Clone for Array>::clone_from
//@name vx_clone_from
//@params other
//@spec
    ensures list_alike(other.inner@, final(self).inner@),
//@pre
    broadcast use lem_cloned;
//@end
//@fn json::array::<IntoIterator for &'a Array>::into_iter
//@sig fn vx_iter<'a>(&'a self) -> (r: std::slice::Iter<'a, Value>)
//@spec
    ensures r.remaining().len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> *(#[trigger] r.remaining()[i]) == self.inner@[i],
//@end
//@fn json::array::<IntoIterator for &'a mut Array>::into_iter
//@sig fn vx_iter_mut<'a>(&'a mut self) -> (r: std::slice::IterMut<'a, Value>)
//@spec
    ensures final(self).inner@.len() == old(self).inner@.len(), r.remaining().len() == old(self).inner@.len(),
        forall|i: int| 0 <= i < old(self).inner@.len() ==> *(#[trigger] r.remaining()[i]) == old(self).inner@[i] && *final(r.remaining()[i]) == final(self).inner@[i],
//@end
//@map Vec :: from_iter => vx_vec_from_iter
//@fn json::array::<FromIterator<Value> for Array>::from_iter
//@ret r
//@name vx_from_iter
//@params iter
//@spec
    ensures r.inner@ == items(iter),
//@end
}
//@clearmaps
impl Object {
//@fn json::object::<Default for Object>::default
//@ret r
//@name vx_default
//@spec
    ensures r.inner@ == Map::<String, Value>::empty(),
//@end
//@fn json::object::<Clone for Object>::clone
//@ret r
//@name vx_clone
//@spec
    ensures map_alike(self.inner@, r.inner@),
//@end
//@fn json::object::<IntoIterator for &'a Object>::into_iter
//@sig fn vx_iter<'a>(&'a self) -> (r: MapIter<'a, String, Value>)
//@spec
    ensures r.left() == self.inner.order(),
//@end
//@fn json::object::<IntoIterator for &'a mut Object>::into_iter
//@sig fn vx_iter_mut<'a>(&'a mut self) -> (r: MapIterMut<'a, String, Value>)
//@spec
    ensures r.now() == old(self).inner@, r.later() == final(self).inner@,
//@end
//@map BTreeMap :: from_iter => vx_map_from_iter
//@fn json::object::<FromIterator<(String,Value)> for Object>::from_iter
//@ret r
//@name vx_from_iter
//@params iter
//@spec
    ensures r.inner@ == inserted(items(iter)),
//@end
}
//@clearmaps
impl Value {
//@fn json::value::<Default for Value>::default
//@ret r
//@name vx_default
//@spec
    ensures r is Null,
//@end
//@fn json::value::<Clone for Value>::clone
//@ret r
//@name vx_clone
//@spec
    ensures alike(*self, r),
//@end
}
impl Number {
//@fn json::number::<Clone for Number>::clone
//@ret r
//@name vx_clone
//@spec
    ensures r == *self,
//@end
}

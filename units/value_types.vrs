// ---- the dynamic value -------------------------------------------------------------------
//@item json::number::Number | pub
//@map inner : => pub inner:
//@item json::array::Array | pub
//@item json::object::Object | pub
//@item json::value::Value | pub
//@clearmaps
/// strings are their contents
pub broadcast axiom fn ax_string_is_its_text(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
/// a map owns its values
pub axiom fn ax_map_owns(m: BTreeMap<String, Value>, k: String) ensures m@.dom().contains(k) ==> decreases_to!(m => m@[k]);
pub open spec fn text_of(k: String) -> Seq<u8> { encode_utf8(k@) }
pub proof fn lem_same_text(a: String, b: String)
    requires text_of(a) == text_of(b),
    ensures a == b,
{ broadcast use ax_string_is_its_text; encode_utf8_decode_utf8(a@); encode_utf8_decode_utf8(b@); }
impl core::ops::Deref for Array {
    type Target = Vec<Value>;
//@map Self :: Target => Vec<Value>
//@fn json::array::<Deref for Array>::deref
//@ret r
//@spec
    ensures *r == self.inner,
//@end
}
impl core::ops::DerefMut for Array {
//@fn json::array::<DerefMut for Array>::deref_mut
//@ret r
//@spec
    ensures *r == old(self).inner, *final(r) == final(self).inner,
//@end
}
impl Array {
//@fn json::array::Array::new
//@ret r
//@spec
    ensures r.inner@ == Seq::<Value>::empty(),
//@end
}
//@clearmaps
impl core::ops::Deref for Object {
    type Target = BTreeMap<String, Value>;
//@map Self :: Target => BTreeMap<String, Value>
//@fn json::object::<Deref for Object>::deref
//@ret r
//@spec
    ensures *r == self.inner,
//@end
}
impl core::ops::DerefMut for Object {
//@fn json::object::<DerefMut for Object>::deref_mut
//@ret r
//@spec
    ensures *r == old(self).inner, *final(r) == final(self).inner,
//@end
}
impl Object {
//@fn json::object::Object::new
//@ret r
//@spec
    ensures r.inner@ == Map::<String, Value>::empty(),
//@end
}
//@clearmaps

// ---- std containers by value: what this code uses of them --------------------------------
use vstd::std_specs::iter::IteratorSpec;
/// v.drain(..): the elements, in order; v is empty afterwards
#[verifier::external_body]
pub fn vx_drain<T>(v: &mut Vec<T>) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == old(v)@, r.obeys_prophetic_iter_laws(), r.decrease() is Some, final(v)@.len() == 0,
{ unimplemented!() }
/// std::collections::btree_map::IntoIter
#[verifier::external_body]
#[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct MapIntoIter<K, V> { _p: Option<(K, V)> }
impl<K, V> MapIntoIter<K, V> {
    pub uninterp spec fn left(&self) -> Seq<(K, V)>;
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        ensures match r {
            Some(kv) => old(self).left().len() > 0 && kv == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
        },
    { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn into_iter(self) -> (r: MapIntoIter<K, V>) ensures r.left() == self.order() { unimplemented!() }
}
/// core::mem::ManuallyDrop<T>: the destructor of the wrapped value does not run, so its fields may be
/// read out of it once; reading a field of a value whose destructor will run would release it twice
pub struct Held<F> { pub v: F }
pub struct ManuallyDrop<F> { pub inner: Held<F> }
pub trait Container<F>: Sized { spec fn content(self) -> F; }
impl Container<Vec<Value>> for Array { open spec fn content(self) -> Vec<Value> { self.inner } }
impl Container<BTreeMap<String, Value>> for Object { open spec fn content(self) -> BTreeMap<String, Value> { self.inner } }
impl<F> ManuallyDrop<F> {
    #[verifier::external_body]
    pub fn new<T: Container<F>>(x: T) -> (r: Self) ensures r.inner.v == x.content() { unimplemented!() }
}
/// core::ptr::read of a field
pub trait Place { type Out; spec fn value(&self) -> Self::Out; spec fn outlives_its_owner(&self) -> bool; }
impl<F> Place for Held<F> { type Out = F; open spec fn value(&self) -> F { self.v } open spec fn outlives_its_owner(&self) -> bool { true } }
impl Place for Vec<Value> { type Out = Self; open spec fn value(&self) -> Self { *self } open spec fn outlives_its_owner(&self) -> bool { false } }
impl Place for BTreeMap<String, Value> { type Out = Self; open spec fn value(&self) -> Self { *self } open spec fn outlives_its_owner(&self) -> bool { false } }
#[verifier::external_body]
pub fn vx_ptr_read<P: Place>(p: &P) -> (r: P::Out)
    requires p.outlives_its_owner(),
    ensures r == p.value(),
{ unimplemented!() }
impl<K, V> MapIter<'_, K, V> { pub fn into_iter(self) -> (r: Self) ensures r == self { self } }
/// std::collections::btree_map::IterMut: the map it walks, and that map when the walk's borrow ends
#[verifier::external_body]
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct MapIterMut<'a, K, V> { _p: Option<(&'a K, &'a mut V)> }
impl<'a, K, V> MapIterMut<'a, K, V> {
    pub uninterp spec fn now(&self) -> Map<K, V>;
    #[verifier::prophetic] pub uninterp spec fn later(&self) -> Map<K, V>;
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn iter_mut<'a>(&'a mut self) -> (r: MapIterMut<'a, K, V>) ensures r.now() == old(self)@, r.later() == final(self)@ { unimplemented!() }
}
/// the items an iterable yields
pub uninterp spec fn items<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::external_body]
pub fn vx_vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> (r: Vec<T>) ensures r@ == items(i) { unimplemented!() }
pub open spec fn inserted<K, V>(es: Seq<(K, V)>) -> Map<K, V>
    decreases es.len(),
{ if es.len() == 0 { Map::empty() } else { inserted(es.drop_last()).insert(es.last().0, es.last().1) } }
#[verifier::external_body]
pub fn vx_map_from_iter<K, V, I: IntoIterator<Item = (K, V)>>(i: I) -> (r: BTreeMap<K, V>) ensures r@ == inserted(items(i)) { unimplemented!() }
// ---- copies -------------------------------------------------------------------------------
pub open spec fn alike(v: Value, w: Value) -> bool
    decreases v via alike_owns
{
    match (v, w) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(n), Value::Number(m)) => n == m,
        (Value::String(s), Value::String(t)) => s@ == t@,
        (Value::Array(a), Value::Array(b)) => a.inner@.len() == b.inner@.len()
            && forall|i: int| 0 <= i < a.inner@.len() ==> alike(#[trigger] a.inner@[i], b.inner@[i]),
        (Value::Object(a), Value::Object(b)) => a.inner@.dom() =~= b.inner@.dom()
            && forall|k: String| a.inner@.dom().contains(k) ==> alike(#[trigger] a.inner@[k], b.inner@[k]),
        _ => false,
    }
}
#[via_fn]
proof fn alike_owns(v: Value, w: Value) {
    match v {
        Value::Object(o) => { assert forall|k: String| o.inner@.dom().contains(k) implies decreases_to!(v => #[trigger] o.inner@[k]) by { ax_map_owns(o.inner, k); } },
        _ => {},
    }
}
pub open spec fn list_alike(a: Seq<Value>, b: Seq<Value>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> alike(#[trigger] a[i], b[i]) }
pub open spec fn map_alike(a: Map<String, Value>, b: Map<String, Value>) -> bool {
    a.dom() =~= b.dom() && forall|k: String| a.dom().contains(k) ==> alike(#[trigger] a[k], b[k])
}
// the contracts proved below on each clone, as callees of one another; Vec's and BTreeMap's clone copy
// each element with the element's clone
impl Clone for Number { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures alike(*self, r) { unimplemented!() } }
impl Clone for Array { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures list_alike(self.inner@, r.inner@) { unimplemented!() } }
impl Clone for Object { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures map_alike(self.inner@, r.inner@) { unimplemented!() } }
impl Clone for BTreeMap<String, Value> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures map_alike(self@, r@) { unimplemented!() } }
pub broadcast proof fn lem_cloned(a: Value, b: Value)
    ensures #[trigger] cloned(a, b) ==> alike(a, b),
{ lem_alike_self(a); }
pub proof fn lem_alike_self(v: Value)
    ensures alike(v, v),
    decreases v,
{
    match v {
        Value::Array(a) => { assert forall|i: int| 0 <= i < a.inner@.len() implies alike(#[trigger] a.inner@[i], a.inner@[i]) by { lem_alike_self(a.inner@[i]); } },
        Value::Object(o) => { assert forall|k: String| o.inner@.dom().contains(k) implies alike(#[trigger] o.inner@[k], o.inner@[k]) by { ax_map_owns(o.inner, k); lem_alike_self(o.inner@[k]); } },
        _ => {},
    }
}
/// Vec::clone_from: afterwards a copy of the other
pub trait CopyFrom: Sized { fn vx_copy_from(&mut self, o: &Self) ensures Self::copied(*o, *final(self)); spec fn copied(a: Self, b: Self) -> bool; }
impl CopyFrom for Vec<Value> {
    open spec fn copied(a: Self, b: Self) -> bool { list_alike(a@, b@) }
    #[verifier::external_body] fn vx_copy_from(&mut self, o: &Self) { unimplemented!() }
}

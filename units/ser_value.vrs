// ---- the tree a dynamic value shows -------------------------------------------------------
/// no number in it is NaN or infinite (decreasing as in value_is)
pub open spec fn vtree(v: Value) -> Tree
    decreases v via vtree_owns
{
    match v {
        Value::Null => Tree::Null,
        Value::Bool(b) => Tree::Bool(b),
        Value::Number(n) => num_tree(n),
        Value::String(s) => Tree::Str(encode_utf8(s@)),
        Value::Array(a) => Tree::Seq(Seq::new(a.inner@.len(), |i: int| if 0 <= i < a.inner@.len() { vtree(a.inner@[i]) } else { Tree::Null })),
        Value::Object(o) => Tree::Map(Seq::new(o.inner.order().len(), |i: int| if 0 <= i < o.inner.order().len() { (text_of(o.inner.order()[i].0), vtree(o.inner.order()[i].1)) } else { (Seq::empty(), Tree::Null) })),
    }
}
#[via_fn]
proof fn vtree_owns(v: Value) {
    broadcast use ax_tree_order;
    match v {
        Value::Object(o) => {
            let es = o.inner.order();
            assert forall|i: int| 0 <= i < es.len() implies decreases_to!(v => (#[trigger] es[i]).1) by {
                let k = es[i].0;
                assert(o.inner@.dom().contains(k));
                assert(o.inner@[k] == es[i].1);
                ax_map_owns(o.inner, k);
            }
        },
        _ => {},
    }
}
pub open spec fn num_tree(n: Number) -> Tree { match n { Number::U64(n) => Tree::U64(n), Number::I64(n) => Tree::I64(n), Number::F64(n) => Tree::F64(n) } }
pub open spec fn vtrees(v: Seq<Value>) -> Seq<Tree> { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { vtree(v[i]) } else { Tree::Null }) }
pub open spec fn ventries(es: Seq<(String, Value)>) -> Seq<(Seq<u8>, Tree)> {
    Seq::new(es.len(), |i: int| if 0 <= i < es.len() { (text_of(es[i].0), vtree(es[i].1)) } else { (Seq::empty(), Tree::Null) })
}
pub broadcast proof fn lem_ventries_first(v: Seq<(String, Value)>)
    ensures v.len() > 0 ==> #[trigger] ventries(v.drop_first()) == ventries(v).drop_first() && ventries(v)[0] == (text_of(v[0].0), vtree(v[0].1)),
{ if v.len() > 0 { assert(ventries(v.drop_first()) =~= ventries(v).drop_first()); } }
pub broadcast proof fn lem_vtrees(v: Seq<Value>)
    ensures #[trigger] trees(v) == vtrees(v),
{ assert(trees(v) =~= vtrees(v)); }
pub broadcast proof fn lem_vtree_shape(v: Value)
    ensures #[trigger] vtree(v) == match v {
        Value::Null => Tree::Null, Value::Bool(b) => Tree::Bool(b), Value::Number(n) => num_tree(n), Value::String(s) => Tree::Str(encode_utf8(s@)),
        Value::Array(a) => Tree::Seq(vtrees(a.inner@)), Value::Object(o) => Tree::Map(ventries(o.inner.order())),
    },
{
    match v {
        Value::Array(a) => { assert(vtree(v)->Seq_0 =~= vtrees(a.inner@)); },
        Value::Object(o) => { assert(vtree(v)->Map_0 =~= ventries(o.inner.order())); },
        _ => {},
    }
}
/// Array's and Object's begin as a callee (Value, its containers and its elements mention each other)
pub trait Shown { spec fn ptree(&self) -> Tree; fn begin(&self) -> (r: Fragment) ensures shows(r, self.ptree()); }
//@for T,E Number,num_tree(*self) Array,Tree::Seq(vtrees(self.inner@)) Object,Tree::Map(ventries(self.inner.order()))
impl Shown for $T {
    open spec fn ptree(&self) -> Tree { $E }
    #[verifier::external_body] fn begin(&self) -> (r: Fragment) { unimplemented!() }
}
//@endfor
//@props C10
impl Serialize for Number {
    open spec fn tree(&self) -> Tree { num_tree(*self) }
//@fn <Serialize for Number>::begin
//@end
}
impl Serialize for Value {
    open spec fn tree(&self) -> Tree { vtree(*self) }
//@fn <Serialize for Value>::begin
//@flags ser
//@subst Serialize :: begin => Shown::begin
//@pre
    broadcast use lem_vtree_shape;
//@end
}
//@props C10 C18
impl Serialize for Array {
    open spec fn tree(&self) -> Tree { Tree::Seq(vtrees(self.inner@)) }
//@fn <Serialize for Array>::begin
//@flags ser
//@subst private :: stream_slice => stream_slice
//@pre
    broadcast use lem_vtrees;
//@end
}
//@map btree_map :: Iter < 'a , String , Value > => MapIter<'a, String, Value>
//@item <Serialize for Object>::begin::ObjectIter
impl<'a> SerMap for ObjectIter<'a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { ventries(self.0.left()) }
    closed spec fn live(&self) -> bool { true }
//@fn <Serialize for Object>::begin::<Map for ObjectIter<'a>>::next
//@flags ser
//@pre
    broadcast use lem_ventries_first;
//@end
}
impl Serialize for Object {
    open spec fn tree(&self) -> Tree { Tree::Map(ventries(self.inner.order())) }
//@fn <Serialize for Object>::begin
//@flags ser
//@end
}

/// how many values have been released, each after its contents were moved out of it
pub tracked struct Trace { pub ghost n: int }
//@trace drop::safely/1
//@trace safely/1
pub open spec fn seconds(es: Seq<(String, Value)>) -> Seq<Value> { Seq::new(es.len(), |i: int| es[i].1) }
/// the values directly inside a value
pub open spec fn kids(v: Value) -> Seq<Value> {
    match v { Value::Array(a) => a.inner@, Value::Object(o) => seconds(o.inner.order()), _ => Seq::empty() }
}
/// the number of values in a tree
pub open spec fn nodes(v: Value) -> int
    decreases v, kids(v).len() + 1,
{ 1 + nodes_of(v, kids(v).len() as int) }
pub open spec fn nodes_of(v: Value, i: int) -> int
    decreases v, i via kids_smaller
{ if 0 < i <= kids(v).len() { nodes_of(v, i - 1) + nodes(kids(v)[i - 1]) } else { 0 } }
#[via_fn]
proof fn kids_smaller(v: Value, i: int) { lem_kid_smaller(v, i); }
proof fn lem_kid_smaller(v: Value, i: int)
    ensures 0 < i <= kids(v).len() ==> decreases_to!(v => kids(v)[i - 1]),
{
    broadcast use ax_tree_order;
    match v {
        Value::Object(o) => {
            let es = o.inner.order();
            if 0 < i <= es.len() {
                assert(o.inner@.dom().contains(es[i - 1].0));
                assert(o.inner@[es[i - 1].0] == es[i - 1].1);
                ax_map_owns(o.inner, es[i - 1].0);
            }
        },
        _ => {},
    }
}
pub open spec fn total(s: Seq<Value>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + nodes(s.last()) } }
pub proof fn lem_nodes_total(v: Value, i: int)
    requires 0 <= i <= kids(v).len(),
    ensures nodes_of(v, i) == total(kids(v).take(i)),
    decreases i,
{
    if i > 0 {
        lem_nodes_total(v, i - 1);
        assert(kids(v).take(i).drop_last() =~= kids(v).take(i - 1));
        assert(kids(v).take(i).last() == kids(v)[i - 1]);
    }
}
pub broadcast proof fn lem_nodes(v: Value)
    ensures #[trigger] nodes(v) == 1 + total(kids(v)),
{ lem_nodes_total(v, kids(v).len() as int); assert(kids(v).take(kids(v).len() as int) =~= kids(v)); }
pub broadcast proof fn lem_total_push(s: Seq<Value>, v: Value)
    ensures #[trigger] total(s.push(v)) == total(s) + nodes(v),
{ assert(s.push(v).drop_last() =~= s); }
pub broadcast proof fn lem_total_pop(s: Seq<Value>)
    ensures s.len() > 0 ==> #[trigger] total(s.drop_last()) == total(s) - nodes(s.last()),
{ }
pub proof fn lem_total_first(s: Seq<Value>)
    ensures s.len() > 0 ==> total(s) == nodes(s[0]) + total(s.drop_first()),
    decreases s.len(),
{
    if s.len() == 0 { }
    else if s.len() > 1 {
        lem_total_first(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
    } else { assert(s.drop_last() =~= Seq::empty()); assert(s.drop_first() =~= Seq::empty()); }
}
pub proof fn lem_total_bound(s: Seq<Value>)
    ensures total(s) >= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] nodes(s[i]) >= 1,
    decreases s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] nodes(s[i]) >= 1 by { lem_nodes_pos(s[i]); }
    if s.len() > 0 { lem_total_bound(s.drop_last()); lem_nodes_pos(s.last()); }
}
pub proof fn lem_nodes_pos(v: Value)
    ensures nodes(v) >= 1,
    decreases v, 1int + kids(v).len(),
{ lem_nodes_of_pos(v, kids(v).len() as int); }
proof fn lem_nodes_of_pos(v: Value, i: int)
    ensures nodes_of(v, i) >= 0,
    decreases v, i,
{
    if 0 < i <= kids(v).len() {
        lem_kid_smaller(v, i);
        lem_nodes_of_pos(v, i - 1);
        lem_nodes_pos(kids(v)[i - 1]);
    }
}
pub broadcast proof fn lem_seconds(es: Seq<(String, Value)>)
    ensures es.len() > 0 ==> #[trigger] seconds(es.drop_first()) == seconds(es).drop_first() && seconds(es)[0] == es[0].1,
{ if es.len() > 0 { assert(seconds(es.drop_first()) =~= seconds(es).drop_first()); } }
pub proof fn lem_total_empty(s: Seq<Value>) ensures s.len() == 0 ==> total(s) == 0, total(s) >= 0 { lem_total_bound(s); }
//@props C06 C18
//@map ptr :: read => vx_ptr_read
//@fn json::array::take
//@ret r
//@params array
//@flags iter
//@spec
    ensures r@ == array.inner@,
//@end
//@map take => take_map
//@fn json::object::take
//@name take_map
//@ret r
//@params object
//@flags iter
//@spec
    ensures r == object.inner,
//@end
//@clearmaps
//@map Self :: IntoIter => std::vec::IntoIter<Value>
impl Array {
//@fn json::array::<IntoIterator for Array>::into_iter
//@ret r
//@spec
    ensures r.remaining() == self.inner@, r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@end
}
//@clearmaps
//@map Self :: IntoIter => MapIntoIter<String, Value>
//@map take => take_map
impl Object {
//@fn json::object::<IntoIterator for Object>::into_iter
//@ret r
//@spec
    ensures r.left() == self.inner.order(),
//@end
}
//@clearmaps
//@fn json::drop::safely
//@params value
//@flags iter trace
//@spec
    ensures final(__tr).n == old(__tr).n + nodes(value),
//@pre
    hide(nodes); hide(nodes_of);
    broadcast use lem_total_push;
    let ghost v0 = value;
    let ghost n0 = __tr.n;
    proof {
        lem_nodes(value);
        lem_total_empty(Seq::empty());
        lem_total_empty(kids(value));
        if !(value is Array || value is Object) { __tr.n = __tr.n + 1; }
    }
//@loop 1
    invariant __tr.n + total(stack@) == n0 + nodes(v0),
    decreases total(stack@),
//@in_loop 1
    proof { __tr.n = __tr.n + 1; lem_nodes(value); lem_total_bound(stack@); lem_total_empty(kids(value)); }
//@loop 2
    invariant __tr.n + total(stack@) + total(__it1.remaining()) == n0 + nodes(v0),
        __it1.obeys_prophetic_iter_laws(), __it1.decrease() is Some,
    decreases __it1.decrease()->0,
//@in_loop 2
    proof { lem_total_empty(__it1.remaining()); lem_total_first(__it1.remaining()); }
//@loop 3
    invariant __tr.n + total(stack@) + total(seconds(__it2.left())) == n0 + nodes(v0),
    decreases __it2.left().len(),
//@in_loop 3
    proof { lem_seconds(__it2.left()); lem_total_empty(seconds(__it2.left())); lem_total_first(seconds(__it2.left())); }
//@end
//@map drop :: safely => safely
impl Array {
//@fn json::array::<Drop for Array>::drop
//@name vx_drop
//@flags iter trace
//@spec
    ensures final(self).inner@.len() == 0, final(__tr).n == old(__tr).n + total(old(self).inner@),
//@pre
    hide(nodes); hide(nodes_of);
    let ghost s0 = self.inner@;
    let ghost n0 = __tr.n;
    proof { lem_total_empty(s0); }
//@loop 1
    invariant __tr.n + total(__it1.remaining()) == n0 + total(s0), self.inner@.len() == 0,
        __it1.obeys_prophetic_iter_laws(), __it1.decrease() is Some,
    decreases __it1.decrease()->0,
//@in_loop 1
    proof { lem_total_empty(__it1.remaining()); lem_total_first(__it1.remaining()); }
//@end
}
impl Object {
//@fn json::object::<Drop for Object>::drop
//@name vx_drop
//@flags iter trace
//@spec
    ensures final(self).inner@.dom() =~= Set::empty(), final(__tr).n == old(__tr).n + total(seconds(old(self).inner.order())),
//@pre
    hide(nodes); hide(nodes_of);
    let ghost s0 = seconds(self.inner.order());
    let ghost n0 = __tr.n;
    proof { lem_total_empty(s0); }
//@loop 1
    invariant __tr.n + total(seconds(__it1.left())) == n0 + total(s0), self.inner@.dom() =~= Set::empty(),
    decreases __it1.left().len(),
//@in_loop 1
    proof { lem_seconds(__it1.left()); lem_total_empty(seconds(__it1.left())); lem_total_first(seconds(__it1.left())); }
//@end
}
//@clearmaps

//@include value_types.vrs
//@clearmaps
/// member i is the last one of its name
pub open spec fn last_named(ms: Members, i: int) -> bool { 0 <= i < ms.len() && forall|n: int| i < n < ms.len() ==> (#[trigger] ms[n]).0 != ms[i].0 }
/// the value read from this document
pub open spec fn value_is(v: Value, j: J) -> bool
    decreases v via value_owns
{
    match (v, j) {
        (Value::Null, J::Null) => true,
        (Value::Bool(a), J::Bool(b)) => a == b,
        (Value::Number(n), _) => number_is(n, j),
        (Value::String(s), J::Str(b)) => encode_utf8(s@) == b,
        (Value::Array(a), J::List(js)) => a.inner@.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> value_is(#[trigger] a.inner@[i], js[i]),
        (Value::Object(o), J::Obj(ms)) => names(o.inner@, ms)
            && forall|k: String, i: int| #![trigger o.inner@[k], ms[i]] o.inner@.dom().contains(k) && last_named(ms, i) && ms[i].0 == text_of(k)
                ==> value_is(o.inner@[k], ms[i].1),
        _ => false,
    }
}
#[via_fn]
proof fn value_owns(v: Value, j: J) {
    match v {
        Value::Object(o) => { assert forall|k: String| o.inner@.dom().contains(k) implies decreases_to!(v => #[trigger] o.inner@[k]) by { ax_map_owns(o.inner, k); } },
        _ => {},
    }
}
pub open spec fn value_slot(o: Option<Value>, j: J) -> bool { o matches Some(v) && value_is(v, j) }
/// Value's begin as a callee: the contract proved on it below (the builders of a value ask
/// for receivers of values, so the implementations mention each other)
#[verifier::external_body]
pub fn begin_value(out: &mut Option<Value>) -> (r: &mut DynVisitor)
    ensures forall|j: J| #[trigger] r.takes(j), forall|j: J| #[trigger] final(r).done(j) == value_slot(*final(out), j),
{ unimplemented!() }
pub open spec fn number_is(n: Number, j: J) -> bool {
    match (n, j) { (Number::I64(a), J::Neg(b)) => a == b, (Number::U64(a), J::Nonneg(b)) => a == b, (Number::F64(a), J::Float(b)) => a == b, _ => false }
}
/// the keys are the names that occur
pub open spec fn names(m: Map<String, Value>, ms: Members) -> bool {
    (forall|k: String| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == text_of(k))
    && (forall|i: int| 0 <= i < ms.len() ==> exists|k: String| #[trigger] m.dom().contains(k) && text_of(k) == (#[trigger] ms[i]).0)
}
pub open spec fn values_are(v: Seq<Value>, js: Seq<J>) -> bool { v.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> value_is(#[trigger] v[i], js[i]) }
pub open spec fn members_are(m: Map<String, Value>, ms: Members) -> bool {
    names(m, ms) && forall|k: String, i: int| #![trigger m[k], ms[i]] m.dom().contains(k) && last_named(ms, i) && ms[i].0 == text_of(k) ==> value_is(m[k], ms[i].1)
}
pub broadcast proof fn lem_values_push(v: Seq<Value>, e: Value, js: Seq<J>, j: J)
    ensures #![trigger values_are(v, js), value_is(e, j)] values_are(v, js) && value_is(e, j) ==> values_are(v.push(e), js.push(j)),
{
    if values_are(v, js) && value_is(e, j) {
        let w = v.push(e); let ks = js.push(j);
        assert forall|i: int| 0 <= i < ks.len() implies value_is(#[trigger] w[i], ks[i]) by { if i < js.len() { assert(w[i] == v[i] && ks[i] == js[i]); } }
    }
}
pub proof fn lem_names_push(m: Map<String, Value>, k: String, v: Value, ms: Members, j: J)
    requires names(m, ms),
    ensures names(m.insert(k, v), ms.push((text_of(k), j))),
{
    let w = m.insert(k, v); let ns = ms.push((text_of(k), j));
    let n = ms.len() as int;
    assert(ns[n] == (text_of(k), j));
    assert forall|x: String| #[trigger] w.dom().contains(x) implies exists|i: int| 0 <= i < ns.len() && (#[trigger] ns[i]).0 == text_of(x) by {
        if x != k {
            assert(m.dom().contains(x));
            let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == text_of(x);
            assert(ns[i] == ms[i]);
        }
    }
    assert forall|i: int| 0 <= i < ns.len() implies exists|x: String| #[trigger] w.dom().contains(x) && text_of(x) == (#[trigger] ns[i]).0 by {
        if i < n {
            assert(ns[i] == ms[i]);
            let x = choose|x: String| #[trigger] m.dom().contains(x) && text_of(x) == ms[i].0;
            assert(w.dom().contains(x));
        } else { assert(w.dom().contains(k)); }
    }
}
pub proof fn lem_members_push(m: Map<String, Value>, k: String, v: Value, ms: Members, j: J)
    requires members_are(m, ms), value_is(v, j),
    ensures members_are(m.insert(k, v), ms.push((text_of(k), j))),
{
    hide(value_is); hide(names); hide(text_of);
    lem_names_push(m, k, v, ms, j);
    let w = m.insert(k, v); let ns = ms.push((text_of(k), j));
    let n = ms.len() as int;
    assert(ns[n] == (text_of(k), j));
    assert forall|x: String, i: int| #![trigger w[x], ns[i]] w.dom().contains(x) && last_named(ns, i) && ns[i].0 == text_of(x) implies value_is(w[x], ns[i].1) by {
        if i < n {
            assert(ns[i] == ms[i]);
            assert(ns[n].0 != ns[i].0);
            assert(x != k);
            assert(last_named(ms, i)) by { assert forall|q: int| i < q < ms.len() implies (#[trigger] ms[q]).0 != ms[i].0 by { assert(ns[q] == ms[q]); } }
            assert(m[x] == w[x]);
        } else {
            lem_same_text(x, k);
        }
    }
}
pub broadcast proof fn lem_pending_member(m: Map<String, Value>, k: String, o: Option<Value>, ms: Members, j: J)
    ensures #![trigger members_are(m, ms), encode_utf8(k@), value_slot(o, j)]
        members_are(m, ms) && value_slot(o, j) ==> members_are(m.insert(k, (o->0)), ms.push((encode_utf8(k@), j))),
{ if members_are(m, ms) && value_slot(o, j) { lem_members_push(m, k, (o->0), ms, j); } }

//@include map_std.vrs
// ---- what a map holds after these members: the last member of a key wins ------------------
pub open spec fn keys_fit<K: FromStr, V: Deserialize>(ms: Members) -> bool {
    forall|i: int| 0 <= i < ms.len() ==> K::parses((#[trigger] ms[i]).0) is Some && V::fits(ms[i].1)
}
/// member i is the last one of its key
pub open spec fn last_of<K: FromStr>(ms: Members, i: int) -> bool {
    forall|n: int| i < n < ms.len() ==> K::parses((#[trigger] ms[n]).0) != K::parses(ms[i].0)
}
pub open spec fn built<K: FromStr, V: Deserialize>(m: Map<K, V>, ms: Members) -> bool {
    (forall|i: int| 0 <= i < ms.len() ==> K::parses((#[trigger] ms[i]).0) is Some)
    && (forall|k: K| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < ms.len() && K::parses((#[trigger] ms[i]).0) == Some(k))
    && (forall|i: int| 0 <= i < ms.len() && last_of::<K>(ms, i) ==> V::holds(Some(m[(K::parses((#[trigger] ms[i]).0)->0)]), ms[i].1))
}
pub broadcast proof fn lem_keys_push<K: FromStr, V: Deserialize>(ms: Members, s: Seq<u8>, j: J)
    ensures keys_fit::<K, V>(ms) && K::parses(s) is Some && V::fits(j) ==> #[trigger] keys_fit::<K, V>(ms.push((s, j))),
{ let ns = ms.push((s, j)); assert forall|i: int| 0 <= i < ms.len() implies ns[i] == #[trigger] ms[i] by { } }
pub broadcast proof fn lem_pending<K: FromStr, V: Deserialize>(m: Map<K, V>, ms: Members, s: Seq<u8>, v: Option<V>, j: J)
    ensures #![trigger built(m, ms), K::parses(s), V::holds(v, j)]
        built(m, ms) && K::parses(s) is Some && V::holds(v, j) ==> v is Some && built(m.insert((K::parses(s)->0), (v->0)), ms.push((s, j)))
{
    if built(m, ms) && K::parses(s) is Some && V::holds(v, j) {
        V::holds_some(v, j);
        lem_built_push(m, ms, (K::parses(s)->0), (v->0), s, j);
    }
}
pub proof fn lem_built_push<K: FromStr, V: Deserialize>(m: Map<K, V>, ms: Members, k: K, v: V, s: Seq<u8>, j: J)
    requires built(m, ms), K::parses(s) == Some(k), V::holds(Some(v), j),
    ensures built(m.insert(k, v), ms.push((s, j))),
{
    let w = m.insert(k, v);
    let ns = ms.push((s, j));
    assert(ns[ms.len() as int] == (s, j));
    assert forall|x: K| #[trigger] w.dom().contains(x) <==> exists|i: int| 0 <= i < ns.len() && K::parses((#[trigger] ns[i]).0) == Some(x) by {
        if m.dom().contains(x) {
            let i = choose|i: int| 0 <= i < ms.len() && K::parses((#[trigger] ms[i]).0) == Some(x);
            assert(ns[i] == ms[i]);
        }
        if exists|i: int| 0 <= i < ns.len() && K::parses((#[trigger] ns[i]).0) == Some(x) {
            let i = choose|i: int| 0 <= i < ns.len() && K::parses((#[trigger] ns[i]).0) == Some(x);
            if i < ms.len() { assert(ns[i] == ms[i]); assert(m.dom().contains(x)); }
        }
    }
    assert forall|i: int| 0 <= i < ns.len() && last_of::<K>(ns, i) implies V::holds(Some(w[(K::parses((#[trigger] ns[i]).0)->0)]), ns[i].1) by {
        if i < ms.len() {
            assert(ns[i] == ms[i]);
            assert(K::parses(ns[ms.len() as int].0) != K::parses(ns[i].0));
            assert(last_of::<K>(ms, i)) by {
                assert forall|n: int| i < n < ms.len() implies K::parses((#[trigger] ms[n]).0) != K::parses(ms[i].0) by { assert(ns[n] == ms[n]); }
            }
            assert(V::holds(Some(m[(K::parses(ms[i].0)->0)]), ms[i].1));
        }
    }
}

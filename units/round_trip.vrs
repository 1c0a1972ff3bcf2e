// ---- the round trip, type by type ---------------------------------------------------------
pub trait RoundTrip: Serialize + Deserialize {
    /// contains no unit or None directly inside an Option (it would come back as None)
    spec fn plain(&self) -> bool;
    spec fn same(&self, o: &Self) -> bool;
    proof fn fits_back(x: &Self)
        requires x.plain(),
        ensures Self::fits(jof(x.tree()));
    proof fn holds_back(x: &Self, y: Self)
        requires x.plain(), Self::holds(Some(y), jof(x.tree())),
        ensures x.same(&y);
}
impl RoundTrip for () {
    open spec fn plain(&self) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn fits_back(x: &Self) { }
    proof fn holds_back(x: &Self, y: Self) { }
}
//@for T bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize
impl RoundTrip for $T {
    open spec fn plain(&self) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { *self == *o }
    proof fn fits_back(x: &Self) { }
    proof fn holds_back(x: &Self, y: Self) { }
}
//@endfor
pub proof fn lem_text_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
impl RoundTrip for String {
    open spec fn plain(&self) -> bool { true }
    open spec fn same(&self, o: &Self) -> bool { self@ == o@ }
    proof fn fits_back(x: &Self) { }
    proof fn holds_back(x: &Self, y: Self) { lem_text_inj(x@, y@); }
}
impl<T: RoundTrip> RoundTrip for Box<T> {
    open spec fn plain(&self) -> bool { (**self).plain() }
    open spec fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
    proof fn fits_back(x: &Self) { T::fits_back(&**x); }
    proof fn holds_back(x: &Self, y: Self) { T::holds_back(&**x, *y); }
}
impl<T: RoundTrip> RoundTrip for Option<T> {
    open spec fn plain(&self) -> bool { self matches Some(t) ==> t.plain() && !(jof(t.tree()) is Null) }
    open spec fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    proof fn fits_back(x: &Self) { if let Some(t) = x { T::fits_back(t); } }
    proof fn holds_back(x: &Self, y: Self) {
        if let Some(t) = x { T::holds_some(y, jof(t.tree())); T::holds_back(t, (y->0)); }
    }
}
impl<A: RoundTrip, B: RoundTrip> RoundTrip for (A, B) {
    open spec fn plain(&self) -> bool { self.0.plain() && self.1.plain() }
    open spec fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    proof fn fits_back(x: &Self) {
        let js = jlist(x.tree());
        assert(js[0] == jof(x.0.tree()) && js[1] == jof(x.1.tree()));
        A::fits_back(&x.0); B::fits_back(&x.1);
    }
    proof fn holds_back(x: &Self, y: Self) {
        let js = jlist(x.tree());
        assert(js[0] == jof(x.0.tree()) && js[1] == jof(x.1.tree()));
        A::holds_back(&x.0, y.0); B::holds_back(&x.1, y.1);
    }
}
pub open spec fn all_plain<T: RoundTrip>(v: Seq<T>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).plain() }
pub open spec fn all_same<T: RoundTrip>(v: Seq<T>, w: Seq<T>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).same(&w[i]) }
proof fn lem_list_back<T: RoundTrip>(v: Seq<T>, w: Seq<T>)
    requires all_plain(v),
    ensures all_fit::<T>(jlist(Tree::Seq(trees(v)))), jlist(Tree::Seq(trees(v))).len() == v.len(),
        all_hold(w, jlist(Tree::Seq(trees(v)))) ==> all_same(v, w),
{
    let js = jlist(Tree::Seq(trees(v)));
    assert forall|i: int| 0 <= i < js.len() implies T::fits(#[trigger] js[i]) by { T::fits_back(&v[i]); }
    if all_hold(w, js) {
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).same(&w[i]) by {
            assert(T::holds(Some(w[i]), js[i]));
            T::holds_back(&v[i], w[i]);
        }
    }
}
impl<T: RoundTrip> RoundTrip for Vec<T> {
    open spec fn plain(&self) -> bool { all_plain(self@) }
    open spec fn same(&self, o: &Self) -> bool { all_same(self@, o@) }
    proof fn fits_back(x: &Self) { lem_list_back(x@, x@); }
    proof fn holds_back(x: &Self, y: Self) { lem_list_back(x@, y@); }
}
impl<T: RoundTrip, const N: usize> RoundTrip for [T; N] {
    open spec fn plain(&self) -> bool { all_plain(self@) }
    open spec fn same(&self, o: &Self) -> bool { all_same(self@, o@) }
    proof fn fits_back(x: &Self) { lem_list_back(x@, x@); }
    proof fn holds_back(x: &Self, y: Self) { lem_list_back(x@, y@); }
}
/// keys whose text parses back to the key (true of String, integers, char, bool)
pub trait KeyText: FromStr + ToString { proof fn parses_back(k: Self) ensures Self::parses(k.text()) == Some(k); }
pub open spec fn map_plain<K, V: RoundTrip>(m: Map<K, V>) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> m[k].plain() }
/// the same keys, and equal values under each
pub open spec fn map_same<K, V: RoundTrip>(m: Map<K, V>, n: Map<K, V>) -> bool {
    m.dom() =~= n.dom() && forall|k: K| #[trigger] m.dom().contains(k) ==> m[k].same(&n[k])
}
proof fn lem_map_back<K: KeyText, V: RoundTrip>(es: Seq<(K, V)>, m: Map<K, V>, n: Map<K, V>)
    requires lists(es, m), map_plain(m),
    ensures keys_fit::<K, V>(jobj(Tree::Map(entries(es)))), built(n, jobj(Tree::Map(entries(es)))) ==> map_same(m, n),
{
    let ms = jobj(Tree::Map(entries(es)));
    assert forall|i: int| 0 <= i < ms.len() implies K::parses((#[trigger] ms[i]).0) == Some(es[i].0) && ms[i].1 == jof(es[i].1.tree()) && m.dom().contains(es[i].0) && m[es[i].0] == es[i].1 by {
        K::parses_back(es[i].0);
    }
    assert forall|i: int| 0 <= i < ms.len() implies K::parses((#[trigger] ms[i]).0) is Some && V::fits(ms[i].1) by {
        V::fits_back(&es[i].1);
    }
    if built(n, ms) {
        assert forall|k: K| #[trigger] m.dom().contains(k) <==> n.dom().contains(k) by {
            if m.dom().contains(k) {
                let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
                assert(K::parses(ms[i].0) == Some(k));
            }
            if n.dom().contains(k) {
                let i = choose|i: int| 0 <= i < ms.len() && K::parses((#[trigger] ms[i]).0) == Some(k);
                assert(es[i].0 == k);
            }
        }
        assert forall|k: K| #[trigger] m.dom().contains(k) implies m[k].same(&n[k]) by {
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
            assert(K::parses(ms[i].0) == Some(k));
            assert(last_of::<K>(ms, i)) by {
                assert forall|j: int| i < j < ms.len() implies K::parses((#[trigger] ms[j]).0) != K::parses(ms[i].0) by { assert(es[i].0 != es[j].0); }
            }
            assert(V::holds(Some(n[k]), ms[i].1));
            V::holds_back(&m[k], n[k]);
        }
    }
}
impl<K: KeyText + Hash + Eq, V: RoundTrip, H: BuildHasher + Default> RoundTrip for HashMap<K, V, H> {
    open spec fn plain(&self) -> bool { map_plain(self@) }
    open spec fn same(&self, o: &Self) -> bool { map_same(self@, o@) }
    proof fn fits_back(x: &Self) { broadcast use ax_hash_order; lem_map_back(x.order(), x@, x@); }
    proof fn holds_back(x: &Self, y: Self) { broadcast use ax_hash_order; lem_map_back(x.order(), x@, y@); }
}
impl<K: KeyText + Ord, V: RoundTrip> RoundTrip for BTreeMap<K, V> {
    open spec fn plain(&self) -> bool { map_plain(self@) }
    open spec fn same(&self, o: &Self) -> bool { map_same(self@, o@) }
    proof fn fits_back(x: &Self) { broadcast use ax_tree_order; lem_map_back(x.order(), x@, x@); }
    proof fn holds_back(x: &Self, y: Self) { broadcast use ax_tree_order; lem_map_back(x.order(), x@, y@); }
}
pub fn round_trip<T: RoundTrip>(x: &T) -> (r: Result<T>)
    requires x.plain(), print(x.tree()).len() < MAX_LEN,
    ensures r matches Ok(y) && x.same(&y),
{
    let s = to_string(x);
    let text = s.as_str();
    proof {
        printed_text_reads(x.tree());
        assert(reads(txt(text), jof(x.tree())));
        T::fits_back(x);
    }
    let r = from_str::<T>(text);
    proof { if r is Ok { T::holds_back(x, (r->Ok_0)); } }
    r
}

// ---------------------------------------------------------------------------
// The parse driver against the receivers' contracts: what `from_str_impl` does
// to the receiver of any type, from the text alone.
// ---------------------------------------------------------------------------
//@include prelude.vrs
//@include utf8.vrs
//@include std_specs.vrs
//@include float_model.vrs
//@include json_spec.vrs
//@include events.vrs
//@include grammar_spec.vrs
//@include decode_spec.vrs
//@include doc.vrs
//@map dyn Visitor => DynVisitor
//@map dyn Seq + 'a => DynSeq<'a>
//@map dyn Map + 'a => DynMap<'a>
//@map :: alloc :: => ::std::
use Event::*;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonNull<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonuniqueBox<T> { _p: core::marker::PhantomData<T> }
// the lexer: its contracts, proved in unit `de`
//@bodies off
//@include de_lex_fns.vrs
//@bodies on

// ---------------------------------------------------------------------------
// pointers
// ---------------------------------------------------------------------------
/// the pointers made and not yet turned back into a reference
pub tracked struct Trace { pub ghost next: int, pub ghost live: Set<int> }

impl<T> Clone for NonNull<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for NonNull<T> {}
impl<T> NonNull<T> {
    pub uninterp spec fn id(&self) -> int;
    /// the object when the pointer was made, and at the end of the borrow it was made from
    pub uninterp spec fn cur(&self) -> T;
    #[verifier::prophetic] pub uninterp spec fn fin(&self) -> T;
    #[verifier::external_body]
    pub fn from(r: &mut T, Tracked(tr): Tracked<&mut Trace>) -> (p: Self)
        ensures p.cur() == *old(r), p.fin() == *final(r), p.id() == old(tr).next,
            final(tr).next == old(tr).next + 1, final(tr).live == old(tr).live.insert(p.id()),
    { unimplemented!() }
    /// `&mut *p.as_ptr()`, once for each pointer made
    #[verifier::external_body]
    pub fn vx_deref_mut<'z>(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: &'z mut T)
        requires old(tr).live.contains(self.id()),
        ensures *r == self.cur(), *final(r) == self.fin(),
            final(tr).next == old(tr).next, final(tr).live == old(tr).live.remove(self.id()),
    { unimplemented!() }
}
impl<T> NonuniqueBox<T> {
    /// what the box owns
    pub uninterp spec fn now(&self) -> T;
    #[verifier::external_body]
    pub fn from(b: Box<T>) -> (r: Self)
        ensures r.now() == *b,
    { unimplemented!() }
    /// Deref of the box (unit `ptr`)
    #[verifier::external_body]
    pub fn inner(&mut self) -> (r: &mut T)
        ensures *r == old(self).now(), *final(r) == final(self).now(),
    { unimplemented!() }
}
/// the box is dropped: what it owns is
pub axiom fn ax_box_gone<T>(b: NonuniqueBox<T>) requires has_resolved(b), ensures has_resolved(b.now());
broadcast proof fn lem_seq_box_gone(b: NonuniqueBox<DynSeq<'_>>, js: Seq<J>)
    ensures #![trigger b.wrote(js)] has_resolved(b) && b.wrote(js) ==> b.promise(js),
{
    broadcast use ax_seq_gone;
    if has_resolved(b) { ax_box_gone(b); }
}
broadcast proof fn lem_map_box_gone(b: NonuniqueBox<DynMap<'_>>, js: Members)
    ensures #![trigger b.wrote(js)] has_resolved(b) && b.wrote(js) ==> b.promise(js),
{
    broadcast use ax_map_gone;
    if has_resolved(b) { ax_box_gone(b); }
}
impl<'a> NonuniqueBox<DynSeq<'a>> {
    #[verifier::prophetic] pub open spec fn rep(&self, js: Seq<J>) -> bool { self.now().rep(js) }
    pub open spec fn may(&self, js: Seq<J>) -> bool { self.now().may(js) }
    pub open spec fn wrote(&self, js: Seq<J>) -> bool { self.now().wrote(js) }
    #[verifier::prophetic] pub open spec fn promise(&self, js: Seq<J>) -> bool { self.now().promise(js) }
//@include seq_methods.vrs MORE= ATTR= EBODY={~self.inner().element()~} FBODY={~self.inner().finish()~}
}
impl<'a> NonuniqueBox<DynMap<'a>> {
    #[verifier::prophetic] pub open spec fn rep(&self, js: Members) -> bool { self.now().rep(js) }
    pub open spec fn may(&self, js: Members) -> bool { self.now().may(js) }
    pub open spec fn wrote(&self, js: Members) -> bool { self.now().wrote(js) }
    #[verifier::prophetic] pub open spec fn promise(&self, js: Members) -> bool { self.now().promise(js) }
//@include map_methods.vrs MORE= ATTR= EBODY={~self.inner().key(k)~} FBODY={~self.inner().finish()~}
}

// ---------------------------------------------------------------------------
// The document as it unfolds: `open` containers with what they hold so far and
// the key of the member in progress.
// ---------------------------------------------------------------------------
pub type Open = (J, Seq<u8>);
pub open spec fn plus(f: Open, j: J) -> J {
    match f.0 { J::List(js) => J::List(js.push(j)), J::Obj(ms) => J::Obj(ms.push((f.1, j))), x => x }
}
pub open spec fn listed(r: Option<(Seq<J>, int)>) -> Option<(J, int)> { match r { Some((x, q)) => Some((J::List(x), q)), None => None } }
pub open spec fn mapped(r: Option<(Members, int)>) -> Option<(J, int)> { match r { Some((x, q)) => Some((J::Obj(x), q)), None => None } }
/// the rest of a container
pub open spec fn rest(s: Seq<u8>, p: int, acc: J, more: bool) -> Option<(J, int)> {
    match acc {
        J::List(js) => listed(d_elems(s, p, more, js)),
        J::Obj(ms) => mapped(d_members(s, p, more, ms)),
        _ => None,
    }
}
/// ... of which a member is due
pub open spec fn item(s: Seq<u8>, p: int, acc: J) -> Option<(J, int)> {
    match acc {
        J::List(js) => listed(d_elem(s, p, js)),
        J::Obj(ms) => mapped(d_member(s, p, ms)),
        _ => None,
    }
}
/// the document whose open containers are g, when j has just ended at q
pub open spec fn chain(s: Seq<u8>, q: int, j: J, g: Seq<Open>) -> Option<J>
    decreases g.len(),
{
    if g.len() == 0 { if skip_ws(s, q) == s.len() { Some(j) } else { None } }
    else { match rest(s, q, plus(g.last(), j), true) { None => None, Some((f, e)) => chain(s, e, f, g.drop_last()) } }
}
pub open spec fn whole(s: Seq<u8>, r: Option<(J, int)>, g: Seq<Open>) -> Option<J> {
    match r { None => None, Some((j, q)) => chain(s, q, j, g) }
}

// ---------------------------------------------------------------------------
// what the stack of builders stands for
// ---------------------------------------------------------------------------
type Stack<'b> = Seq<(NonNull<DynVisitor>, Layer<'b>)>;
spec fn l_may(l: Layer, j: J) -> bool {
    match l { Layer::Seq(b) => j is List && b.may(j->List_0), Layer::Map(b) => j is Obj && b.may(j->Obj_0) }
}
#[verifier::prophetic]
spec fn l_rep(l: Layer, j: J) -> bool {
    match l { Layer::Seq(b) => j is List && b.rep(j->List_0), Layer::Map(b) => j is Obj && b.rep(j->Obj_0) }
}
/// the builder was opened on this visitor
#[verifier::prophetic]
spec fn link(v: NonNull<DynVisitor>, l: Layer) -> bool {
    match l {
        Layer::Seq(b) => (forall|js: Seq<J>| #[trigger] b.may(js) == v.cur().takes(J::List(js)))
            && (forall|js: Seq<J>| #[trigger] b.promise(js) ==> v.fin().done(J::List(js))),
        Layer::Map(b) => (forall|js: Members| #[trigger] b.may(js) == v.cur().takes(J::Obj(js)))
            && (forall|js: Members| #[trigger] b.promise(js) ==> v.fin().done(J::Obj(js))),
    }
}
/// the visitor is the slot for the member in progress
#[verifier::prophetic]
spec fn slot(v: NonNull<DynVisitor>, l: Layer, f: Open) -> bool {
    forall|j: J| v.cur().takes(j) && #[trigger] v.fin().done(j) ==> l_rep(l, plus(f, j))
}
#[verifier::prophetic]
spec fn von(v: NonNull<DynVisitor>, st: Stack, g: Seq<Open>, root: NonNull<DynVisitor>) -> bool
    decreases st.len(),
{
    st.len() == g.len() && if st.len() == 0 { v == root } else {
        slot(v, st.last().1, g.last()) && link(st.last().0, st.last().1) && von(st.last().0, st.drop_last(), g.drop_last(), root)
    }
}
/// every open container may hold what it will
spec fn okc(s: Seq<u8>, q: int, j: J, st: Stack, g: Seq<Open>) -> bool
    decreases st.len(),
{
    if st.len() == 0 || g.len() == 0 { true } else {
        match rest(s, q, plus(g.last(), j), true) {
            None => true,
            Some((f, e)) => l_may(st.last().1, f) && okc(s, e, f, st.drop_last(), g.drop_last()),
        }
    }
}
spec fn may_via(l: Layer, s: Seq<u8>, r: Option<(J, int)>, st: Stack, g: Seq<Open>) -> bool {
    match r { None => true, Some((j, q)) => l_may(l, j) && okc(s, q, j, st, g) }
}
spec fn takes_via(v: NonNull<DynVisitor>, s: Seq<u8>, r: Option<(J, int)>, st: Stack, g: Seq<Open>) -> bool {
    match r { None => true, Some((j, q)) => v.cur().takes(j) && okc(s, q, j, st, g) }
}
// ---------------------------------------------------------------------------
// lemmas
// ---------------------------------------------------------------------------
//@include lex_end.vrs
//@include grammar_end.vrs
proof fn lem_neg(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(),
    ensures lex(s, p) matches Some((Ev::Neg(n), _)) ==> n <= 0,
{
    lem_skip_ws(s, p);
    let w = skip_ws(s, p);
    if w < s.len() && s[w] == 0x2d && number(s, w + 1, false) is Some { lem_sig_end(s, w + 1, 0); }
}
proof fn lem_d_end(s: Seq<u8>, p: int)
    ensures d_value(s, p) matches Some((j, q)) ==> p < q <= s.len(),
{
    lem_d_value(s, p, 0, 0);
    lem_value_end(s, p, 0, 0);
}
proof fn lem_chain_push(s: Seq<u8>, q: int, j: J, g: Seq<Open>, f: Open)
    ensures chain(s, q, j, g.push(f)) == whole(s, rest(s, q, plus(f, j), true), g),
{
    hide(d_elems); hide(d_members); hide(skip_ws); hide(rest);
    assert(g.push(f).last() == f);
    assert(g.push(f).drop_last() =~= g);
}
proof fn lem_d_elem_shape(s: Seq<u8>, c: int, acc: Seq<J>)
    ensures d_elem(s, c, acc) == match d_value(s, c) {
            None => None,
            Some((j, q)) => if c < q <= s.len() { d_elems(s, q, true, acc.push(j)) } else { None },
        },
{ hide(lex); hide(skip_ws); hide(str_body); }
proof fn lem_d_member_shape(s: Seq<u8>, p: int, acc: Members)
    ensures d_member(s, p, acc) == match key_at(s, p) {
            None => None,
            Some((t, c)) => match d_value(s, c) {
                None => None,
                Some((j, e)) => if c < e <= s.len() { d_members(s, e, true, acc.push((t, j))) } else { None },
            },
        },
{ hide(lex); hide(skip_ws); hide(str_body); }
spec fn grown(s: Seq<u8>, js: Seq<J>, r: Option<(J, int)>, v: Option<(J, int)>) -> bool {
    match r {
        Some((f, e)) => f is List && js.len() < f->List_0.len() && v is Some && f->List_0[js.len() as int] == (v->0).0
            && rest(s, (v->0).1, J::List(js.push((v->0).0)), true) == Some((f, e)),
        None => v matches Some((j, q)) ==> rest(s, q, J::List(js.push(j)), true) is None,
    }
}
/// an element is due: the list gets one more
proof fn lem_elem(s: Seq<u8>, p: int, js: Seq<J>, g: Seq<Open>, key: Seq<u8>)
    ensures
        whole(s, item(s, p, J::List(js)), g) == whole(s, d_value(s, p), g.push((J::List(js), key))),
        grown(s, js, item(s, p, J::List(js)), d_value(s, p)),
{
    hide(d_value); hide(d_elems); hide(d_members); hide(chain); hide(skip_ws);
    lem_d_end(s, p);
    lem_d_elem_shape(s, p, js);
    if let Some((j, q)) = d_value(s, p) {
        let k2 = js.push(j);
        lem_chain_push(s, q, j, g, (J::List(js), key));
        lem_d_elems(s, q, true, k2, 0, 0);
        if let Some((f, e)) = d_elems(s, q, true, k2) {
            assert(f[js.len() as int] == f.take(k2.len() as int)[js.len() as int]);
        }
    }
}
/// where the value of the member at p begins, and its key
pub open spec fn key_at(s: Seq<u8>, p: int) -> Option<(Seq<u8>, int)> {
    let w = skip_ws(s, p);
    if at(s, w) != 0x22 { None } else {
        match str_body(s, w + 1) {
            None => None,
            Some((t, q)) => { let c = skip_ws(s, q); if at(s, c) == 0x3a && p < c < s.len() { Some((t, c + 1)) } else { None } }
        }
    }
}
spec fn grown_map(s: Seq<u8>, ms: Members, t: Seq<u8>, r: Option<(J, int)>, v: Option<(J, int)>) -> bool {
    match r {
        Some((f, e)) => f is Obj && ms.len() < f->Obj_0.len() && v is Some && f->Obj_0[ms.len() as int] == (t, (v->0).0)
            && rest(s, (v->0).1, J::Obj(ms.push((t, (v->0).0))), true) == Some((f, e)),
        None => v matches Some((j, q)) ==> rest(s, q, J::Obj(ms.push((t, j))), true) is None,
    }
}
proof fn lem_member(s: Seq<u8>, p: int, ms: Members, g: Seq<Open>)
    ensures
        match key_at(s, p) {
            None => item(s, p, J::Obj(ms)) is None,
            Some((t, c)) => whole(s, item(s, p, J::Obj(ms)), g) == whole(s, d_value(s, c), g.push((J::Obj(ms), t)))
                && grown_map(s, ms, t, item(s, p, J::Obj(ms)), d_value(s, c)),
        },
{
    hide(d_value); hide(d_members); hide(d_elems); hide(skip_ws); hide(str_body); hide(chain);
    lem_d_member_shape(s, p, ms);
    if let Some((t, c)) = key_at(s, p) {
        lem_d_end(s, c);
        if let Some((j, q)) = d_value(s, c) {
            let k2 = ms.push((t, j));
            lem_chain_push(s, q, j, g, (J::Obj(ms), t));
            lem_d_members(s, q, true, k2, 0, 0);
            if let Some((f, e)) = d_members(s, q, true, k2) {
                assert(f[ms.len() as int] == f.take(k2.len() as int)[ms.len() as int]);
            }
        }
    }
}
// different documents are told apart by their calls
proof fn lem_first(c: Call, a: Seq<Call>, x: Seq<Call>)
    ensures (seq![c] + a) + x == seq![c] + (a + x), ((seq![c] + a) + x)[0] == c,
        ((seq![c] + a) + x).skip(1) == a + x,
        seq![c] + x == seq![c] + (Seq::empty() + x), (seq![c] + x)[0] == c, (seq![c] + x).skip(1) == x,
{
    assert((seq![c] + a) + x =~= seq![c] + (a + x));
    assert(((seq![c] + a) + x).skip(1) =~= a + x);
    assert(Seq::<Call>::empty() + x =~= x);
    assert((seq![c] + x).skip(1) =~= x);
}
pub open spec fn head_of(j: J) -> Ev {
    match j {
        J::Null => Ev::Null, J::Bool(b) => Ev::Bool(b), J::Str(s) => Ev::Str(s), J::Neg(n) => Ev::Neg(n),
        J::Nonneg(n) => Ev::Nonneg(n), J::Float(n) => Ev::Float(n), J::List(js) => Ev::SeqStart, J::Obj(ms) => Ev::MapStart,
    }
}
pub open spec fn tail_of(j: J, k: int) -> Seq<Call> {
    match j { J::List(js) => jevs_elems(js, 0, k, k + 1), J::Obj(ms) => jevs_members(ms, 0, k, k + 1), _ => Seq::empty() }
}
proof fn lem_jevs_split(j: J, vis: int, k: int, x: Seq<Call>)
    ensures (jevs(j, vis, k) + x)[0] == Call::Val(vis, head_of(j)), (jevs(j, vis, k) + x).skip(1) == tail_of(j, k) + x,
{
    lem_first(Call::Val(vis, head_of(j)), tail_of(j, k), x);
}
proof fn lem_inj(a: J, b: J, vis: int, k: int, x: Seq<Call>, y: Seq<Call>)
    requires jevs(a, vis, k) + x == jevs(b, vis, k) + y,
    ensures a == b, x == y,
    decreases a, 0int, 0int,
{
    lem_jevs_split(a, vis, k, x);
    lem_jevs_split(b, vis, k, y);
    assert(head_of(a) == head_of(b));
    match (a, b) {
        (J::List(js), J::List(ks)) => { lem_inj_elems(js, ks, 0, k, k + 1, x, y); assert(js =~= ks); }
        (J::Obj(js), J::Obj(ks)) => { lem_inj_members(js, ks, 0, k, k + 1, x, y); assert(js =~= ks); }
        _ => { assert(Seq::<Call>::empty() + x =~= x); assert(Seq::<Call>::empty() + y =~= y); }
    }
}
proof fn lem_inj_elems(a: Seq<J>, b: Seq<J>, i: int, id: int, k: int, x: Seq<Call>, y: Seq<Call>)
    requires jevs_elems(a, i, id, k) + x == jevs_elems(b, i, id, k) + y, 0 <= i <= a.len(), i <= b.len(),
    ensures a.len() == b.len(), forall|n: int| i <= n < a.len() ==> a[n] == b[n], x == y,
    decreases a, a.len() - i, 1int,
{
    let u = jevs_elems(a, i, id, k) + x;
    if i < a.len() {
        let v = jevs(a[i], k, k + 1);
        lem_first(Call::Elem(id), v + jevs_elems(a, i + 1, id, k + 1 + v.len()), x);
    } else { lem_first(Call::End(id, false), Seq::empty(), x); }
    if i < b.len() {
        let v = jevs(b[i], k, k + 1);
        lem_first(Call::Elem(id), v + jevs_elems(b, i + 1, id, k + 1 + v.len()), y);
    } else { lem_first(Call::End(id, false), Seq::empty(), y); }
    if i < a.len() {
        assert(u[0] == Call::Elem(id));
        assert(i < b.len());
        let v = jevs(a[i], k, k + 1);
        let w = jevs(b[i], k, k + 1);
        let v2 = jevs_elems(a, i + 1, id, k + 1 + v.len());
        let w2 = jevs_elems(b, i + 1, id, k + 1 + w.len());
        assert((v + v2) + x =~= v + (v2 + x));
        assert((w + w2) + y =~= w + (w2 + y));
        assert(decreases_to!(a => a[i]));
        lem_inj(a[i], b[i], k, k + 1, v2 + x, w2 + y);
        lem_inj_elems(a, b, i + 1, id, k + 1 + v.len(), x, y);
    } else {
        assert(u[0] == Call::End(id, false));
        assert(i == b.len());
    }
}
proof fn lem_inj_members(a: Members, b: Members, i: int, id: int, k: int, x: Seq<Call>, y: Seq<Call>)
    requires jevs_members(a, i, id, k) + x == jevs_members(b, i, id, k) + y, 0 <= i <= a.len(), i <= b.len(),
    ensures a.len() == b.len(), forall|n: int| i <= n < a.len() ==> a[n] == b[n], x == y,
    decreases a, a.len() - i, 1int,
{
    let u = jevs_members(a, i, id, k) + x;
    if i < a.len() {
        let v = jevs(a[i].1, k, k + 1);
        lem_first(Call::Key(id, a[i].0), v + jevs_members(a, i + 1, id, k + 1 + v.len()), x);
    } else { lem_first(Call::End(id, true), Seq::empty(), x); }
    if i < b.len() {
        let v = jevs(b[i].1, k, k + 1);
        lem_first(Call::Key(id, b[i].0), v + jevs_members(b, i + 1, id, k + 1 + v.len()), y);
    } else { lem_first(Call::End(id, true), Seq::empty(), y); }
    if i < a.len() {
        assert(u[0] == Call::Key(id, a[i].0));
        assert(i < b.len());
        assert(a[i].0 == b[i].0);
        let v = jevs(a[i].1, k, k + 1);
        let w = jevs(b[i].1, k, k + 1);
        let v2 = jevs_members(a, i + 1, id, k + 1 + v.len());
        let w2 = jevs_members(b, i + 1, id, k + 1 + w.len());
        assert((v + v2) + x =~= v + (v2 + x));
        assert((w + w2) + y =~= w + (w2 + y));
        assert(decreases_to!(a => a[i]));
        lem_inj(a[i].1, b[i].1, k, k + 1, v2 + x, w2 + y);
        lem_inj_members(a, b, i + 1, id, k + 1 + v.len(), x, y);
    } else {
        assert(u[0] == Call::End(id, true));
        assert(i == b.len());
    }
}
pub open spec fn doc_of(s: Seq<u8>) -> Option<J> { whole(s, d_value(s, 0), Seq::empty()) }
proof fn lem_doc(s: Seq<u8>)
    ensures !is_json(s) ==> doc_of(s) is None,
        forall|d: J| #[trigger] reads(s, d) ==> doc_of(s) == Some(d),
{
    lem_d_value(s, 0, ROOT(), 0);
    assert forall|d: J| #[trigger] reads(s, d) implies doc_of(s) == Some(d) by {
        let e = (d_value(s, 0)->0).0;
        assert(jevs(e, ROOT(), 0) + Seq::<Call>::empty() =~= jevs(d, ROOT(), 0) + Seq::<Call>::empty());
        lem_inj(e, d, ROOT(), 0, Seq::empty(), Seq::empty());
    }
}
proof fn lem_von_push(v: NonNull<DynVisitor>, st: Stack, x: (NonNull<DynVisitor>, Layer), g: Seq<Open>, f: Open, root: NonNull<DynVisitor>)
    requires slot(v, x.1, f), link(x.0, x.1), von(x.0, st, g, root),
    ensures von(v, st.push(x), g.push(f), root),
{
    assert(st.push(x).last() == x && st.push(x).drop_last() =~= st);
    assert(g.push(f).last() == f && g.push(f).drop_last() =~= g);
}
proof fn lem_okc_push(s: Seq<u8>, q: int, j: J, st: Stack, x: (NonNull<DynVisitor>, Layer), g: Seq<Open>, f: Open)
    ensures okc(s, q, j, st.push(x), g.push(f)) == match rest(s, q, plus(f, j), true) {
        None => true,
        Some((y, e)) => l_may(x.1, y) && okc(s, e, y, st, g),
    },
{
    hide(rest);
    assert(st.push(x).last() == x && st.push(x).drop_last() =~= st);
    assert(g.push(f).last() == f && g.push(f).drop_last() =~= g);
}
proof fn lem_d_head(s: Seq<u8>, p: int)
    ensures d_value(s, p) == match lex(s, p) {
        None => None,
        Some((ev, q)) => if !(p < q <= s.len()) { None } else {
            match ev {
                Ev::SeqStart => rest(s, q, J::List(Seq::empty()), false),
                Ev::MapStart => rest(s, q, J::Obj(Seq::empty()), false),
                _ => Some((ev_doc(ev), q)),
            }
        },
    },
{ hide(lex); hide(skip_ws); hide(str_body); }
proof fn lem_rest(s: Seq<u8>, p: int, acc: J, more: bool)
    ensures acc is List || acc is Obj ==> rest(s, p, acc, more) == ({
        let w = skip_ws(s, p);
        if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { item(s, w, acc) } else { None } }
        else if s[w] == (if acc is List { 0x5du8 } else { 0x7du8 }) { Some((acc, w + 1)) }
        else if s[w] == 0x5d || s[w] == 0x7d { None }
        else if more { if s[w] == 0x2c { item(s, w + 1, acc) } else { None } }
        else { item(s, w, acc) }
    }),
{ hide(lex); hide(skip_ws); hide(str_body); }
//@trace vx_deref_mut/0 NonNull::from/1
//@props C10 C11 C12 C13 C14 C15 C16
//@fn json::de::from_str_impl
//@ret r
//@params j visitor
//@flags trace
//@attr #[verifier::rlimit(60)]
//@spec
//@include live_contract.vrs V=visitor
//@pre
    hide(lex); hide(skip_ws); hide(str_body); hide(d_value); hide(d_elems); hide(d_elem); hide(d_members); hide(d_member); hide(reads); hide(is_json);
    broadcast use {lem_seq_box_gone, lem_map_box_gone};
    let ghost s = txt(j);
    let ghost want = doc_of(s);
    let ghost v0 = *visitor;
    let ghost ok = want is Some && v0.takes(want->0);
    let ghost mut g: Seq<Open> = Seq::empty();
    let ghost mut acc: J = J::Null;
    let ghost mut last: J = J::Null;
    proof { encode_utf8_valid_utf8(j@); lem_doc(s); }
//@before_loop 1
    let ghost root = visitor;
//@loop 1
    invariant_except_break
        de.inv(), de.input@ == s, __tr.live.contains(visitor.id()),
        want == whole(s, d_value(s, de.pos as int), g),
        von(visitor, de.stack@, g, root),
        ok ==> takes_via(visitor, s, d_value(s, de.pos as int), de.stack@, g),
    invariant
        root.cur() == v0,
    ensures
        de.inv(), de.input@ == s,
        want == (if skip_ws(s, de.pos as int) == s.len() { Some(last) } else { None }),
        root.cur().takes(last), root.fin().done(last),
    decreases s.len() - de.pos,
//@in_loop 1
    broadcast use {lem_seq_box_gone, lem_map_box_gone};
    let ghost pos0 = de.pos as int;
    proof {
        if lex(s, pos0) is Some { lem_lex(s, pos0); lem_neg(s, pos0); }
        lem_d_head(s, pos0);
        if d_value(s, pos0) is Some { last = (d_value(s, pos0)->0).0; }
    }
//@before_loop 2
    proof {
        if de.stack@.len() < g.len() {
            acc = plus(g.last(), last);
            g = g.drop_last();
        } else {
            acc = match layer { Layer::Seq(_) => J::List(Seq::empty()), Layer::Map(_) => J::Obj(Seq::empty()) };
        }
    }
//@loop 2
    invariant_except_break
        want == whole(s, rest(s, de.pos as int, acc, accept_comma), g),
        ok ==> may_via(layer, s, rest(s, de.pos as int, acc, accept_comma), de.stack@, g),
    invariant
        de.inv(), de.input@ == s, pos0 < de.pos,
        l_rep(layer, acc), link(visitor, layer), von(visitor, de.stack@, g, root),
    ensures
        want == whole(s, item(s, de.pos as int, acc), g),
        ok ==> may_via(layer, s, item(s, de.pos as int, acc), de.stack@, g),
    decreases s.len() - de.pos,
//@in_loop 2
    broadcast use {lem_seq_box_gone, lem_map_box_gone};
    proof {
        lem_skip_ws(s, de.pos as int);
        lem_rest(s, de.pos as int, acc, accept_comma);
        last = acc;
    }
//@end_loop 2
    proof {
        acc = plus(g.last(), last);
        g = g.drop_last();
    }
//@after_loop 2
    let ghost pos2 = de.pos as int;
    let ghost st2 = de.stack@;
    let ghost layer2 = layer;
    proof {
        lem_skip_ws(s, pos2);
        let w = skip_ws(s, pos2);
        if at(s, w) == 0x22 && str_body(s, w + 1) is Some {
            lem_body_end(s, w + 1);
            lem_skip_ws(s, (str_body(s, w + 1)->0).1);
        }
        match acc {
            J::List(js) => lem_elem(s, pos2, js, g, Seq::empty()),
            J::Obj(ms) => lem_member(s, pos2, ms, g),
            _ => { }
        }
    }
//@end_loop 1
    proof {
        let key = if key_at(s, pos2) is Some { (key_at(s, pos2)->0).0 } else { Seq::empty() };
        let f = (acc, if acc is Obj { key } else { Seq::empty() });
        let x = de.stack@.last();
        let d = d_value(s, de.pos as int);
        assert(de.stack@ == st2.push(x));
        assert(slot(visitor, x.1, f));
        assert(link(x.0, x.1));
        lem_von_push(visitor, st2, x, g, f, root);
        if ok && d is Some {
            lem_okc_push(s, (d->0).1, (d->0).0, st2, x, g, f);
            assert(visitor.cur().takes((d->0).0));
        }
        g = g.push(f);
    }
//@end
}
fn main() {}

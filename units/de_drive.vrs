// ---------------------------------------------------------------------------
// The event sequence of a document (what the receiver must be told), as a
// push-down machine over the token function `lex`.
// ---------------------------------------------------------------------------
//@include events.vrs
pub struct Run { pub calls: Seq<Call>, pub ok: bool }

pub open spec fn cat(a: Seq<Call>, r: Run) -> Run { Run { calls: a + r.calls, ok: r.ok } }
pub open spec fn stop(ok: bool) -> Run { Run { calls: Seq::empty(), ok } }

/// a value is due at p on visitor `vis`; st: open containers; k: calls made so far
pub open spec fn need(s: Seq<u8>, p: int, vis: int, st: Seq<Frame>, k: int) -> Run
    decreases s.len() - p, 0int,
{
    match lex(s, p) {
        None => stop(false),
        Some((ev, q)) => if p < q <= s.len() {
            cat(seq![Call::Val(vis, ev)], match ev {
                Ev::SeqStart => inside(s, q, Frame { map: false, id: k }, st, k + 1, false),
                Ev::MapStart => inside(s, q, Frame { map: true, id: k }, st, k + 1, false),
                _ => after(s, q, st, k + 1),
            })
        } else { stop(false) },
    }
}

/// a value just ended at p
pub open spec fn after(s: Seq<u8>, p: int, st: Seq<Frame>, k: int) -> Run
    decreases s.len() - p, 3int,
{
    if st.len() == 0 { stop(skip_ws(s, p) == s.len()) }
    else { inside(s, p, st.last(), st.drop_last(), k, true) }
}

/// in container `fr`, a member has just ended (`comma`) or none has begun
pub open spec fn inside(s: Seq<u8>, p: int, fr: Frame, st: Seq<Frame>, k: int, comma: bool) -> Run
    decreases s.len() - p, 2int,
{
    let w = skip_ws(s, p);
    if !(p <= w <= s.len()) { stop(false) }
    else if w < s.len() && comma && s[w] == 0x2c { item(s, w + 1, fr, st, k) }
    else if w < s.len() && s[w] == (if fr.map { 0x7du8 } else { 0x5du8 }) {
        cat(seq![Call::End(fr.id, fr.map)], after(s, w + 1, st, k + 1))
    }
    else if w < s.len() && (s[w] == 0x7d || s[w] == 0x5d) { stop(false) }
    else if comma { stop(false) }
    else { item(s, w, fr, st, k) }
}

/// a member of container `fr` is due at p
pub open spec fn item(s: Seq<u8>, p: int, fr: Frame, st: Seq<Frame>, k: int) -> Run
    decreases s.len() - p, 1int,
{
    if !fr.map { cat(seq![Call::Elem(fr.id)], need(s, p, k, st.push(fr), k + 1)) }
    else {
        let w = skip_ws(s, p);
        if at(s, w) != 0x22 { stop(false) } else {
            match str_body(s, w + 1) {
                None => stop(false),
                Some((t, q)) => cat(seq![Call::Key(fr.id, t)], {
                    let c = skip_ws(s, q);
                    if at(s, c) == 0x3a && p < c < s.len() { need(s, c + 1, k, st.push(fr), k + 1) } else { stop(false) }
                }),
            }
        }
    }
}

pub open spec fn document(s: Seq<u8>) -> Run { need(s, 0, ROOT(), Seq::empty(), 0) }

// ---------------------------------------------------------------------------
// the receiver: any implementation of the three traits; it records the calls
// it gets in ghost state and must not be called again after a failure
// ---------------------------------------------------------------------------
pub struct Trace { pub calls: Seq<Call>, pub failed: bool }

pub open spec fn logged(o: Trace, f: Trace, c: Call, err: bool) -> bool {
    f.calls == o.calls.push(c) && f.failed == err
}

pub trait HasId { spec fn id(&self) -> int; }
impl HasId for DynVisitor { uninterp spec fn id(&self) -> int; }
impl<'a> HasId for DynSeq<'a> { uninterp spec fn id(&self) -> int; }
impl<'a> HasId for DynMap<'a> { uninterp spec fn id(&self) -> int; }

impl DynVisitor {
    #[verifier::external_body]
    fn null(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Null), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn boolean(&mut self, b: bool, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Bool(b)), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn string(&mut self, s: &str, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Str(txt(s))), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn negative(&mut self, n: i64, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Neg(n)), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn nonnegative(&mut self, n: u64, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Nonneg(n)), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn float(&mut self, n: f64, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::Float(n)), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
    #[verifier::external_body]
    fn seq<'z>(&'z mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<Box<DynSeq<'z>>>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::SeqStart), r is Err), final(self).id() == old(self).id(),
            r is Ok ==> (*r->Ok_0).id() == old(tr).calls.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn map<'z>(&'z mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<Box<DynMap<'z>>>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Val(old(self).id(), Ev::MapStart), r is Err), final(self).id() == old(self).id(),
            r is Ok ==> (*r->Ok_0).id() == old(tr).calls.len(),
    { unimplemented!() }
}

impl<T> Clone for NonNull<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> Copy for NonNull<T> {}
impl<T: HasId> NonNull<T> {
    uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    fn from(r: &mut T) -> (p: Self)
        ensures p.id() == old(r).id(),
    { unimplemented!() }
    /// `&mut *p.as_ptr()`: the object the pointer was made from
    #[verifier::external_body]
    fn vx_deref_mut<'z>(&self) -> (r: &'z mut T)
        ensures r.id() == self.id(),
    { unimplemented!() }
}

impl<T: HasId> NonuniqueBox<T> {
    uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    fn from(b: Box<T>) -> (r: Self)
        ensures r.id() == (*b).id(),
    { unimplemented!() }
}
impl<'a> NonuniqueBox<DynSeq<'a>> {
    #[verifier::external_body]
    fn element<'z>(&'z mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<&'z mut DynVisitor>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Elem(old(self).id()), r is Err), final(self).id() == old(self).id(),
            r is Ok ==> (*r->Ok_0).id() == old(tr).calls.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::End(old(self).id(), false), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
}
impl<'a> NonuniqueBox<DynMap<'a>> {
    #[verifier::external_body]
    fn key<'z>(&'z mut self, k: &str, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<&'z mut DynVisitor>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::Key(old(self).id(), txt(k)), r is Err), final(self).id() == old(self).id(),
            r is Ok ==> (*r->Ok_0).id() == old(tr).calls.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn finish(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<()>)
        requires !old(tr).failed,
        ensures logged(*old(tr), *final(tr), Call::End(old(self).id(), true), r is Err), final(self).id() == old(self).id(),
    { unimplemented!() }
}

spec fn frame_of(l: Layer) -> Frame {
    match l {
        Layer::Seq(b) => Frame { map: false, id: b.id() },
        Layer::Map(b) => Frame { map: true, id: b.id() },
    }
}
spec fn frames(st: Seq<(NonNull<DynVisitor>, Layer)>) -> Seq<Frame> {
    Seq::new(st.len(), |i: int| frame_of(st[i].1))
}

// ---------------------------------------------------------------------------
// lemmas
// ---------------------------------------------------------------------------
//@include lex_end.vrs
/// one call moves from the machine's output to the log
broadcast proof fn lem_shift(a: Seq<Call>, c: Call, r: Run)
    ensures #[trigger] cat(a, cat(seq![c], r)) == cat(a.push(c), r),
{
    assert(a + (seq![c] + r.calls) =~= a.push(c) + r.calls);
}
broadcast proof fn lem_cat_stop(a: Seq<Call>, ok: bool)
    ensures #[trigger] cat(a, stop(ok)) == (Run { calls: a, ok }),
{
    assert(a + Seq::<Call>::empty() =~= a);
}
broadcast proof fn lem_prefix(a: Seq<Call>, r: Run)
    ensures a.is_prefix_of((#[trigger] cat(a, r)).calls),
{
    assert((a + r.calls).subrange(0, a.len() as int) =~= a);
}

broadcast proof fn lem_frames_push(st: Seq<(NonNull<DynVisitor>, Layer)>, x: (NonNull<DynVisitor>, Layer))
    ensures #[trigger] frames(st.push(x)) == frames(st).push(frame_of(x.1)),
{
    assert(frames(st.push(x)) =~= frames(st).push(frame_of(x.1)));
}
proof fn lem_frames_pop(st: Seq<(NonNull<DynVisitor>, Layer)>)
    ensures st.len() > 0 ==> frames(st.subrange(0, st.len() - 1)) == frames(st).drop_last() && frames(st).last() == frame_of(st[st.len() - 1].1),
        st.len() == 0 ==> frames(st) == Seq::<Frame>::empty(),
{
    if st.len() > 0 { assert(frames(st.subrange(0, st.len() - 1)) =~= frames(st).drop_last()); }
    else { assert(frames(st) =~= Seq::<Frame>::empty()); }
}

broadcast group driver_lemmas { lem_shift, lem_cat_stop, lem_prefix, lem_frames_push }

/// the outcome of a run against the document's event sequence
spec fn outcome(run: Run, tr: Trace, ok: bool) -> bool {
    if ok { run.ok && !tr.failed && tr.calls == run.calls }
    else if tr.failed { tr.calls.is_prefix_of(run.calls) }
    else { !run.ok && tr.calls == run.calls }
}

//@trace null/0 boolean/1 string/1 negative/1 nonnegative/1 float/1 seq/0 map/0 element/0 key/1 finish/0 from_str_impl/2
//@props C01 C02 C03 C04 C05 C06 C19
//@fn json::de::from_str_impl
//@ret r
//@params j visitor
//@flags trace
//@attr #[verifier::rlimit(60)]
//@spec
    requires !old(__tr).failed, old(__tr).calls.len() == 0, old(visitor).id() == ROOT(),
        txt(j).len() < MAX_LEN,
    ensures outcome(document(txt(j)), *final(__tr), r is Ok),
//@pre
    hide(lex);
    hide(skip_ws);
    hide(str_body);
    broadcast use driver_lemmas;
    let ghost s = txt(j);
    let ghost run = document(s);
    proof { encode_utf8_valid_utf8(j@); assert(__tr.calls =~= Seq::empty()); assert(frames(Seq::empty()) =~= Seq::<Frame>::empty()); assert(Seq::empty() + run.calls =~= run.calls); }
//@loop 1
    invariant_except_break
        de.inv(), de.input@ == s,
        !__tr.failed,
        run == cat(__tr.calls, need(s, de.pos as int, visitor.id(), frames(de.stack@), __tr.calls.len() as int)),
    ensures
        de.inv(), de.input@ == s, !__tr.failed,
        run == cat(__tr.calls, after(s, de.pos as int, Seq::empty(), __tr.calls.len() as int)),
    decreases s.len() - de.pos,
//@in_loop 1
    broadcast use driver_lemmas;
    let ghost pos0 = de.pos as int;
    proof { if lex(s, pos0) is Some { lem_lex(s, pos0); } lem_frames_pop(de.stack@); }
//@loop 2
    invariant_except_break
        de.inv(), de.input@ == s, pos0 < de.pos,
        !__tr.failed,
        run == cat(__tr.calls, inside(s, de.pos as int, frame_of(layer), frames(de.stack@), __tr.calls.len() as int, accept_comma)),
    ensures
        de.inv(), de.input@ == s, pos0 < de.pos,
        !__tr.failed,
        run == cat(__tr.calls, item(s, de.pos as int, frame_of(layer), frames(de.stack@), __tr.calls.len() as int)),
    decreases s.len() - de.pos,
//@in_loop 2
    broadcast use driver_lemmas;
    proof { lem_skip_ws(s, de.pos as int); lem_frames_pop(de.stack@); }
//@after_loop 2
    broadcast use driver_lemmas;
    proof {
        lem_skip_ws(s, de.pos as int);
        let w = skip_ws(s, de.pos as int);
        if at(s, w) == 0x22 && str_body(s, w + 1) is Some {
            lem_body_end(s, w + 1);
            lem_skip_ws(s, (str_body(s, w + 1)->0).1);
        }
    }
//@end
//@include teardown.vrs
//@props C05 C06
impl<'a, 'b> Deserializer<'a, 'b> {
//@fn json::de::<Drop for Deserializer<'a,'b>>::drop
//@include teardown_fn.vrs T=(NonNull<DynVisitor>,Layer<'b>)
}

//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include print_spec.vrs

// ---------------------------------------------------------------------------
// models of the values being printed: any Serialize / Seq / Map implementation
// that yields a finite tree
// ---------------------------------------------------------------------------
//@map dyn Serialize => DynSer
//@map dyn Seq + 'a => DynSeq<'a>
//@map dyn Map + 'a => DynMap<'a>
//@map Cow < 'a , str > => Cow<'a>
//@map Cow < str > => Cow<'_>
//@map :: alloc :: => ::std::
//@map :: core :: panicking :: unreachable_default_msg => vx_unreachable
//@map :: core :: panicking :: panic => vx_panic

#[verifier::external_body] pub struct DynSer { _p: () }
#[verifier::external_body] pub struct DynSeq<'a> { _p: &'a () }
#[verifier::external_body] pub struct DynMap<'a> { _p: &'a () }

pub fn vx_unreachable() -> !
    requires false,
{ loop decreases 0int { } }
pub fn vx_panic(m: &str) -> !
    requires false,
{ loop decreases 0int { } }

/// borrowed or owned text (std's Cow<str>, read only)
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn v(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    pub open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.v()) }
}
impl<'a> core::ops::Deref for Cow<'a> {
    type Target = str;
    fn deref(&self) -> (r: &str) ensures r@ == self.v() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
}

/// `&x[a..b]` on text and byte slices
pub trait VxSlice {
    spec fn vxb(&self) -> Seq<u8>;
    spec fn bound(&self, a: int) -> bool;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &Self)
        requires a <= b <= self.vxb().len(), self.bound(a as int), self.bound(b as int),
        ensures r.vxb() == self.vxb().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &Self)
        requires a <= self.vxb().len(), self.bound(a as int),
        ensures r.vxb() == self.vxb().subrange(a as int, self.vxb().len() as int);
    fn vx_to(&self, b: usize) -> (r: &Self)
        requires b <= self.vxb().len(), self.bound(b as int),
        ensures r.vxb() == self.vxb().subrange(0, b as int);
}
impl VxSlice for str {
    open spec fn vxb(&self) -> Seq<u8> { encode_utf8(self@) }
    open spec fn bound(&self, a: int) -> bool { sv(encode_utf8(self@), a) }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &Self) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &Self) { &self[..b] }
}
impl VxSlice for [u8] {
    open spec fn vxb(&self) -> Seq<u8> { self@ }
    open spec fn bound(&self, a: int) -> bool { true }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &Self) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &Self) { &self[..b] }
}

/// itoa and ryu: assumed to print the canonical decimal form / a float literal
pub mod itoa {
    use super::*;
    #[verifier::external_body] pub struct Buffer { _p: () }
    pub trait Integer: Sized { spec fn ival(self) -> int; }
    impl Integer for u8 { open spec fn ival(self) -> int { self as int } }
    impl Integer for u16 { open spec fn ival(self) -> int { self as int } }
    impl Integer for u32 { open spec fn ival(self) -> int { self as int } }
    impl Integer for u64 { open spec fn ival(self) -> int { self as int } }
    impl Integer for u128 { open spec fn ival(self) -> int { self as int } }
    impl Integer for usize { open spec fn ival(self) -> int { self as int } }
    impl Integer for i8 { open spec fn ival(self) -> int { self as int } }
    impl Integer for i16 { open spec fn ival(self) -> int { self as int } }
    impl Integer for i32 { open spec fn ival(self) -> int { self as int } }
    impl Integer for i64 { open spec fn ival(self) -> int { self as int } }
    impl Integer for i128 { open spec fn ival(self) -> int { self as int } }
    impl Integer for isize { open spec fn ival(self) -> int { self as int } }
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
        #[verifier::external_body] pub fn format<I: Integer>(&mut self, i: I) -> (r: &str)
            ensures txt(r) == p_int(i.ival()),
        { unimplemented!() }
    }
}
pub mod ryu {
    use super::*;
    #[verifier::external_body] pub struct Buffer { _p: () }
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
        #[verifier::external_body] pub fn format_finite(&mut self, f: f64) -> (r: &str)
            requires f_finite(f),
            ensures txt(r) == ryu_text(f),
        { unimplemented!() }
        #[verifier::external_body] pub fn format(&mut self, f: f64) -> (r: &str)
            ensures f_finite(f) ==> txt(r) == ryu_text(f),
        { unimplemented!() }
    }
}

pub struct Trace { pub pulls: Seq<Pull> }

//@item ser::Fragment
//@item json::ser::Layer
//@item json::ser::Serializer

impl DynSer {
    pub uninterp spec fn tree(&self) -> Tree;
    pub uninterp spec fn path(&self) -> Seq<int>;
    #[verifier::external_body]
    fn begin<'z>(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: Fragment<'z>)
        ensures final(tr).pulls == old(tr).pulls.push(Pull::Begin(self.path())), frag_of(r, self.tree(), self.path()),
    { unimplemented!() }
}
impl<'a> DynSeq<'a> {
    pub uninterp spec fn kids(&self) -> Seq<Tree>;
    pub uninterp spec fn path(&self) -> Seq<int>;
    /// members handed out so far; one more than their number once the end was reported
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next<'z>(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Option<&'z DynSer>)
        requires 0 <= old(self).idx() <= old(self).kids().len(),
        ensures final(tr).pulls == old(tr).pulls.push(Pull::Next(old(self).path())),
            final(self).kids() == old(self).kids(), final(self).path() == old(self).path(), final(self).idx() == old(self).idx() + 1,
            match r {
                Some(n) => old(self).idx() < old(self).kids().len() && n.tree() == old(self).kids()[old(self).idx()] && n.path() == old(self).path().push(old(self).idx()),
                None => old(self).idx() == old(self).kids().len(),
            },
    { unimplemented!() }
}
impl<'a> DynMap<'a> {
    pub uninterp spec fn kids(&self) -> Seq<(Seq<u8>, Tree)>;
    pub uninterp spec fn path(&self) -> Seq<int>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next<'y, 'z>(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Option<(Cow<'y>, &'z DynSer)>)
        requires 0 <= old(self).idx() <= old(self).kids().len(),
        ensures final(tr).pulls == old(tr).pulls.push(Pull::Next(old(self).path())),
            final(self).kids() == old(self).kids(), final(self).path() == old(self).path(), final(self).idx() == old(self).idx() + 1,
            match r {
                Some(n) => old(self).idx() < old(self).kids().len() && n.0.bytes() == old(self).kids()[old(self).idx()].0
                    && n.1.tree() == old(self).kids()[old(self).idx()].1 && n.1.path() == old(self).path().push(old(self).idx()),
                None => old(self).idx() == old(self).kids().len(),
            },
    { unimplemented!() }
}

spec fn frag_of(f: Fragment<'_>, t: Tree, p: Seq<int>) -> bool {
    match f {
        Fragment::Null => t == Tree::Null,
        Fragment::Bool(b) => t == Tree::Bool(b),
        Fragment::Str(s) => t == Tree::Str(s.bytes()),
        Fragment::U64(n) => t == Tree::U64(n),
        Fragment::I64(n) => t == Tree::I64(n),
        Fragment::F64(n) => t == Tree::F64(n),
        Fragment::Seq(s) => t == Tree::Seq(s.kids()) && s.idx() == 0 && s.path() == p,
        Fragment::Map(s) => t == Tree::Map(s.kids()) && s.idx() == 0 && s.path() == p,
    }
}

// ---- what is still to be printed and pulled ---------------------------------
spec fn todo_text(st: Seq<Layer<'_>>) -> Seq<u8>
    decreases st.len(),
{
    if st.len() == 0 { Seq::empty() } else {
        match st.last() {
            Layer::Seq(s) => pr_elems(s.kids(), s.idx(), todo_text(st.drop_last())),
            Layer::Map(m) => pr_members(m.kids(), m.idx(), todo_text(st.drop_last())),
        }
    }
}
spec fn todo_pulls(st: Seq<Layer<'_>>) -> Seq<Pull>
    decreases st.len(),
{
    if st.len() == 0 { Seq::empty() } else {
        match st.last() {
            Layer::Seq(s) => pu_seq(s.kids(), s.path(), s.idx(), todo_pulls(st.drop_last())),
            Layer::Map(m) => pu_map(m.kids(), m.path(), m.idx(), todo_pulls(st.drop_last())),
        }
    }
}
spec fn frag_text(f: Fragment<'_>, k: Seq<u8>) -> Seq<u8> {
    match f {
        Fragment::Null => cat(b_null(), k),
        Fragment::Bool(b) => cat(if b { b_true() } else { b_false() }, k),
        Fragment::Str(s) => cat(p_str(s.bytes()), k),
        Fragment::U64(n) => cat(p_int(n as int), k),
        Fragment::I64(n) => cat(p_int(n as int), k),
        Fragment::F64(n) => cat(p_float(n), k),
        Fragment::Seq(s) => cat(one(0x5bu8), pr_elems(s.kids(), 0, k)),
        Fragment::Map(m) => cat(one(0x7bu8), pr_members(m.kids(), 0, k)),
    }
}
spec fn frag_pulls(f: Fragment<'_>, k: Seq<Pull>) -> Seq<Pull> {
    match f {
        Fragment::Seq(s) => pu_seq(s.kids(), s.path(), 0, k),
        Fragment::Map(m) => pu_map(m.kids(), m.path(), 0, k),
        _ => k,
    }
}
spec fn fresh_frag(f: Fragment<'_>) -> bool {
    match f { Fragment::Seq(s) => s.idx() == 0, Fragment::Map(m) => m.idx() == 0, _ => true }
}
/// iterators on the stack have handed out a member and not reported their end
spec fn open_layer(l: Layer<'_>) -> bool {
    match l {
        Layer::Seq(s) => 0 < s.idx() <= s.kids().len(),
        Layer::Map(m) => 0 < m.idx() <= m.kids().len(),
    }
}
spec fn open_stack(st: Seq<Layer<'_>>) -> bool { forall|i: int| 0 <= i < st.len() ==> open_layer(#[trigger] st[i]) }

// ---------------------------------------------------------------------------
// lemmas
// ---------------------------------------------------------------------------
proof fn lem_ascii(s: Seq<char>, b: Seq<u8>)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] < 0x80 && s[i] as int == b[i] as int,
    ensures encode_utf8(s) == b,
{
    assert forall|i: int| 0 <= i < s.len() implies (0 <= s[i] && s[i] < 128) by { assert(b[i] < 0x80); }
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= b);
}

proof fn lem_push_char(s: Seq<char>, c: char)
    requires (c as int) < 0x80,
    ensures encode_utf8(s.push(c)) == encode_utf8(s) + seq![c as u8],
{
    lem_ascii(seq![c], seq![c as u8]);
    assert(s.push(c) =~= s + seq![c]);
    encode_utf8_concat(s, seq![c]);
}
/// done so far + still to do == the whole
#[verifier::opaque]
pub open spec fn left<A>(done: Seq<A>, todo: Seq<A>, all: Seq<A>) -> bool { done + todo == all }
broadcast proof fn lem_left_push<A>(a: Seq<A>, x: A, k: Seq<A>, all: Seq<A>)
    ensures #[trigger] left(a.push(x), k, all) == left(a, cat(one(x), k), all),
{ reveal(left); reveal(cat); reveal(one); assert(a.push(x) + k =~= a + (seq![x] + k)); }
broadcast proof fn lem_left_cat<A>(a: Seq<A>, w: Seq<A>, k: Seq<A>, all: Seq<A>)
    ensures #[trigger] left(cat(a, w), k, all) == left(a, cat(w, k), all),
{ reveal(left); reveal(cat); assert((a + w) + k =~= a + (w + k)); }
broadcast proof fn lem_left_push_char(s: Seq<char>, c: char, k: Seq<u8>, all: Seq<u8>)
    ensures (c as int) < 0x80 ==> #[trigger] left(encode_utf8(s.push(c)), k, all) == left(encode_utf8(s), cat(one(c as u8), k), all),
{
    reveal(left); reveal(cat); reveal(one);
    if (c as int) < 0x80 { lem_push_char(s, c); assert((encode_utf8(s) + seq![c as u8]) + k =~= encode_utf8(s) + (seq![c as u8] + k)); }
}
broadcast proof fn lem_left_push_str(s: Seq<char>, t: Seq<char>, k: Seq<u8>, all: Seq<u8>)
    ensures #[trigger] left(encode_utf8(s + t), k, all) == left(encode_utf8(s), cat(encode_utf8(t), k), all),
{
    reveal(left); reveal(cat);
    encode_utf8_concat(s, t);
    assert((encode_utf8(s) + encode_utf8(t)) + k =~= encode_utf8(s) + (encode_utf8(t) + k));
}
broadcast proof fn lem_left_end<A>(a: Seq<A>, all: Seq<A>)
    ensures #[trigger] left(a, Seq::empty(), all) == (a == all),
{ reveal(left); assert(a + Seq::<A>::empty() =~= a); }
broadcast proof fn lem_left_len<A>(a: Seq<A>, k: Seq<A>, all: Seq<A>)
    ensures #[trigger] left(a, k, all) ==> a.len() + k.len() == all.len(),
{ reveal(left); }
broadcast proof fn lem_cat_len<A>(x: A, k: Seq<A>)
    ensures (#[trigger] cat(one(x), k)).len() == 1 + k.len(),
{ reveal(cat); reveal(one); }
broadcast proof fn lem_text_empty(s: Seq<char>)
    ensures (#[trigger] encode_utf8(s)).len() == 0 <==> s.len() == 0,
{ if s.len() > 0 { assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.drop_first())); } }
broadcast group left_lemmas { lem_cat_len, lem_left_len, lem_left_push, lem_left_cat, lem_left_push_char, lem_left_push_str, lem_left_end, lem_text_empty }

/// the literals the printer writes
proof fn lem_literals()
    ensures
        encode_utf8("null"@) == b_null(), encode_utf8("true"@) == b_true(), encode_utf8("false"@) == b_false(),
        encode_utf8("\\b"@) == seq![0x5cu8, 0x62], encode_utf8("\\t"@) == seq![0x5cu8, 0x74], encode_utf8("\\n"@) == seq![0x5cu8, 0x6e],
        encode_utf8("\\f"@) == seq![0x5cu8, 0x66], encode_utf8("\\r"@) == seq![0x5cu8, 0x72], encode_utf8("\\\""@) == seq![0x5cu8, 0x22],
        encode_utf8("\\\\"@) == seq![0x5cu8, 0x5c], encode_utf8("\\u00"@) == seq![0x5cu8, 0x75, 0x30, 0x30],
        encode_utf8("["@) == one(0x5bu8), encode_utf8("]"@) == one(0x5du8), encode_utf8("{"@) == one(0x7bu8), encode_utf8("}"@) == one(0x7du8),
        encode_utf8(","@) == one(0x2cu8), encode_utf8(":"@) == one(0x3au8), encode_utf8("\""@) == one(0x22u8),
        encode_utf8("[]"@) == seq![0x5bu8, 0x5d], encode_utf8("{}"@) == seq![0x7bu8, 0x7d], encode_utf8(""@) == Seq::<u8>::empty(),
{
    reveal(one); reveal(cat);
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    reveal_strlit("\\b"); reveal_strlit("\\t"); reveal_strlit("\\n"); reveal_strlit("\\f"); reveal_strlit("\\r");
    reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\u00");
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(","); reveal_strlit(":"); reveal_strlit("\"");
    reveal_strlit("[]"); reveal_strlit("{}"); reveal_strlit("");
    lem_ascii("null"@, b_null()); lem_ascii("true"@, b_true()); lem_ascii("false"@, b_false());
    lem_ascii("\\b"@, seq![0x5cu8, 0x62]); lem_ascii("\\t"@, seq![0x5cu8, 0x74]); lem_ascii("\\n"@, seq![0x5cu8, 0x6e]);
    lem_ascii("\\f"@, seq![0x5cu8, 0x66]); lem_ascii("\\r"@, seq![0x5cu8, 0x72]); lem_ascii("\\\""@, seq![0x5cu8, 0x22]);
    lem_ascii("\\\\"@, seq![0x5cu8, 0x5c]); lem_ascii("\\u00"@, seq![0x5cu8, 0x75, 0x30, 0x30]);
    lem_ascii("["@, seq![0x5bu8]); lem_ascii("]"@, seq![0x5du8]); lem_ascii("{"@, seq![0x7bu8]); lem_ascii("}"@, seq![0x7du8]);
    lem_ascii(","@, seq![0x2cu8]); lem_ascii(":"@, seq![0x3au8]); lem_ascii("\""@, seq![0x22u8]);
    lem_ascii("[]"@, seq![0x5bu8, 0x5d]); lem_ascii("{}"@, seq![0x7bu8, 0x7d]); lem_ascii(""@, Seq::<u8>::empty());
}

proof fn lem_esc_plain(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> #[trigger] esc1(s[i]) == seq![s[i]],
    ensures esc_from(s, a) == s.subrange(a, b) + esc_from(s, b),
    decreases b - a,
{
    if a < b {
        assert(esc1(s[a]) == seq![s[a]]);
        lem_esc_plain(s, a + 1, b);
        assert(seq![s[a]] + (s.subrange(a + 1, b) + esc_from(s, b)) =~= s.subrange(a, b) + esc_from(s, b));
    } else {
        assert(s.subrange(a, b) + esc_from(s, b) =~= esc_from(s, b));
    }
}

broadcast proof fn lem_todo_push(st: Seq<Layer<'_>>, l: Layer<'_>)
    ensures #[trigger] st.push(l).drop_last() == st,
{
    assert(st.push(l).drop_last() =~= st);
}
broadcast proof fn lem_same_rest(a: Seq<Layer<'_>>, b: Seq<Layer<'_>>)
    ensures a.len() == b.len() > 0 && (forall|i: int| 0 <= i < a.len() - 1 ==> a[i] == b[i]) ==> #[trigger] a.drop_last() == #[trigger] b.drop_last(),
{
    if a.len() == b.len() > 0 && (forall|i: int| 0 <= i < a.len() - 1 ==> a[i] == b[i]) { assert(a.drop_last() =~= b.drop_last()); }
}
broadcast proof fn lem_popped(st: Seq<Layer<'_>>)
    ensures #[trigger] st.drop_last() == st.subrange(0, st.len() - 1),
{}
broadcast proof fn lem_frag_text(f: Fragment<'_>, t: Tree, p: Seq<int>, k: Seq<u8>)
    ensures #[trigger] frag_of(f, t, p) ==> #[trigger] frag_text(f, k) == pr(t, k),
{}
broadcast proof fn lem_frag_pulls(f: Fragment<'_>, t: Tree, p: Seq<int>, k: Seq<Pull>)
    ensures #[trigger] frag_of(f, t, p) ==> cat(one(Pull::Begin(p)), #[trigger] frag_pulls(f, k)) == pu(t, p, k),
{}
broadcast proof fn lem_todo_open(st: Seq<Layer<'_>>, l: Layer<'_>)
    ensures #[trigger] todo_text(st.push(l)) == match l {
            Layer::Seq(s) => pr_elems(s.kids(), s.idx(), todo_text(st)),
            Layer::Map(m) => pr_members(m.kids(), m.idx(), todo_text(st)),
        },
{ assert(st.push(l).drop_last() =~= st); }
broadcast proof fn lem_todo_pull(st: Seq<Layer<'_>>, l: Layer<'_>)
    ensures #[trigger] todo_pulls(st.push(l)) == match l {
            Layer::Seq(s) => pu_seq(s.kids(), s.path(), s.idx(), todo_pulls(st)),
            Layer::Map(m) => pu_map(m.kids(), m.path(), m.idx(), todo_pulls(st)),
        },
{ assert(st.push(l).drop_last() =~= st); }
broadcast group stack_lemmas { lem_todo_push, lem_same_rest, lem_popped, lem_frag_text, lem_frag_pulls, lem_todo_open, lem_todo_pull }
proof fn lem_start(t: Tree, p: Seq<int>, done: Seq<Pull>)
    ensures
        left(encode_utf8(Seq::<char>::empty()), pr(t, todo_text(Seq::empty())), print(t)),
        left(done, pu(t, p, todo_pulls(Seq::empty())), done + pulls(t, p)),
{
    reveal(left);
    lem_pr(t, Seq::empty());
    lem_pu(t, p, Seq::empty());
    assert(print(t) + Seq::<u8>::empty() =~= print(t));
    assert(pulls(t, p) + Seq::<Pull>::empty() =~= pulls(t, p));
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + print(t) =~= print(t));
}
/// what is left of a string's text at position a
#[verifier::opaque]
spec fn esc_left(s: Seq<u8>, a: int) -> Seq<u8> { esc_from(s, a) + seq![0x22u8] }
proof fn lem_esc_start(s: Seq<u8>, o: Seq<u8>)
    ensures left(o, cat(one(0x22u8), esc_left(s, 0)), cat(o, p_str(s))),
{
    reveal(left); reveal(cat); reveal(one); reveal(esc_left);
    assert(o + (seq![0x22u8] + (esc_from(s, 0) + seq![0x22u8])) =~= o + (seq![0x22u8] + esc_from(s, 0) + seq![0x22u8]));
}
/// bytes a..k need no escape, byte k does
proof fn lem_esc_step(s: Seq<u8>, a: int, k: int)
    requires 0 <= a <= k < s.len(), forall|i: int| a <= i < k ==> #[trigger] esc1(s[i]) == seq![s[i]],
    ensures esc_left(s, a) == cat(s.subrange(a, k), cat(esc1(s[k]), esc_left(s, k + 1))),
        a == k ==> esc_left(s, a) == cat(esc1(s[k]), esc_left(s, k + 1)),
        s[k] < 0x20 && esc1(s[k]).len() == 6 ==> cat(esc1(s[k]), esc_left(s, k + 1))
            == cat(seq![0x5cu8, 0x75, 0x30, 0x30], cat(one(hexdig(s[k] as int / 16)), cat(one(hexdig(s[k] as int % 16)), esc_left(s, k + 1)))),
{
    reveal(esc_left); reveal(cat); reveal(one);
    lem_esc_plain(s, a, k);
    let r = esc_from(s, k + 1) + seq![0x22u8];
    assert((s.subrange(a, k) + (esc1(s[k]) + esc_from(s, k + 1))) + seq![0x22u8] =~= s.subrange(a, k) + (esc1(s[k]) + r));
    if a == k { assert(s.subrange(a, k) + (esc1(s[k]) + r) =~= esc1(s[k]) + r); }
    if s[k] < 0x20 && esc1(s[k]).len() == 6 {
        assert(esc1(s[k]) + r =~= seq![0x5cu8, 0x75, 0x30, 0x30] + (seq![hexdig(s[k] as int / 16)] + (seq![hexdig(s[k] as int % 16)] + r)));
    }
}
proof fn lem_esc_last(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(), forall|i: int| a <= i < s.len() ==> #[trigger] esc1(s[i]) == seq![s[i]],
    ensures esc_left(s, a) == cat(s.subrange(a, s.len() as int), cat(one(0x22u8), Seq::empty())),
        a == s.len() ==> esc_left(s, a) == cat(one(0x22u8), Seq::empty()),
{
    reveal(esc_left); reveal(cat); reveal(one);
    lem_esc_plain(s, a, s.len() as int);
    assert((s.subrange(a, s.len() as int) + Seq::<u8>::empty()) + seq![0x22u8] =~= s.subrange(a, s.len() as int) + (seq![0x22u8] + Seq::<u8>::empty()));
    if a == s.len() { assert(esc_from(s, a) + seq![0x22u8] =~= seq![0x22u8] + Seq::<u8>::empty()); }
}

// ---------------------------------------------------------------------------
// code
// ---------------------------------------------------------------------------
spec fn esc_code(b: int) -> u8 {
    if b == 0x22 { 0x22 } else if b == 0x5c { 0x5c } else if b == 8 { 0x62 } else if b == 9 { 0x74 } else if b == 10 { 0x6e }
    else if b == 12 { 0x66 } else if b == 13 { 0x72 } else if b < 0x20 { 0x75 } else { 0 }
}
//@props C07 C08
//@item json::ser::BB
//@item json::ser::TT
//@item json::ser::NN
//@item json::ser::FF
//@item json::ser::RR
//@item json::ser::QU
//@item json::ser::BS
//@item json::ser::U
//@static json::ser::ESCAPE
    ensures forall|i: int| 0 <= i < 256 ==> (#[trigger] ESCAPE[i]) == esc_code(i),
//@end
//@static json::ser::escape_str::HEX_DIGITS
    ensures forall|i: int| 0 <= i < 16 ==> (#[trigger] HEX_DIGITS[i]) == hexdig(i),
//@end

//@props C07 C08
//@fn json::ser::escape_str
//@params value out
//@flags strslice
    ensures left(encode_utf8(final(out)@), Seq::empty(), cat(encode_utf8(old(out)@), p_str(txt(value)))),
//@pre
    hide(encode_utf8); hide(esc_from); hide(valid_utf8); hide(p_str);
    broadcast use left_lemmas;
    let ghost s = txt(value);
    let ghost all = cat(encode_utf8(out@), p_str(s));
    proof { lem_literals(); encode_utf8_valid_utf8(value@); lem_sv_start(s); lem_esc_start(s, encode_utf8(out@)); }
//@loop 1
    invariant
        bytes@ == s, s == txt(value), valid_utf8(s),
        start <= __vx_i1, sv(s, start as int),
        forall|i: int| start <= i < __vx_i1 ==> #[trigger] esc1(s[i]) == seq![s[i]],
        left(encode_utf8(out@), esc_left(s, start as int), all),
    decreases s.len() - __vx_i1,
//@in_loop 1
    broadcast use left_lemmas;
    proof {
        lem_literals();
        let k = __vx_i1 as int;
        let b = s[k];
        assert(b >> 4 == b / 16 && (b & 0xF) == b % 16) by (bit_vector);
        if esc_code(b as int) == 0 { assert(esc1(b) == seq![b]); } else {
            lem_split(s, start as int, k);
            lem_esc_step(s, start as int, k);
        }
    }
//@after_loop 1
    proof { lem_esc_last(s, start as int); }
//@end

//@trace begin/0 next/0 to_string_impl/1
//@props C06 C07 C08 C09 C20
//@fn json::ser::to_string_impl
//@ret r
//@params value
//@flags trace
//@attr #[verifier::rlimit(60)]
    ensures encode_utf8(r@) == print(value.tree()), final(__tr).pulls == old(__tr).pulls + pulls(value.tree(), value.path()),
//@pre
    hide(p_str); hide(p_int); hide(b_null); hide(b_true); hide(b_false); hide(encode_utf8);
    broadcast use left_lemmas, stack_lemmas;
    let ghost text = print(value.tree());
    let ghost ps = __tr.pulls + pulls(value.tree(), value.path());
    proof { lem_literals(); lem_start(value.tree(), value.path(), __tr.pulls); }
//@loop 1
    invariant
        fresh_frag(fragment), open_stack(serializer.stack@),
        left(encode_utf8(out@), frag_text(fragment, todo_text(serializer.stack@)), text),
        left(__tr.pulls, frag_pulls(fragment, todo_pulls(serializer.stack@)), ps),
    decreases ps.len() - __tr.pulls.len(), 1int,
//@in_loop 1
    broadcast use left_lemmas, stack_lemmas;
    proof { lem_literals(); }
    let ghost n0 = __tr.pulls.len();
//@loop 2
    invariant
        __tr.pulls.len() >= n0,
        open_stack(serializer.stack@),
        left(encode_utf8(out@), todo_text(serializer.stack@), text),
        left(__tr.pulls, todo_pulls(serializer.stack@), ps),
    decreases ps.len() - __tr.pulls.len(), 0int,
//@in_loop 2
    broadcast use left_lemmas, stack_lemmas;
    proof { lem_literals(); }
//@end
//@fn json::ser::to_string
//@sig fn to_string(value: &DynSer, Tracked(__tr): Tracked<&mut Trace>) -> (r: String)
//@params value
//@flags trace
    ensures encode_utf8(r@) == print(value.tree()), final(__tr).pulls == old(__tr).pulls + pulls(value.tree(), value.path()),
//@end
//@include teardown.vrs
//@props C06 C20
impl<'a> Serializer<'a> {
//@fn json::ser::<Drop for Serializer<'a>>::drop
//@include teardown_fn.vrs T=Layer<'a>
}
}
fn main() {}

// ---------------------------------------------------------------------------
// Serialize: the tree a value shows.  The printer's contract (unit `ser`) starts
// from here.
// ---------------------------------------------------------------------------
#[verifier::external_body] pub struct DynSer { _p: () }
#[verifier::external_body] pub struct SDynSeq<'a> { _p: &'a () }
#[verifier::external_body] pub struct SDynMap<'a> { _p: &'a () }
impl DynSer { pub uninterp spec fn tree(&self) -> Tree; }
impl<'a> SDynSeq<'a> { pub uninterp spec fn rest(&self) -> Seq<Tree>; pub uninterp spec fn live(&self) -> bool; }
impl<'a> SDynMap<'a> { pub uninterp spec fn rest(&self) -> Seq<(Seq<u8>, Tree)>; pub uninterp spec fn live(&self) -> bool; }
//@map Cow < 'a , str > => Cow<'a>
//@map Cow < str > => Cow<'_>
//@map Box < dyn Seq + 'a > => Box<SDynSeq<'a>>
//@map Box < dyn Map + 'a > => Box<SDynMap<'a>>
//@map dyn Serialize => DynSer
/// borrowed or owned text (std's Cow<str>, read only)
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { Cow::Borrowed(s) => encode_utf8(s@), Cow::Owned(s) => encode_utf8(s@) } }
}
//@item ser::Fragment | pub
/// this fragment shows this tree
pub open spec fn shows(f: Fragment<'_>, t: Tree) -> bool {
    match (f, t) {
        (Fragment::Null, Tree::Null) => true,
        (Fragment::Bool(a), Tree::Bool(b)) => a == b,
        (Fragment::Str(c), Tree::Str(s)) => c.bytes() == s,
        (Fragment::U64(a), Tree::U64(b)) => a == b,
        (Fragment::I64(a), Tree::I64(b)) => a == b,
        (Fragment::F64(a), Tree::F64(b)) => a == b,
        (Fragment::Seq(b), Tree::Seq(ts)) => b.rest() == ts && b.live(),
        (Fragment::Map(b), Tree::Map(ms)) => b.rest() == ms && b.live(),
        _ => false,
    }
}
pub trait Serialize {
    spec fn tree(&self) -> Tree;
    fn begin(&self) -> (r: Fragment) ensures shows(r, self.tree());
}
impl Serialize for DynSer {
    open spec fn tree(&self) -> Tree { self.tree() }
    #[verifier::external_body] fn begin(&self) -> (r: Fragment) { unimplemented!() }
}
/// `rest`: what is still to come.  `live`: the end was not reported yet.
pub trait SerSeq {
    spec fn rest(&self) -> Seq<Tree>;
    spec fn live(&self) -> bool;
    fn next(&mut self) -> (r: Option<&DynSer>)
        requires old(self).live(),
        ensures match r {
            Some(n) => old(self).rest().len() > 0 && n.tree() == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() && final(self).live(),
            None => old(self).rest().len() == 0,
        };
}
pub trait SerMap {
    spec fn rest(&self) -> Seq<(Seq<u8>, Tree)>;
    spec fn live(&self) -> bool;
    fn next(&mut self) -> (r: Option<(Cow<'_>, &DynSer)>)
        requires old(self).live(),
        ensures match r {
            Some(kn) => old(self).rest().len() > 0 && kn.0.bytes() == old(self).rest()[0].0 && kn.1.tree() == old(self).rest()[0].1
                && final(self).rest() == old(self).rest().drop_first() && final(self).live(),
            None => old(self).rest().len() == 0,
        };
}
#[verifier::external_body]
pub fn vx_ser_seq<'a, B: SerSeq + 'a>(b: B) -> (r: Box<SDynSeq<'a>>) ensures r.rest() == b.rest(), r.live() == b.live() { unimplemented!() }
#[verifier::external_body]
pub fn vx_ser_map<'a, B: SerMap + 'a>(b: B) -> (r: Box<SDynMap<'a>>) ensures r.rest() == b.rest(), r.live() == b.live() { unimplemented!() }
#[verifier::external_body]
pub fn vx_ser<'a, T: Serialize + ?Sized>(t: &'a T) -> (r: &'a DynSer) ensures r.tree() == t.tree() { unimplemented!() }

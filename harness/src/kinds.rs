//! The kinds of cases and what each must satisfy.
use crate::derived::*;
use crate::gen;
use crate::rec::{self, Entry, Ig, NoFill, Rec, S};
use crate::refp::{self, cut, Ev, Why, J};
use crate::rng::Rng;
use crate::types::{close_j, from_j, norm, to_j, HMap, Ty};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type Bad = Vec<(Vec<&'static str>, String)>;

pub const PARSE: u8 = 1;
pub const INJECT: u8 = 2;
pub const TYPED: u8 = 3;
pub const ROUND: u8 = 4;
pub const SER: u8 = 5;
pub const STR: u8 = 6;
pub const NUM: u8 = 7;
pub const DROPS: u8 = 8;
pub const CONT: u8 = 9;
pub const DEEP: u8 = 10;
pub const REPARSE: u8 = 11;
pub const SHAPES: u8 = 12;
pub const LATE: u8 = 13;

pub fn name(k: u8) -> &'static str {
    ["?", "parse", "inject", "typed", "round-trip", "serialize", "string", "number", "drops", "container", "deep", "reparse", "borrowed", "inject"].get(k as usize).copied().unwrap_or("?")
}

// ---- types under test ---------------------------------------------------------
pub struct Entry_ {
    pub name: &'static str,
    pub props: Vec<&'static str>,
    pub typed: fn(&str) -> Result<(), String>,
    pub round: fn(&mut Rng) -> Bad,
    pub text: fn(&mut Rng) -> J,
}
fn typed<T: Ty>(t: &str) -> Result<(), String> {
    let r = refp::parse(t.as_bytes());
    let want = r.tree.as_ref().and_then(T::expect);
    let got = json::from_str::<T>(t).ok();
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if a.same(b) => Ok(()),
        _ => Err(format!("got {}, expected {}", cut(&format!("{:?}", got)), cut(&format!("{:?}", want)))),
    }
}
fn round<T: Ty>(r: &mut Rng) -> Bad {
    let d = r.below(4);
    let v = T::gen(r, d);
    let mut want = String::new();
    refp::print(&v.frag(), &mut want);
    let text = json::to_string(&v);
    if let Err(e) = refp::same_text(&text, &want) { return vec![(add(T::props(), &["C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C20"]), format!("serializing {}: {}", cut(&format!("{:?}", v)), e))] }
    match json::from_str::<T>(&text) {
        Ok(w) if v.close(&w) => vec![],
        Ok(w) => vec![(add(T::props(), &["C11", "C08", "C10"]), format!("{} came back from {} as {}", cut(&format!("{:?}", v)), cut(&text), cut(&format!("{:?}", w))))],
        Err(_) => vec![(add(T::props(), &["C11", "C08", "C10"]), format!("{} printed as {} does not parse back", cut(&format!("{:?}", v)), cut(&text)))],
    }
}
fn add(mut p: Vec<&'static str>, q: &[&'static str]) -> Vec<&'static str> { p.extend(q); p }
fn text_fuse<T: Ty>(r: &mut Rng) -> J { let mut j = text::<T>(r); fuse_some(r, &mut j); j }
fn fuse_some(r: &mut Rng, j: &mut J) { match j { J::Pos(n) if *n < 100 && r.chance(1, 2) => *n = 60, J::Arr(v) => v.iter_mut().for_each(|x| fuse_some(r, x)), J::Obj(v) => v.iter_mut().for_each(|x| fuse_some(r, &mut x.1)), _ => {} } }
fn text<T: Ty>(r: &mut Rng) -> J { let d = r.below(4); crate::types::gen_j::<T>(r, d) }
macro_rules! table { ($($t:ty),* $(,)?) => { vec![ $( Entry_ { name: stringify!($t), props: { let mut p = <$t as Ty>::props(); p.sort(); p.dedup(); p }, typed: typed::<$t>, round: round::<$t>, text: text::<$t> } ),* ] } }
thread_local! { pub static TABLE: Vec<Entry_> = { let t = make_table(); assert!(t.len() <= 256); t }; }
fn make_table() -> Vec<Entry_> {
    crate::derived_gen_types!(table [
        (), bool, String, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64,
        Box<u8>, Box<String>, Box<()>, Box<bool>, Box<i64>, Box<f64>, Box<Vec<u8>>, Box<BTreeMap<String, u8>>, Box<(u8, String)>, Box<[String; 2]>, Box<Box<Vec<Box<u8>>>>, Box<One>, Box<Option<u8>>, Box<Color>, Box<Value>, Box<Option<Vec<String>>>,
        Option<u8>, Option<i64>, Option<f64>, Option<bool>, Option<String>, Option<Vec<u8>>, Option<BTreeMap<String, u8>>, Option<(u8, bool)>, Option<[u8; 1]>, Option<Box<String>>, Option<Two>, Option<Color>, Option<Box<Vec<Option<u8>>>>,
        (u8, bool), (String, Vec<u8>), (Option<u8>, Option<u8>), ((u8, u8), (u8, u8)), (Box<u8>, Option<String>), (Vec<u8>, BTreeMap<String, u8>), (Option<(u8, u8)>, [u8; 2]), ((), ()), (Value, Value),
        Vec<u8>, Vec<()>, Vec<String>, Vec<Vec<u8>>, Vec<Option<u8>>, Vec<(u8, bool)>, Vec<BTreeMap<String, u8>>, Vec<Box<u8>>, Vec<[u8; 2]>, Vec<One>, Vec<Color>, Vec<Value>, Vec<f64>, Vec<Option<Vec<Option<bool>>>>,
        [u8; 0], [u8; 1], [u8; 2], [u8; 3], [String; 2], [Vec<String>; 3], [[u8; 2]; 2], [Option<u8>; 2], [Box<String>; 3], [(); 2], [One; 2], [String; 9], [BTreeMap<String, u8>; 1], [bool; 17], [u8; 65], [u8; 300], [String; 130], [(); 257], Box<[u8; 128]>, [Box<bool>; 256], [Value; 2], [[String; 0]; 2],
        BTreeMap<String, u8>, BTreeMap<String, String>, BTreeMap<u8, bool>, BTreeMap<i64, String>, BTreeMap<char, Vec<u8>>, BTreeMap<bool, ()>, BTreeMap<String, BTreeMap<String, u8>>, BTreeMap<String, Option<u8>>, BTreeMap<String, Value>,
        HMap<String, u8>, HMap<String, String>, HMap<u8, bool>, HMap<i64, String>, HMap<char, Vec<u8>>, HMap<bool, ()>, HMap<String, HMap<String, u8>>, HMap<String, Option<u8>>, HMap<String, Box<One>>,
        Value, Number, Array, Object,
        Zero, One, Two, Opt, Ren, Raw, Cross, G1, G2, Two2, Nest, Units, Many, C3, __Odd,
        Color, Single, Odd, Disc, Big,
    ])
}
pub fn types_with(prop: &str) -> Vec<usize> {
    TABLE.with(|t| t.iter().enumerate().filter(|(_, e)| e.props.iter().any(|p| *p == prop)).map(|(i, _)| i).collect())
}
pub fn all_types() -> usize { TABLE.with(|t| t.len()) }

// ---- parse ----------------------------------------------------------------------
fn parse_case(t: &str, fail_at: i64, bad: &mut Bad) {
    let r = refp::parse(t.as_bytes());
    let nev = r.evs.len() as i64;
    let failed = fail_at < nev;
    let want_ok = r.ok && !failed;
    let want = rec::with_ids(&r.evs);
    let want = &want[..want.len().min(if failed { fail_at as usize + 1 } else { usize::MAX })];
    rec::start(fail_at);
    let res = json::from_str::<Rec>(t);
    let ok = res.is_ok();
    drop(res);
    let log = rec::finish();
    if let Some(b) = &log.bad { bad.push((vec!["C06", "C17", "C19"], b.clone())) }
    if !log.live.is_empty() { bad.push((vec!["C17", "C19"], format!("receivers never released: {:?}", log.live))) }
    let got: Vec<(i64, Ev)> = log.entries.into_iter().filter_map(|e| match e { Entry::Call(i, e) => Some((i, e)), _ => None }).collect();
    if ok != want_ok {
        let mut p = vec!["C01"];
        match r.why { Why::Str => p.push("C02"), Why::Number => p.extend(["C03", "C04"]), Why::Range => p.push("C04"), _ => {} }
        if failed { p = vec!["C19", "C12", "C05"] }
        if r.ok && !failed {
            // valid text rejected: name the token kind that stopped it
            match r.evs.get(got.len()) { Some(Ev::Str(_) | Ev::Key(_)) => p.push("C02"), Some(Ev::Neg(_) | Ev::Pos(_)) => p.push("C03"), Some(Ev::Float(_)) => p.push("C04"), _ => {} }
            p.push("C19");
        }
        bad.push((p, format!("{} although the text is {}", if ok { "accepted" } else { "rejected" }, if failed { "refused by its receiver" } else if r.ok { "one JSON value" } else { "no JSON value" })));
    }
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let (a, b) = (got.get(i), want.get(i));
        let mut p = vec!["C19"];
        for (_, e) in a.into_iter().chain(b) {
            match e { Ev::Str(_) | Ev::Key(_) => p.push("C02"), Ev::Neg(_) | Ev::Pos(_) => p.extend(["C03", "C04"]), Ev::Float(_) => p.extend(["C04", "C03"]), _ => p.push("C01") }
        }
        bad.push((p, format!("call {} is {:?}, expected {:?}", i, a, b)));
    }
}
fn value_case(t: &str, bad: &mut Bad) {
    let r = refp::parse(t.as_bytes());
    let v = json::from_str::<Value>(t);
    if v.is_ok() != r.ok {
        let mut p = vec!["C01"];
        match r.why { Why::Str => p.push("C02"), Why::Number => p.extend(["C03", "C04"]), Why::Range => p.push("C04"), _ => {} }
        bad.push((p, format!("{} as Value", if r.ok { "rejected" } else { "accepted" })));
    }
    if json::from_str::<Ig>(t).is_ok() != r.ok {
        bad.push((vec!["C01", "C14"], format!("{} when ignored", if r.ok { "rejected" } else { "accepted" })));
    }
    if json::from_str::<NoFill>(t).is_ok() { bad.push((vec!["C12"], "success without a value".into())) }
    if let (Ok(v), Some(tree)) = (&v, &r.tree) {
        let want = norm(tree);
        if to_j(v) != want { bad.push((vec!["C10", "C01"], format!("parsed as {}, expected {}", cut(&format!("{:?}", v)), cut(&format!("{:?}", want))))) }
    }
}
fn reparse_case(t: &str, bad: &mut Bad) {
    let Ok(v) = json::from_str::<Value>(t) else { return };
    let text = json::to_string(&v);
    let mut want = String::new();
    refp::print(&to_j(&v), &mut want);
    if let Err(e) = refp::same_text(&text, &want) { bad.push((vec!["C10", "C07", "C09"], e)) }
    match json::from_str::<Value>(&text) {
        Ok(w) if close_j(&to_j(&v), &to_j(&w)) => {}
        w => bad.push((vec!["C10"], format!("{} parses as {:?}", cut(&text), w.ok()))),
    }
}

// ---- serialize -----------------------------------------------------------------
fn ser_case(j: &J, bad: &mut Bad) {
    let nid = std::rc::Rc::new(std::cell::Cell::new(0));
    let root = rec::Node::new(j.clone(), nid.clone());
    rec::SLOG.with(|l| l.borrow_mut().clear());
    let text = json::to_string(&root);
    let log = rec::SLOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    drop(root);
    let mut want = String::new();
    refp::print(j, &mut want);
    if let Err(e) = refp::same_text(&text, &want) {
        // a wrong separator or bracket, a wrong string, or a wrong number
        bad.push((vec!["C07", "C20", "C08", "C09"], e));
    } else if !refp::parse(text.as_bytes()).ok && text.len() < 1 << 20 && !text.contains("e3") {
        bad.push((vec!["C07"], format!("{:?} is no JSON document", cut(&text))));
    }
    let mut pulls = Vec::new();
    rec::pulls(j, &mut 0, &mut pulls);
    let got: Vec<S> = log.iter().filter(|s| !matches!(s, S::Drop(_))).cloned().collect();
    if got != pulls {
        let i = got.iter().zip(&pulls).position(|(a, b)| a != b).unwrap_or(got.len().min(pulls.len()));
        bad.push((vec!["C20"], format!("pull {} is {:?}, expected {:?}", i, got.get(i), pulls.get(i))));
    } else {
        // an iterator is released after the last activity below it
        let mut dropped = std::collections::BTreeSet::new();
        let mut open: Vec<u64> = Vec::new();
        for s in &log {
            match s {
                S::Drop(i) => { if !dropped.insert(*i) { bad.push((vec!["C20"], format!("iterator {} released twice", i))) } open.retain(|x| x != i) }
                S::Next(i) => { if !open.contains(i) { if dropped.contains(i) { bad.push((vec!["C20"], format!("iterator {} used after release", i))) } open.push(*i) } }
                _ => {}
            }
        }
        if !open.is_empty() { bad.push((vec!["C20"], format!("iterators never released: {:?}", open))) }
    }
    // a producer that panics: the pulls before it are as ever, and what is open is released from the inside out
    if bad.is_empty() && pulls.len() <= 24 {
        for at in 0..pulls.len() {
            let nid = std::rc::Rc::new(std::cell::Cell::new(0));
            let root = rec::Node::new(j.clone(), nid.clone());
            rec::SLOG.with(|l| l.borrow_mut().clear());
            rec::SFUSE.with(|f| f.set(at));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { json::to_string(&root); }));
            rec::SFUSE.with(|f| f.set(usize::MAX));
            let log = rec::SLOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
            if r.is_ok() { bad.push((vec!["C20"], format!("a panic at pull {} was lost", at))) }
            let (mut open, mut inner) = (Vec::new(), true);
            for s in &log {
                match s {
                    S::Next(i) if !open.contains(i) => open.push(*i),
                    S::Drop(i) => { if open.last() == Some(i) { open.pop(); } else { inner = inner && !open.contains(i) } }
                    _ => {}
                }
            }
            if !inner || !open.is_empty() { bad.push((vec!["C20"], format!("after a panic at pull {}: iterators {:?} not released, or not from the inside out: {:?}", at, open, log))); break }
        }
    }
}
fn str_case(s: &str, bad: &mut Bad) {
    let mut want = String::new();
    refp::escape(s, &mut want);
    let p = || vec!["C08", "C07"];
    let got = json::to_string(s);
    if got != want { bad.push((p(), format!("printed {:?}, expected {:?}", cut(&got), cut(&want)))) }
    if json::from_str::<String>(&got).ok().as_deref() != Some(s) { bad.push((vec!["C08", "C02"], format!("{:?} does not parse back", cut(&got)))) }
    let m: BTreeMap<String, ()> = [(s.to_string(), ())].into_iter().collect();
    let mt = json::to_string(&m);
    if mt != format!("{{{}:null}}", want) { bad.push((vec!["C08", "C07", "C15"], format!("as key: {:?}", cut(&mt)))) }
    match json::from_str::<BTreeMap<String, ()>>(&mt) { Ok(x) if x == m => {} _ => bad.push((vec!["C08", "C02", "C15"], format!("key does not come back from {:?}", cut(&mt)))) }
}
fn num_case(ty: u8, bits: u64, bad: &mut Bad) {
    macro_rules! int { ($t:ty) => {{
        let v = bits as $t;
        let s = json::to_string(&v);
        if s != v.to_string() { bad.push((vec!["C09", "C07"], format!("{} printed {:?}", v, s))) }
        if json::from_str::<$t>(&s).ok() != Some(v) { bad.push((vec!["C09", "C03", "C11"], format!("{} does not come back from {:?}", v, s))) }
        let n = if (v as i128) < 0 { Number::I64(v as i64) } else { Number::U64(v as u64) };
        if json::to_string(&n) != v.to_string() || n.to_string() != v.to_string() { bad.push((vec!["C09", "C10"], format!("Number {} printed {:?}", v, json::to_string(&n)))) }
    }} }
    match ty % 12 {
        0 => int!(u8), 1 => int!(u16), 2 => int!(u32), 3 => int!(u64), 4 => int!(usize),
        5 => int!(i8), 6 => int!(i16), 7 => int!(i32), 8 => int!(i64), 9 => int!(isize),
        k => {
            let f = if k == 10 { f64::from_bits(bits) } else { f32::from_bits(bits as u32) as f64 };
            let s = if k == 10 { json::to_string(&f) } else { json::to_string(&f32::from_bits(bits as u32)) };
            let mut want = String::new();
            refp::print(&J::Float(f), &mut want);
            if let Err(e) = refp::same_text(&s, &want) { bad.push((vec!["C09", "C07"], e)) }
            let n = json::to_string(&Number::F64(f));
            if let Err(e) = refp::same_text(&n, &want) { bad.push((vec!["C09", "C10"], e)) }
            if f.is_finite() {
                match json::from_str::<f64>(&s) { Ok(g) if f.close(&g) => {} g => bad.push((vec!["C09", "C10", "C11", "C04"], format!("{:?} printed {:?} parses as {:?}", f, s, g.ok()))) }
            }
        }
    }
    if json::to_string(&true) != "true" || json::to_string(&false) != "false" || json::to_string(&()) != "null" { bad.push((vec!["C09", "C07"], "bool or unit".into())) }
}
fn shapes_case(r: &mut Rng, bad: &mut Bad) {
    let s = gen::string(r);
    let o = gen::string(r);
    let bytes: Vec<u8> = (0..r.below(5)).map(|_| r.next() as u8).collect();
    let mut chk = |text: String, j: J| {
        let mut want = String::new();
        refp::print(&j, &mut want);
        if let Err(e) = refp::same_text(&text, &want) { bad.push((vec!["C07", "C14", "C11", "C15", "C16"], e)) }
    };
    macro_rules! b { ($t:expr) => {{ let t = $t; let b = Borrowed { s: &s, c: std::borrow::Cow::Borrowed(&o), t: &t, sl: &bytes }; chk(json::to_string(&b), borrowed_frag(&b)); }} }
    match r.below(5) {
        0 => b!(One::gen(r, 2)),
        1 => b!(Vec::<Option<u8>>::gen(r, 2)),
        2 => b!(Value::gen(r, 3)),
        3 => { let v = Vec::<One>::gen(r, 2); let refs: Vec<&One> = v.iter().collect(); chk(json::to_string(&refs), v.frag()); chk(json::to_string(&v[..]), v.frag()); chk(json::to_string(&Some(&v)), v.frag()); let c: std::borrow::Cow<str> = std::borrow::Cow::Owned(s.clone()); chk(json::to_string(&c), J::Str(s.clone())); }
        _ => { let m = BTreeMap::<u8, String>::gen(r, 2); let mm: BTreeMap<u8, &str> = m.iter().map(|(k, v)| (*k, v.as_str())).collect(); chk(json::to_string(&mm), m.frag()); let t: (&str, &[u8]) = (&s, &bytes); chk(json::to_string(&t), J::Arr(vec![J::Str(s.clone()), bytes.frag()])); let bx: Box<str> = s.clone().into(); chk(json::to_string(&bx), J::Str(s.clone())) }
    }
}

// ---- drop counting ---------------------------------------------------------------
thread_local! { static REG: RefCell<(u64, BTreeMap<u64, u64>)> = const { RefCell::new((0, BTreeMap::new())) }; }
const DM: u64 = 0x0dd0_b0c5_0dd0_b0c5;
/// counted element: parses from a number up to 99, fails on 100 and on other kinds
#[derive(Debug)]
pub struct D { magic: u64, id: u64, val: u64 }
impl D { fn make(val: u64) -> D { REG.with(|r| { let mut r = r.borrow_mut(); r.0 += 1; let id = r.0; r.1.insert(id, val); D { magic: DM, id, val } }) } }
impl Drop for D {
    fn drop(&mut self) {
        if self.magic != DM { crate::work::fatal("an element that was never created (or is already gone) was released"); }
        let boom = self.val == 60 && FUSE.with(|f| f.replace(false));
        self.magic = 0xdddd_dddd_dddd_dddd;
        REG.with(|r| if r.borrow_mut().1.remove(&self.id).is_none() { crate::work::fatal("element released twice") });
        if boom { panic!("a release that panics") }
    }
}
thread_local! { static BOOMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; static FUSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
impl Serialize for D { fn begin(&self) -> miniserde::ser::Fragment<'_> { miniserde::ser::Fragment::U64(self.val) } }
impl Deserialize for D {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        miniserde::make_place!(Place);
        impl miniserde::de::Visitor for Place<D> {
            fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
                if n >= 100 { return Err(miniserde::Error) }
                self.out = Some(D::make(n));
                Ok(())
            }
            fn seq(&mut self) -> miniserde::Result<Box<dyn miniserde::de::Seq + '_>> { Ok(Box::new(DS { out: &mut self.out, d: D::make(7), n: None })) }
            fn map(&mut self) -> miniserde::Result<Box<dyn miniserde::de::Map + '_>> { Ok(Box::new(DS { out: &mut self.out, d: D::make(8), n: None })) }
        }
        struct DS<'a> { out: &'a mut Option<D>, d: D, n: Option<D> }
        impl<'a> miniserde::de::Seq for DS<'a> {
            fn element(&mut self) -> miniserde::Result<&mut dyn miniserde::de::Visitor> { Ok(<D as Deserialize>::begin(&mut self.n)) }
            fn finish(&mut self) -> miniserde::Result<()> { if let Some(n) = &self.n { if n.val == 50 { return Err(miniserde::Error) } } if self.d.magic != DM { crate::work::fatal("builder used after release") } *self.out = Some(std::mem::replace(&mut self.d, D::make(9))); Ok(()) }
        }
        impl<'a> miniserde::de::Map for DS<'a> {
            fn key(&mut self, _: &str) -> miniserde::Result<&mut dyn miniserde::de::Visitor> { Ok(<D as Deserialize>::begin(&mut self.n)) }
            fn finish(&mut self) -> miniserde::Result<()> { miniserde::de::Seq::finish(self) }
        }
        Place::new(out)
    }
}
impl Ty for D {
    fn expect(j: &J) -> Option<Self> {
        match j {
            J::Pos(n) if *n < 100 => Some(D::make(*n)),
            J::Arr(a) => { let mut l = None; for x in a { l = Some(D::expect(x)?) } if l.is_some_and(|d| d.val == 50) { return None } Some(D::make(7)) }
            J::Obj(a) => { let mut l = None; for (_, x) in a { l = Some(D::expect(x)?) } if l.is_some_and(|d| d.val == 50) { return None } Some(D::make(8)) }
            _ => None,
        }
    }
    fn gen(r: &mut Rng, _: usize) -> Self { D::make(r.below(100) as u64) }
    fn right(r: &mut Rng, d: usize) -> J {
        match r.below(if d == 0 { 8 } else { 12 }) { 0 => J::Pos(100), 1 => J::Null, 2 => J::Pos(50), 8 | 9 => J::Arr((0..r.below(4)).map(|_| D::right(r, d - 1)).collect()), 10 | 11 => J::Obj((0..r.below(4)).map(|_| (gen::key(r), D::right(r, d - 1))).collect()), _ => J::Pos(r.below(100) as u64) }
    }
    fn frag(&self) -> J { J::Pos(self.val) }
    fn same(&self, o: &Self) -> bool { self.magic == DM && o.magic == DM && self.val == o.val }
    fn props() -> Vec<&'static str> { vec!["C17"] }
}
/// counted element whose sequence and map builders deliver when they are released
#[derive(Debug)]
pub struct L(D);
impl Deserialize for L {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        miniserde::make_place!(Place);
        impl miniserde::de::Visitor for Place<L> {
            fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
                if n >= 100 { return Err(miniserde::Error) }
                self.out = Some(L(D::make(n)));
                Ok(())
            }
            fn seq(&mut self) -> miniserde::Result<Box<dyn miniserde::de::Seq + '_>> { Ok(Box::new(LS { out: &mut self.out, val: 7, full: false, n: None })) }
            fn map(&mut self) -> miniserde::Result<Box<dyn miniserde::de::Map + '_>> { Ok(Box::new(LS { out: &mut self.out, val: 8, full: false, n: None })) }
        }
        struct LS<'a> { out: &'a mut Option<L>, val: u64, full: bool, n: Option<D> }
        impl<'a> Drop for LS<'a> { fn drop(&mut self) { if self.full { *self.out = Some(L(D::make(self.val))) } } }
        impl<'a> miniserde::de::Seq for LS<'a> {
            fn element(&mut self) -> miniserde::Result<&mut dyn miniserde::de::Visitor> { Ok(<D as Deserialize>::begin(&mut self.n)) }
            fn finish(&mut self) -> miniserde::Result<()> { if let Some(n) = &self.n { if n.val == 50 { return Err(miniserde::Error) } } self.full = true; Ok(()) }
        }
        impl<'a> miniserde::de::Map for LS<'a> {
            fn key(&mut self, _: &str) -> miniserde::Result<&mut dyn miniserde::de::Visitor> { Ok(<D as Deserialize>::begin(&mut self.n)) }
            fn finish(&mut self) -> miniserde::Result<()> { miniserde::de::Seq::finish(self) }
        }
        Place::new(out)
    }
}
impl Serialize for L { fn begin(&self) -> miniserde::ser::Fragment<'_> { self.0.begin() } }
impl Ty for L {
    fn expect(j: &J) -> Option<Self> { D::expect(j).map(L) }
    fn gen(r: &mut Rng, d: usize) -> Self { L(D::gen(r, d)) }
    fn right(r: &mut Rng, d: usize) -> J { D::right(r, d) }
    fn frag(&self) -> J { self.0.frag() }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
    fn props() -> Vec<&'static str> { vec!["C17"] }
}
#[derive(Deserialize, Serialize, Debug)] pub struct DD { a: [D; 2], b: Box<D>, c: Option<D>, d: (D, D) }
impl Ty for DD {
    fn expect(_: &J) -> Option<Self> { None }
    fn gen(r: &mut Rng, d: usize) -> Self { DD { a: Ty::gen(r, d), b: Ty::gen(r, d), c: Ty::gen(r, d), d: Ty::gen(r, d) } }
    fn frag(&self) -> J { J::Obj(vec![("a".into(), self.a.frag()), ("b".into(), self.b.frag()), ("c".into(), self.c.frag()), ("d".into(), self.d.frag())]) }
    fn right(r: &mut Rng, d: usize) -> J {
        let mut v: Vec<(String, J)> = vec![("a".into(), <[D; 2]>::right(r, d)), ("b".into(), D::right(r, d)), ("c".into(), D::right(r, d)), ("d".into(), <(D, D)>::right(r, d))];
        if r.chance(1, 2) { let i = r.below(4); let x = v[i].clone(); v.push(x) }
        J::Obj(v)
    }
    fn same(&self, _: &Self) -> bool { true }
    fn props() -> Vec<&'static str> { vec!["C17"] }
}
pub struct DropEntry { pub name: &'static str, pub run: fn(&str) -> Result<(), String>, pub text: fn(&mut Rng) -> J }
fn drops<T: Ty>(t: &str) -> Result<(), String> { typed::<T>(t) }
/// one release panics on the way: nothing may be released twice for it
fn drops_fuse<T: Ty>(t: &str) -> Result<(), String> {
    FUSE.with(|f| f.set(true));
    let r = std::panic::catch_unwind(|| { let _ = json::from_str::<T>(t); });
    FUSE.with(|f| f.set(false));
    // what a panic left behind is not counted
    if r.is_err() { REG.with(|r| r.borrow_mut().1.clear()); BOOMED.with(|b| b.set(true)) }
    Ok(())
}
fn drops_only<T: Ty>(t: &str) -> Result<(), String> { let _ = json::from_str::<T>(t); Ok(()) }
macro_rules! dtable { ($($t:ty),* $(,)?) => { vec![ $( DropEntry { name: stringify!($t), run: drops::<$t>, text: text::<$t> } ),* , DropEntry { name: "DD", run: drops_only::<DD>, text: text::<DD> }, DropEntry { name: "DD (panic)", run: drops_fuse::<DD>, text: text_fuse::<DD> }, DropEntry { name: "map (panic)", run: drops_fuse::<BTreeMap<String, [D; 2]>>, text: text_fuse::<BTreeMap<String, [D; 2]>> }, DropEntry { name: "boxes (panic)", run: drops_fuse::<[Box<[D; 2]>; 2]>, text: text_fuse::<[Box<[D; 2]>; 2]> }, DropEntry { name: "nested (panic)", run: drops_fuse::<[[D; 2]; 2]>, text: text_fuse::<[[D; 2]; 2]> } ] } }
thread_local! { pub static DTABLE: Vec<DropEntry> = dtable![
    D, [D; 0], [D; 1], [D; 2], [D; 3], [D; 5], [D; 200], [D; 64], [Box<D>; 129], Box<[D; 128]>, Box<D>, Box<[D; 2]>, [Box<D>; 2], Box<Box<D>>, Vec<[D; 2]>, Vec<Box<D>>, Vec<D>, (D, D), ([D; 2], Box<D>), Option<[D; 2]>, Option<Box<D>>, Box<Option<D>>, Box<Vec<D>>, Box<(D, D)>,
    [[D; 2]; 2], [Vec<D>; 2], [Option<D>; 3], [(D, D); 2], BTreeMap<String, [D; 2]>, BTreeMap<String, D>, BTreeMap<u8, Box<D>>, HMap<String, D>, HMap<String, Box<[D; 1]>>, Box<BTreeMap<String, D>>, [Option<Box<D>>; 2], Box<Box<[D; 2]>>,
    L, Box<L>, Box<Box<L>>, [L; 2], Vec<L>, (L, L), Option<Box<L>>, [Box<L>; 2], (Box<L>, D), BTreeMap<String, L>, Vec<Box<L>>,
]; }
fn drops_case(i: usize, t: &str, bad: &mut Bad) {
    REG.with(|r| *r.borrow_mut() = (0, BTreeMap::new()));
    let res = DTABLE.with(|d| (d[i % d.len()].run)(t));
    let left = REG.with(|r| r.borrow().1.len());
    let nm = DTABLE.with(|d| d[i % d.len()].name);
    if let Err(e) = res { bad.push((vec!["C17", "C13", "C11", "C12"], format!("{}: {}", nm, e))) }
    if left != 0 { bad.push((vec!["C17"], format!("{}: {} element(s) never released", nm, left))) }
    REG.with(|r| *r.borrow_mut() = (0, BTreeMap::new()));
}

// ---- containers -------------------------------------------------------------------
fn cont_case(ops: &[u8], bad: &mut Bad) {
    let mut r = Rng(ops.iter().fold(7, |a, b| a.wrapping_mul(131).wrapping_add(*b as u64 + 1)));
    let mut say = |what: &str, ok: bool| if !ok && bad.is_empty() { bad.push((vec!["C18"], what.to_string())) };
    let sj = |r: &mut Rng| { let d = r.below(3); norm(&gen::j(r, d)) };
    let mut a = Array::new();
    let mut ma: Vec<J> = vec![];
    let mut o = Object::new();
    let mut mo: BTreeMap<String, J> = BTreeMap::new();
    say("new array is empty", a.is_empty() && <Array as Default>::default().is_empty());
    say("new object is empty", o.is_empty() && <Object as Default>::default().is_empty());
    say("default value is null", matches!(<Value as Default>::default(), Value::Null));
    for (n, &op) in ops.iter().enumerate() {
        let what = format!("operation {} (code {})", n, op);
        let v = sj(&mut r);
        let k = gen::key(&mut r);
        let many = [300usize, 129, 33, 520][ops.len() % 4];
        let i = r.below(ma.len() + 1);
        match op % 46 {
            0 | 1 => { a.push(from_j(&v)); ma.push(v); }
            2 => { a.insert(i, from_j(&v)); ma.insert(i, v); }
            3 => { say(&what, a.pop().map(|x| to_j(&x)) == ma.pop()); }
            4 => if i < ma.len() { say(&what, to_j(&a.remove(i)) == ma.remove(i)) },
            5 => if i < ma.len() { say(&what, to_j(&a.swap_remove(i)) == ma.swap_remove(i)) },
            6 => { a.truncate(i); ma.truncate(i); }
            7 => { a = a.into_iter().collect(); }
            8 => { let mut it = a.into_iter(); let m: Vec<J> = (0..i).map_while(|_| it.next()).map(|x| to_j(&x)).collect(); say(&what, m[..] == ma[..i]); drop(it); a = Array::new(); ma.clear(); }
            9 => { let mut it = a.into_iter(); let m: Vec<J> = (0..i).map_while(|_| it.next_back()).map(|x| to_j(&x)).collect(); say(&what, m.len() == i && m.iter().rev().eq(ma[ma.len() - i..].iter())); a = it.collect(); let l = ma.len() - i; ma.truncate(l); }
            10 => for x in &mut a { if let Value::Null = x { *x = Value::Bool(true) } } ,
            11 => { let c = a.clone(); say(&what, c.len() == ma.len() && c.iter().map(to_j).eq(ma.iter().cloned())); a = c; }
            12 => { let mut c = Array::new(); c.push(from_j(&v)); c.clone_from(&a); say(&what, c.iter().map(to_j).eq(ma.iter().cloned())); drop(std::mem::replace(&mut a, c)); }
            13 => { a.extend([from_j(&v), Value::Null]); ma.extend([v, J::Null]); }
            14 => { let m: Vec<J> = a.drain(..i).map(|x| to_j(&x)).collect(); say(&what, m.into_iter().eq(ma.drain(..i))); }
            15 => { let val = Value::Array(a); say(&what, to_j(&val) == J::Arr(ma.clone())); let c = val.clone(); drop(val); let Value::Array(x) = c else { unreachable!() }; a = x; }
            16 => { let t = json::to_string(&a); let mut w = String::new(); refp::print(&J::Arr(ma.clone()), &mut w); say(&what, refp::same_text(&t, &w).is_ok()); }
            17 => if i < ma.len() { say(&what, to_j(&a[i]) == ma[i]); a[i] = from_j(&v); ma[i] = v; },
            18 => { a = Array::from_iter(ma.iter().map(from_j)); }
            19 => { let mut inner = Array::new(); std::mem::swap(&mut inner, &mut a); a.push(Value::Array(inner)); ma = vec![J::Arr(std::mem::take(&mut ma))]; if json_depth(&ma) > 20 { a.clear(); ma.clear(); } }
            20 | 21 | 22 => { say(&what, o.insert(k.clone(), from_j(&v)).map(|x| to_j(&x)) == mo.insert(k, v)); }
            23 => say(&what, o.remove(&k).map(|x| to_j(&x)) == mo.remove(&k)),
            24 => say(&what, o.get(&k).map(to_j) == mo.get(&k).cloned() && o.contains_key(&k) == mo.contains_key(&k)),
            25 => { o = o.into_iter().collect(); }
            26 => { let mut it = o.into_iter(); let c = r.below(mo.len() + 1); let m: Vec<(String, J)> = (0..c).map_while(|_| it.next()).map(|(k, x)| (k, to_j(&x))).collect(); say(&what, m.into_iter().eq(mo.clone().into_iter().take(c))); drop(it); o = Object::new(); mo.clear(); }
            27 => { for (_, x) in &mut o { if let Value::Null = x { *x = Value::Bool(false) } } for x in mo.values_mut() { if *x == J::Null { *x = J::Bool(false) } } }
            28 => { let c = o.clone(); say(&what, c.iter().map(|(k, v)| (k.clone(), to_j(v))).eq(mo.clone())); o = c; }
            29 => { let mut c = Object::new(); c.insert(k, from_j(&v)); c.clone_from(&o); say(&what, c.iter().map(|(k, v)| (k.clone(), to_j(v))).eq(mo.clone())); o = c; }
            30 => { o.extend([(k.clone(), from_j(&v)), ("zz".into(), Value::Null)]); mo.insert(k, v); mo.insert("zz".into(), J::Null); }
            31 => { let val = Value::Object(o); say(&what, to_j(&val) == J::Obj(mo.clone().into_iter().collect())); let Value::Object(x) = val else { unreachable!() }; o = x; }
            32 => { let t = json::to_string(&o); let mut w = String::new(); refp::print(&J::Obj(mo.clone().into_iter().collect()), &mut w); say(&what, refp::same_text(&t, &w).is_ok()); }
            33 => { o = Object::from_iter(mo.iter().map(|(k, v)| (k.clone(), from_j(v)))); }
            34 => { let (a2, o2) = (std::mem::take(&mut a), std::mem::take(&mut o)); say(&what, a.is_empty() && o.is_empty()); a = a2; o = o2; }
            35 => { let t = json::to_string(&a); match json::from_str::<Array>(&t) { Ok(b) => { say(&what, close_j(&J::Arr(b.iter().map(to_j).collect()), &J::Arr(ma.clone()))) } Err(_) => say(&what, false) } }
            36 => { if let Some((k, _)) = mo.iter().next().map(|(k, v)| (k.clone(), v.clone())) { say(&what, to_j(&o[&k]) == mo[&k]); let mut ent = o.get_mut(&k); if let Some(e) = ent.as_mut() { **e = from_j(&v); } mo.insert(k, v); } }
            37 => { o.clear(); mo.clear(); }
            38 => { let m: Vec<J> = (&a).into_iter().map(to_j).collect(); say(&what, m == ma); let m: Vec<(String, J)> = (&o).into_iter().map(|(k, v)| (k.clone(), to_j(v))).collect(); say(&what, m.into_iter().eq(mo.clone())); }
            40 => { a.extend((0..many).map(|i| Value::Number(Number::U64(i as u64)))); ma.extend((0..many).map(|i| J::Pos(i as u64))); }
            41 => for i in 0..many { say(&what, o.insert(i.to_string(), Value::Null).map(|x| to_j(&x)) == mo.insert(i.to_string(), J::Null)); },
            42 => { a = (0..many).map(|i| if i % 2 == 0 { Value::Null } else { Value::String(i.to_string()) }).collect(); ma = (0..many).map(|i| if i % 2 == 0 { J::Null } else { J::Str(i.to_string()) }).collect(); }
            43 => { o = (0..many).map(|i| ((i % (many / 2)).to_string(), Value::Number(Number::U64(i as u64)))).collect(); mo = (0..many).map(|i| ((i % (many / 2)).to_string(), J::Pos(i as u64))).collect(); }
            44 => { o = Object::from_iter([(k.clone(), from_j(&v)), (k.clone(), Value::Null), ("b".into(), from_j(&v))]); mo = [(k.clone(), J::Null)].into_iter().collect(); mo.insert("b".into(), v); }
            45 => { let mut x = Array::new(); x.push(from_j(&v)); a.append(&mut x); ma.push(v); say(&what, x.is_empty()); a.retain(|y| !matches!(y, Value::Bool(_))); ma.retain(|y| !matches!(y, J::Bool(_))); }
            _ => { let d = format!("{:?} {:?}", a, o); say(&what, d.starts_with("Array [") && d.contains("Object {")); }
        }
        if op % 46 == 10 { for x in ma.iter_mut() { if *x == J::Null { *x = J::Bool(true) } } }
        say(&format!("array after {}", what), a.len() == ma.len() && a.iter().map(to_j).eq(ma.iter().cloned()));
        say(&format!("object after {}", what), o.len() == mo.len() && o.iter().map(|(k, v)| (k, to_j(v))).eq(mo.iter().map(|(k, v)| (k, v.clone()))));
    }
}
fn json_depth(v: &[J]) -> usize { v.iter().map(|x| match x { J::Arr(a) => 1 + json_depth(a), _ => 1 }).max().unwrap_or(0) }

// ---- depth -------------------------------------------------------------------------
#[derive(Deserialize, Serialize)] struct Link { n: Option<Box<Link>> }
#[derive(Deserialize, Serialize)] struct Skip { }
pub const DEEP_SHAPES: usize = 16;
pub const DEEP_OPS: usize = 10;
fn deep_text(shape: usize, n: usize, half: usize) -> String {
    let (open, close): (&str, &str) = match shape {
        0 => ("[", "]"), 1 => ("{\"a\":", "}"), 2 => ("[{\"k\":", "}]"), 3 => ("[1,", ",2]"), 4 => ("{\"a\":[],\"b\":", ",\"c\":{}}"), 5 => ("[[],[", "],0]"), 6 => ("{\"x\":[[", "]]}"), 8 => ("[1,", "]"), 9 => ("[", ",1]"), 10 => ("{\"a\":1,\"b\":", "}"), 11 => ("{\"a\":", ",\"b\":null}"), 12 => ("[[],1,2,", "]"), 13 => ("[", ",[],{},\"s\"]"), 14 => ("[{\"a\":", "},1]"), 15 => ("{\"a\":[0,", "],\"b\":[]}"), _ => ("[\"s\",{\"\":", "}, null]"),
    };
    let mut s = String::new();
    for _ in 0..n { s.push_str(open) }
    s.push('7');
    for _ in 0..half { s.push_str(close) }
    s
}
fn deep_case(p: &[u8], bad: &mut Bad) {
    let (shape, op, n) = (p[0] as usize % DEEP_SHAPES, p[1] as usize % DEEP_OPS, u32::from_le_bytes([p[2], p[3], p[4], 0]) as usize);
    let msg = std::thread::Builder::new().stack_size(192 << 10).spawn(move || -> Option<String> {
        let err = |ok: bool, m: &str| if ok { None } else { Some(m.to_string()) };
        let full = || deep_text(shape, n, n);
        match op {
            0 => { let v = json::from_str::<Value>(&full()); err(v.is_ok(), "deep document rejected") }
            1 => { let t = full(); let v = json::from_str::<Value>(&t).ok()?; let s = json::to_string(&v); let want: String = t.chars().filter(|c| *c != ' ').collect(); err(s == want, "deep document printed differently") }
            2 => err(json::from_str::<Ig>(&full()).is_ok(), "deep document rejected when ignored"),
            3 => err(json::from_str::<Value>(&deep_text(shape, n, n / 2)).is_err(), "unclosed document accepted"),
            4 => { let mut t = deep_text(shape, n, n - 1); t.push('!'); err(json::from_str::<Value>(&t).is_err(), "bad document accepted") }
            5 => { let t = format!("{{\"unknown\":{}}}", full()); err(json::from_str::<Skip>(&t).is_ok(), "unknown deep member rejected") }
            6 => {
                let mut t = String::new(); for _ in 0..n { t.push_str("{\"c\":[") } for _ in 0..n { t.push_str("]}") }
                match json::from_str::<Tree>(&t) { Ok(v) => { let s = json::to_string(&v); let mut v = vec![v]; while let Some(mut x) = v.pop() { v.append(&mut x.c) } err(s == t, "deep typed document printed differently") } Err(_) => Some("deep typed document rejected".into()) }
            }
            7 => {
                let mut t = String::new(); for _ in 0..n { t.push_str("{\"n\":") } t.push_str("null"); for _ in 0..n { t.push('}') }
                match json::from_str::<Link>(&t) { Ok(mut v) => { let s = json::to_string(&v); while let Some(x) = v.n.take() { v = *x } err(s == t, "deep boxed document printed differently") } Err(_) => Some("deep boxed document rejected".into()) }
            }
            8 => { let mut t = String::new(); for _ in 0..n { t.push_str(if shape % 2 == 0 { "{\"n\":" } else { "{\"x\":[{}],\"n\":" }) } err(json::from_str::<Link>(&t).is_err(), "unclosed typed document accepted") }
            _ => {
                // built through the API, dropped, printed, partly consumed
                let mut v = Value::Null;
                for i in 0..n {
                    let (arr, ext) = match shape { 0 | 1 => ((i + shape) % 2 == 0, 1), 2..=6 => (true, shape - 2), 7..=10 => (false, shape - 7), _ => (i * shape % 5 < 3, i % 3) };
                    if arr {
                        let mut a = Array::new();
                        for _ in 0..(ext + shape % 2) / 2 { a.push(Value::Bool(true)) }
                        a.push(v);
                        while a.len() <= ext { a.push(Value::Null) }
                        v = Value::Array(a)
                    } else {
                        let mut o = Object::new();
                        o.insert("k".into(), v);
                        for e in 0..ext { o.insert(["z", "a", "q"][e].into(), Value::Null); }
                        v = Value::Object(o)
                    }
                }
                let t = json::to_string(&v);
                let nm = match v { Value::Array(a) => { let mut it = a.into_iter(); let x = if shape % 3 == 0 { it.next() } else { it.next_back() }; drop(it); drop(x); 1 } Value::Object(mut o) => { if shape % 2 == 0 { o.retain(|k, _| k != "k") } else { o.remove("k"); } 1 } _ => 0 };
                err(nm == 1 && t.len() > n, "deep value misbehaved")
            }
        }
    }).unwrap().join();
    match msg { Ok(None) => {} Ok(Some(m)) => bad.push((vec!["C06", "C01", "C10", "C07"], m)), Err(_) => bad.push((vec!["C06", "C05"], "panic".into())) }
}

pub fn describe(kind: u8, p: &[u8]) -> String {
    match kind {
        INJECT => format!("receiver fails at call {} of {:?}", p[0], cut(&String::from_utf8_lossy(&p[1..]))),
        LATE => format!("receiver fails at call {} of {:?}", u32::from_le_bytes([p[0], p[1], p[2], p[3]]), cut(&String::from_utf8_lossy(&p[4..]))),
        TYPED => TABLE.with(|t| format!("parse {:?} as {}", cut(&String::from_utf8_lossy(&p[1..])), t[p[0] as usize % t.len()].name)),
        DROPS => DTABLE.with(|t| format!("parse {:?} as {}", cut(&String::from_utf8_lossy(&p[1..])), t[p[0] as usize % t.len()].name)),
        ROUND => TABLE.with(|t| format!("round trip of a {} (seed {:?})", t[p[0] as usize % t.len()].name, &p[1..])),
        SER => { let (j, _) = ser_tree(p); format!("serialize tree {}", cut(&format!("{:?}", j))) }
        NUM => format!("number type {} bits {:?}", p[0], &p[1..]),
        DEEP => format!("nesting: shape {} operation {} depth {}", p[0], p[1], u32::from_le_bytes([p[2], p[3], p[4], 0])),
        CONT => format!("container operations {:?}", p),
        SHAPES => format!("borrowed shapes seed {:?}", p),
        _ => format!("{} {:?}", name(kind), cut(&String::from_utf8_lossy(p))),
    }
}
fn seed(p: &[u8]) -> u64 { p.iter().fold(0, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64 + 1)) }
/// a small payload (up to 12 bytes, first 0) encodes a tree in prefix form; otherwise a seed
pub fn ser_tree(p: &[u8]) -> (J, usize) {
    if p.first() == Some(&2) && p.len() == 5 {
        let n = u32::from_le_bytes([p[2], p[3], p[4], 0]) as usize;
        let chain = |f: &dyn Fn(J, usize) -> J| { let mut j = J::Pos(7); for i in 0..n { j = f(j, i) } j };
        let wide = |f: &dyn Fn(usize) -> J| J::Arr((0..n).map(f).collect());
        let obj = |f: &dyn Fn(usize) -> J| J::Obj((0..n).map(|i| (i.to_string(), f(i))).collect());
        let j = match p[1] {
            0 => chain(&|j, _| J::Arr(vec![j])),
            1 => chain(&|j, _| J::Obj(vec![("k".into(), j)])),
            2 => chain(&|j, i| if i % 2 == 0 { J::Arr(vec![j]) } else { J::Obj(vec![("".into(), j)]) }),
            3 => chain(&|j, _| J::Arr(vec![J::Null, j, J::Arr(vec![])])),
            4 => chain(&|j, _| J::Obj(vec![("a".into(), J::Obj(vec![])), ("b".into(), j), ("c\n".into(), J::Str("s".into()))])),
            5 => chain(&|j, i| if i % 3 == 0 { J::Arr(vec![j, J::Bool(true)]) } else { J::Obj(vec![("".into(), j), ("x".into(), J::Null)]) }),
            6 => J::Arr(vec![chain(&|j, _| J::Arr(vec![j])), J::Str("t".into())]),
            7 => J::Obj(vec![("p".into(), chain(&|j, _| J::Obj(vec![("q".into(), j)]))), ("r".into(), J::Null)]),
            8 => wide(&|_| J::Null),
            9 => wide(&|i| J::Pos(i as u64)),
            10 => wide(&|_| J::Arr(vec![])),
            11 => wide(&|_| J::Obj(vec![("a".into(), J::Null)])),
            12 => obj(&|_| J::Null),
            13 => obj(&|i| J::Str(i.to_string())),
            14 => obj(&|_| J::Obj(vec![])),
            _ => J::Obj(vec![("w".into(), wide(&|_| J::Str("\"".into()))), ("v".into(), obj(&|_| J::Arr(vec![J::Null])))]),
        };
        (j, p.len())
    } else if p.first() == Some(&0) {
        fn go(p: &[u8], i: &mut usize) -> J {
            let c = p.get(*i).copied().unwrap_or(0);
            *i += 1;
            match c { 0 => J::Pos(1), 1 => J::Str("x\"\n".into()), 2 => J::Null, 3 => J::Arr(vec![]), 4 => J::Obj(vec![]),
                5 => J::Arr(vec![go(p, i)]), 6 => J::Arr(vec![go(p, i), go(p, i)]), 7 => J::Obj(vec![("k".into(), go(p, i))]), 8 => J::Obj(vec![("a\\".into(), go(p, i)), ("".into(), go(p, i))]),
                9 => J::Arr(vec![go(p, i), go(p, i), go(p, i)]), 10 => J::Bool(true), 11 => J::Float(f64::NAN), 12 => J::Neg(-3), _ => J::Float(0.5) }
        }
        let mut i = 1;
        (go(p, &mut i), i)
    } else { let mut r = Rng(seed(p)); let d = r.below(6); (gen::j(&mut r, d), 0) }
}
pub fn run(kind: u8, p: &[u8]) -> Bad {
    let before = crate::alloc::live();
    let mut bad = Bad::new();
    let s = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap_or_default();
    match kind {
        PARSE => { let t = s(p); parse_case(&t, i64::MAX, &mut bad); value_case(&t, &mut bad); }
        INJECT => { let t = s(&p[1..]); parse_case(&t, p[0] as i64, &mut bad); }
        LATE => { let t = s(&p[4..]); parse_case(&t, u32::from_le_bytes([p[0], p[1], p[2], p[3]]) as i64, &mut bad); }
        TYPED => { let t = s(&p[1..]); TABLE.with(|tb| { let e = &tb[p[0] as usize % tb.len()]; if let Err(m) = (e.typed)(&t) { bad.push((e.props.clone(), format!("{}: {}", e.name, m))) } }) }
        ROUND => { let mut r = Rng(seed(&p[1..])); bad = TABLE.with(|tb| (tb[p[0] as usize % tb.len()].round)(&mut r)); }
        SER => { let (j, _) = ser_tree(p); ser_case(&j, &mut bad); }
        STR => { let t = s(p); str_case(&t, &mut bad); }
        NUM => { let mut b = [0; 8]; b.copy_from_slice(&p[1..9]); num_case(p[0], u64::from_le_bytes(b), &mut bad); }
        DROPS => { let t = s(&p[1..]); drops_case(p[0] as usize, &t, &mut bad); }
        CONT => cont_case(p, &mut bad),
        DEEP => deep_case(p, &mut bad),
        REPARSE => { let t = s(p); reparse_case(&t, &mut bad); }
        SHAPES => { let mut r = Rng(seed(p)); shapes_case(&mut r, &mut bad); }
        _ => {}
    }
    if bad.is_empty() && kind != DEEP && !BOOMED.with(|b| b.replace(false)) {
        let leaked = crate::alloc::live() - before;
        // (a first use may set up thread-local state: measure again before reporting)
        if leaked != 0 {
            let b2 = crate::alloc::live();
            let again = run_quiet(kind, p);
            if again && crate::alloc::live() - b2 != 0 { bad.push((vec!["C17", "C18"], format!("{} allocation(s) not released", crate::alloc::live() - b2))) }
        }
    }
    bad
}
fn run_quiet(kind: u8, p: &[u8]) -> bool {
    thread_local! { static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    if IN.with(|c| c.replace(true)) { return false }
    let r = run(kind, p);
    IN.with(|c| c.set(false));
    r.is_empty()
}

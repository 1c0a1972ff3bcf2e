//! Recording receivers (Visitor/Seq/Map) and recording producers (Serialize).
use crate::refp::{Ev, J};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::ser::{self, Fragment, Serialize};
use miniserde::{Error, Result};
use std::borrow::Cow;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Entry { Call(i64, Ev), Drop(i64) }

#[derive(Default)]
pub struct Log { pub entries: Vec<Entry>, pub ncalls: i64, pub fail_at: i64, pub live: Vec<i64>, pub bad: Option<String> }
thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }

const MAGIC: u64 = 0x5eed_5eed_0bad_cafe;

fn call(magic: u64, id: i64, ev: Ev) -> Result<i64> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if magic != MAGIC { crate::work::fatal("call on a receiver that is no longer alive"); }
        let k = l.ncalls;
        l.entries.push(Entry::Call(id, ev));
        l.ncalls += 1;
        if k == l.fail_at { Err(Error) } else { Ok(k) }
    })
}

pub struct RV { magic: u64, id: i64 }
impl RV { fn new(id: i64) -> Self { RV { magic: MAGIC, id } } }
struct RS { magic: u64, id: i64, child: RV }
impl RS { fn new(id: i64) -> Self { LOG.with(|l| l.borrow_mut().live.push(id)); RS { magic: MAGIC, id, child: RV::new(-9) } } }
impl Drop for RS {
    fn drop(&mut self) {
        if self.magic != MAGIC { crate::work::fatal("receiver released twice"); }
        self.magic = 0;
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.entries.push(Entry::Drop(self.id));
            match l.live.pop() {
                Some(x) if x == self.id => {}
                x => { l.bad = Some(format!("container {} released while {:?} is the innermost live one", self.id, x)); }
            }
        });
    }
}
impl Visitor for RV {
    fn null(&mut self) -> Result<()> { call(self.magic, self.id, Ev::Null).map(drop) }
    fn boolean(&mut self, b: bool) -> Result<()> { call(self.magic, self.id, Ev::Bool(b)).map(drop) }
    fn string(&mut self, s: &str) -> Result<()> { chk(s); call(self.magic, self.id, Ev::Str(s.to_owned())).map(drop) }
    fn negative(&mut self, n: i64) -> Result<()> { call(self.magic, self.id, Ev::Neg(n)).map(drop) }
    fn nonnegative(&mut self, n: u64) -> Result<()> { call(self.magic, self.id, Ev::Pos(n)).map(drop) }
    fn float(&mut self, n: f64) -> Result<()> { call(self.magic, self.id, Ev::Float(n.to_bits())).map(drop) }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> { call(self.magic, self.id, Ev::Seq).map(|k| Box::new(RS::new(k)) as Box<dyn Seq>) }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> { call(self.magic, self.id, Ev::Map).map(|k| Box::new(RS::new(k)) as Box<dyn Map>) }
}
fn chk(s: &str) {
    if std::str::from_utf8(s.as_bytes()).is_err() { crate::work::fatal("string handed over is not valid UTF-8"); }
}
impl Seq for RS {
    fn element(&mut self) -> Result<&mut dyn Visitor> { let k = call(self.magic, self.id, Ev::Elem)?; self.child = RV::new(k); Ok(&mut self.child) }
    fn finish(&mut self) -> Result<()> { call(self.magic, self.id, Ev::End).map(drop) }
}
impl Map for RS {
    fn key(&mut self, s: &str) -> Result<&mut dyn Visitor> { chk(s); let k = call(self.magic, self.id, Ev::Key(s.to_owned()))?; self.child = RV::new(k); Ok(&mut self.child) }
    fn finish(&mut self) -> Result<()> { call(self.magic, self.id, Ev::End).map(drop) }
}

/// accepts everything, records every call
pub struct Rec { vis: RV }
impl Deserialize for Rec {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { *out = Some(Rec { vis: RV::new(-1) }); &mut out.as_mut().unwrap().vis }
}
/// accepts everything, fills nothing: parsing into it must be an error
pub struct NoFill;
impl Deserialize for NoFill { fn begin(_: &mut Option<Self>) -> &mut dyn Visitor { <dyn Visitor>::ignore() } }
/// accepts and ignores everything
pub struct Ig;
impl Deserialize for Ig { fn begin(out: &mut Option<Self>) -> &mut dyn Visitor { *out = Some(Ig); <dyn Visitor>::ignore() } }

pub fn start(fail_at: i64) { LOG.with(|l| *l.borrow_mut() = Log { fail_at, ..Log::default() }) }
pub fn finish() -> Log { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

/// the receivers the events of a document must go to
pub fn with_ids(evs: &[Ev]) -> Vec<(i64, Ev)> {
    let mut st: Vec<i64> = Vec::new();
    let mut cur = -1;
    let mut out = Vec::with_capacity(evs.len());
    for (i, e) in evs.iter().enumerate() {
        let i = i as i64;
        match e {
            Ev::Seq | Ev::Map => { out.push((cur, e.clone())); st.push(i); }
            Ev::Elem | Ev::Key(_) => { out.push((*st.last().unwrap(), e.clone())); cur = i; }
            Ev::End => out.push((st.pop().unwrap(), e.clone())),
            _ => out.push((cur, e.clone())),
        }
    }
    out
}

// ---- producers -------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum S { Begin(u64), Next(u64), Drop(u64) }
thread_local! { pub static SLOG: RefCell<Vec<S>> = const { RefCell::new(Vec::new()) }; }
thread_local! { pub static SFUSE: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
/// a pull: the producer may give up here
fn slog(s: S) {
    SLOG.with(|l| l.borrow_mut().push(s));
    SFUSE.with(|f| { let n = f.get(); if n != usize::MAX { f.set(n.wrapping_sub(1)); if n == 0 { panic!("a producer that gives up") } } })
}

/// how strings/keys are handed over: owned or borrowed (by node id parity)
pub struct Node { magic: u64, id: u64, j: J, nid: std::rc::Rc<std::cell::Cell<u64>> }
impl Node { pub fn new(j: J, nid: std::rc::Rc<std::cell::Cell<u64>>) -> Node { let id = nid.get(); nid.set(id + 1); Node { magic: MAGIC, id, j, nid } } }
impl Drop for Node { fn drop(&mut self) { if self.magic != MAGIC { crate::work::fatal("producer released twice") } self.magic = 1; } }
struct It { magic: u64, id: u64, items: Vec<(String, J)>, pos: usize, cur: Option<(String, Node)>, nid: std::rc::Rc<std::cell::Cell<u64>> }
impl Drop for It { fn drop(&mut self) { if self.magic != MAGIC { crate::work::fatal("iterator released twice") } self.magic = 1; SLOG.with(|l| l.borrow_mut().push(S::Drop(self.id))); } }
impl It {
    fn step(&mut self) -> Option<(&str, &Node)> {
        if self.magic != MAGIC { crate::work::fatal("iterator used after release") }
        slog(S::Next(self.id));
        let p = self.pos;
        self.pos += 1;
        self.cur = None;
        let (k, j) = self.items.get(p)?.clone();
        self.cur = Some((k, Node::new(j, self.nid.clone())));
        self.cur.as_ref().map(|(k, n)| (k.as_str(), n))
    }
}
impl ser::Seq for It { fn next(&mut self) -> Option<&dyn Serialize> { self.step().map(|(_, n)| n as &dyn Serialize) } }
impl ser::Map for It {
    fn next(&mut self) -> Option<(Cow<str>, &dyn Serialize)> {
        let own = self.id % 2 == 0;
        self.step().map(|(k, n)| (if own { Cow::Owned(k.to_owned()) } else { Cow::Borrowed(k) }, n as &dyn Serialize))
    }
}
impl Serialize for Node {
    fn begin(&self) -> Fragment {
        if self.magic != MAGIC { crate::work::fatal("value used after its container was released") }
        slog(S::Begin(self.id));
        match &self.j {
            J::Null => Fragment::Null,
            J::Bool(b) => Fragment::Bool(*b),
            J::Str(s) => Fragment::Str(if self.id % 2 == 0 { Cow::Borrowed(s) } else { Cow::Owned(s.clone()) }),
            J::Neg(n) => Fragment::I64(*n),
            J::Pos(n) => Fragment::U64(*n),
            J::Float(n) => Fragment::F64(*n),
            J::Arr(a) => Fragment::Seq(Box::new(It { magic: MAGIC, id: self.id, items: a.iter().map(|x| (String::new(), x.clone())).collect(), pos: 0, cur: None, nid: self.nid.clone() })),
            J::Obj(a) => Fragment::Map(Box::new(It { magic: MAGIC, id: self.id, items: a.clone(), pos: 0, cur: None, nid: self.nid.clone() })),
        }
    }
}

/// the pulls a tree must see, in order (without releases)
pub fn pulls(j: &J, id: &mut u64, out: &mut Vec<S>) {
    let me = *id;
    *id += 1;
    out.push(S::Begin(me));
    let mut go = |x: Option<&J>| { out.push(S::Next(me)); if let Some(x) = x { pulls(x, id, out) } };
    match j {
        J::Arr(a) => { for x in a { go(Some(x)) } go(None) }
        J::Obj(a) => { for (_, x) in a { go(Some(x)) } go(None) }
        _ => {}
    }
}

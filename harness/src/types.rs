//! Target types with their expected meaning.
use crate::gen;
use crate::refp::{same_f, J};
use crate::rng::Rng;
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::str::FromStr;

pub trait Ty: Sized + Serialize + Deserialize + Debug {
    /// the value a document means for this type; None: an error
    fn expect(j: &J) -> Option<Self>;
    fn absent() -> Option<Self> { None }
    fn gen(r: &mut Rng, d: usize) -> Self;
    /// JSON of the right kind
    fn right(r: &mut Rng, d: usize) -> J { Self::gen(r, d).frag() }
    fn frag(&self) -> J;
    fn same(&self, o: &Self) -> bool;
    /// equal up to the last bits of floats
    fn close(&self, o: &Self) -> bool { self.same(o) }
    /// serializes to null: Option of it loses the difference
    fn nullable() -> bool { false }
    fn props() -> Vec<&'static str>;
}
pub fn gen_j<T: Ty>(r: &mut Rng, d: usize) -> J { if r.chance(1, 8) { gen::j(r, d) } else { T::right(r, d) } }

fn close_f(a: f64, b: f64) -> bool {
    if same_f(a, b) { return true }
    if a.is_sign_negative() != b.is_sign_negative() { return false }
    let (x, y) = (a.abs().to_bits() as i64, b.abs().to_bits() as i64);
    (x - y).abs() <= 8
}

impl Ty for () {
    fn expect(j: &J) -> Option<Self> { matches!(j, J::Null).then_some(()) }
    fn gen(_: &mut Rng, _: usize) {}
    fn frag(&self) -> J { J::Null }
    fn same(&self, _: &Self) -> bool { true }
    fn nullable() -> bool { true }
    fn props() -> Vec<&'static str> { vec!["C12", "C11"] }
}
impl Ty for bool {
    fn expect(j: &J) -> Option<Self> { if let J::Bool(b) = j { Some(*b) } else { None } }
    fn gen(r: &mut Rng, _: usize) -> bool { r.chance(1, 2) }
    fn frag(&self) -> J { J::Bool(*self) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn props() -> Vec<&'static str> { vec!["C12", "C11"] }
}
impl Ty for String {
    fn expect(j: &J) -> Option<Self> { if let J::Str(b) = j { Some(b.clone()) } else { None } }
    fn gen(r: &mut Rng, _: usize) -> String { gen::string(r) }
    fn frag(&self) -> J { J::Str(self.clone()) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn props() -> Vec<&'static str> { vec!["C12", "C11", "C02"] }
}
macro_rules! ints { ($($t:ident $signed:expr),*) => { $(
    impl Ty for $t {
        fn expect(j: &J) -> Option<Self> {
            match j {
                J::Pos(n) => $t::try_from(*n).ok(),
                J::Neg(n) if $signed => $t::try_from(*n).ok(),
                _ => None,
            }
        }
        fn gen(r: &mut Rng, _: usize) -> $t { match r.below(6) { 0 => $t::MIN, 1 => $t::MAX, 2 => gen::int(r) as $t, _ => (r.next() >> r.below(64)) as $t } }
        fn right(r: &mut Rng, d: usize) -> J { if r.chance(1, 3) { gen::int_j(r) } else { Self::gen(r, d).frag() } }
        fn frag(&self) -> J { let v = *self as i128; if v < 0 { J::Neg(v as i64) } else { J::Pos(v as u64) } }
        fn same(&self, o: &Self) -> bool { self == o }
        fn props() -> Vec<&'static str> { vec!["C03", "C12", "C11", "C09"] }
    }
)* } }
ints!(i8 true, i16 true, i32 true, i64 true, isize true, u8 false, u16 false, u32 false, u64 false, usize false);
impl Ty for f64 {
    fn expect(j: &J) -> Option<Self> { match j { J::Pos(n) => Some(*n as f64), J::Neg(n) => Some(*n as f64), J::Float(f) => Some(*f), _ => None } }
    fn gen(r: &mut Rng, _: usize) -> f64 { gen::float(r) }
    fn right(r: &mut Rng, _: usize) -> J { if r.chance(1, 3) { gen::int_j(r) } else { J::Float(gen::float(r)) } }
    fn frag(&self) -> J { J::Float(*self) }
    fn same(&self, o: &Self) -> bool { same_f(*self, *o) }
    fn close(&self, o: &Self) -> bool { close_f(*self, *o) }
    fn props() -> Vec<&'static str> { vec!["C04", "C12", "C11", "C09"] }
}
impl Ty for f32 {
    fn expect(j: &J) -> Option<Self> { match j { J::Pos(n) => Some(*n as f32), J::Neg(n) => Some(*n as f32), J::Float(f) => Some(*f as f32), _ => None } }
    fn gen(r: &mut Rng, _: usize) -> f32 { let f = gen::float(r) as f32; if f.is_finite() { f } else { 1.5 } }
    fn right(r: &mut Rng, _: usize) -> J { if r.chance(1, 3) { gen::int_j(r) } else { J::Float(gen::float(r)) } }
    fn frag(&self) -> J { J::Float(*self as f64) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
    fn close(&self, o: &Self) -> bool { self.same(o) || (self.is_sign_negative() == o.is_sign_negative() && (self.abs().to_bits() as i64 - o.abs().to_bits() as i64).abs() <= 1) }
    fn props() -> Vec<&'static str> { vec!["C04", "C12", "C11", "C09"] }
}
impl<T: Ty> Ty for Box<T> {
    fn expect(j: &J) -> Option<Self> { T::expect(j).map(Box::new) }
    fn gen(r: &mut Rng, d: usize) -> Self { Box::new(T::gen(r, d)) }
    fn right(r: &mut Rng, d: usize) -> J { gen_j::<T>(r, d) }
    fn frag(&self) -> J { (**self).frag() }
    fn same(&self, o: &Self) -> bool { (**self).same(o) }
    fn close(&self, o: &Self) -> bool { (**self).close(o) }
    fn nullable() -> bool { T::nullable() }
    fn props() -> Vec<&'static str> { let mut p = T::props(); p.push("C17"); p }
}
impl<T: Ty> Ty for Option<T> {
    fn expect(j: &J) -> Option<Self> { if let J::Null = j { Some(None) } else { T::expect(j).map(Some) } }
    fn absent() -> Option<Self> { Some(None) }
    fn gen(r: &mut Rng, d: usize) -> Self { if r.chance(1, 3) || T::nullable() { None } else { Some(T::gen(r, d)) } }
    fn right(r: &mut Rng, d: usize) -> J { if r.chance(1, 3) { J::Null } else { gen_j::<T>(r, d) } }
    fn frag(&self) -> J { match self { None => J::Null, Some(x) => x.frag() } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    fn close(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.close(b), _ => false } }
    fn nullable() -> bool { true }
    fn props() -> Vec<&'static str> { T::props() }
}
impl<A: Ty, B: Ty> Ty for (A, B) {
    fn expect(j: &J) -> Option<Self> { match j { J::Arr(a) if a.len() == 2 => Some((A::expect(&a[0])?, B::expect(&a[1])?)), _ => None } }
    fn gen(r: &mut Rng, d: usize) -> Self { let d = d.saturating_sub(1); (A::gen(r, d), B::gen(r, d)) }
    fn right(r: &mut Rng, d: usize) -> J {
        let d = d.saturating_sub(1);
        let mut v = vec![gen_j::<A>(r, d), gen_j::<B>(r, d)];
        wrong_len(r, &mut v, |r| if r.chance(1, 2) { gen_j::<A>(r, d) } else { gen_j::<B>(r, d) });
        J::Arr(v)
    }
    fn frag(&self) -> J { J::Arr(vec![self.0.frag(), self.1.frag()]) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) }
    fn close(&self, o: &Self) -> bool { self.0.close(&o.0) && self.1.close(&o.1) }
    fn props() -> Vec<&'static str> { let mut p = A::props(); p.extend(B::props()); p.push("C13"); p }
}
fn wrong_len(r: &mut Rng, v: &mut Vec<J>, mut f: impl FnMut(&mut Rng) -> J) {
    if r.chance(1, 3) {
        if r.chance(1, 2) { v.pop(); if r.chance(1, 3) { v.pop(); } } else { for _ in 0..1 + r.below(3) { let x = f(r); v.push(x) } }
    }
}
impl<T: Ty> Ty for Vec<T> {
    fn expect(j: &J) -> Option<Self> { if let J::Arr(a) = j { a.iter().map(T::expect).collect() } else { None } }
    fn gen(r: &mut Rng, d: usize) -> Self { let n = if d == 0 { r.below(2) } else { gen::len(r) }; (0..n).map(|_| T::gen(r, d.saturating_sub(1))).collect() }
    fn right(r: &mut Rng, d: usize) -> J { let n = if d == 0 { r.below(2) } else { gen::len(r) }; J::Arr((0..n).map(|_| if r.chance(3, 4) { T::right(r, d.saturating_sub(1)) } else { gen_j::<T>(r, d.saturating_sub(1)) }).collect()) }
    fn frag(&self) -> J { J::Arr(self.iter().map(Ty::frag).collect()) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn close(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.close(b)) }
    fn props() -> Vec<&'static str> { T::props() }
}
impl<T: Ty, const N: usize> Ty for [T; N] {
    fn expect(j: &J) -> Option<Self> { if let J::Arr(a) = j { let v: Option<Vec<T>> = a.iter().map(T::expect).collect(); v?.try_into().ok() } else { None } }
    fn gen(r: &mut Rng, d: usize) -> Self { let d = d.saturating_sub(1); std::array::from_fn(|_| T::gen(r, d)) }
    fn right(r: &mut Rng, d: usize) -> J {
        let d = d.saturating_sub(1);
        let mut v: Vec<J> = (0..N).map(|_| if r.chance(9, 10) { T::right(r, d) } else { gen_j::<T>(r, d) }).collect();
        wrong_len(r, &mut v, |r| gen_j::<T>(r, d));
        J::Arr(v)
    }
    fn frag(&self) -> J { J::Arr(self.iter().map(Ty::frag).collect()) }
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn close(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.close(b)) }
    fn props() -> Vec<&'static str> { let mut p = T::props(); p.extend(["C13", "C17"]); p }
}
pub trait K: FromStr + ToString + Ord + Hash + Clone + Debug { fn genk(r: &mut Rng) -> Self; fn text(r: &mut Rng) -> String { Self::genk(r).to_string() } }
impl K for String { fn genk(r: &mut Rng) -> String { gen::key(r) } }
impl K for u8 { fn genk(r: &mut Rng) -> u8 { r.below(5) as u8 * 60 } fn text(r: &mut Rng) -> String { match r.below(5) { 0 => (*r.pick(&["", " 1", "1 ", "+1", "-1", "256", "255", "007", "1.0", "x", "1e1"])).into(), _ => Self::genk(r).to_string() } } }
impl K for i64 { fn genk(r: &mut Rng) -> i64 { if r.chance(1, 3) { gen::int(r) as i64 } else { r.below(4) as i64 - 2 } } fn text(r: &mut Rng) -> String { match r.below(6) { 0 => (*r.pick(&["", "-", "-0", "+0", "9223372036854775808", "-9223372036854775808", "0x1"])).into(), _ => Self::genk(r).to_string() } } }
impl K for char { fn genk(r: &mut Rng) -> char { *r.pick(gen::CHARS) } fn text(r: &mut Rng) -> String { if r.chance(1, 6) { gen::string(r) } else { Self::genk(r).to_string() } } }
impl K for bool { fn genk(r: &mut Rng) -> bool { r.chance(1, 2) } fn text(r: &mut Rng) -> String { if r.chance(1, 6) { "True".into() } else { Self::genk(r).to_string() } } }
fn map_right<Kt: K, V: Ty>(r: &mut Rng, d: usize) -> J { let n = gen::len(r); J::Obj((0..n).map(|_| (if r.chance(7, 8) { Kt::genk(r).to_string() } else { Kt::text(r) }, if r.chance(3, 4) { V::right(r, d.saturating_sub(1)) } else { gen_j::<V>(r, d.saturating_sub(1)) })).collect()) }
impl<Kt: K, V: Ty> Ty for BTreeMap<Kt, V> {
    fn expect(j: &J) -> Option<Self> { let J::Obj(o) = j else { return None }; let mut m = BTreeMap::new(); for (k, v) in o { m.insert(Kt::from_str(k).ok()?, V::expect(v)?); } Some(m) }
    fn gen(r: &mut Rng, d: usize) -> Self { (0..gen::len(r)).map(|_| (Kt::genk(r), V::gen(r, d.saturating_sub(1)))).collect() }
    fn right(r: &mut Rng, d: usize) -> J { map_right::<Kt, V>(r, d) }
    fn frag(&self) -> J { J::Obj(self.iter().map(|(k, v)| (k.to_string(), v.frag())).collect()) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|((k, a), (l, b))| k == l && a.same(b)) }
    fn close(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|((k, a), (l, b))| k == l && a.close(b)) }
    fn props() -> Vec<&'static str> { let mut p = V::props(); p.push("C15"); p }
}
type Hs = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
pub type HMap<A, B> = HashMap<A, B, Hs>;
impl<Kt: K, V: Ty> Ty for HashMap<Kt, V, Hs> {
    fn expect(j: &J) -> Option<Self> { let J::Obj(o) = j else { return None }; let mut m: HashMap<Kt, V, Hs> = Default::default(); for (k, v) in o { m.insert(Kt::from_str(k).ok()?, V::expect(v)?); } Some(m) }
    fn gen(r: &mut Rng, d: usize) -> Self { (0..gen::len(r)).map(|_| (Kt::genk(r), V::gen(r, d.saturating_sub(1)))).collect() }
    fn right(r: &mut Rng, d: usize) -> J { map_right::<Kt, V>(r, d) }
    // order of iteration of this very map: what must be printed
    fn frag(&self) -> J { J::Obj(self.iter().map(|(k, v)| (k.to_string(), v.frag())).collect()) }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, a)| o.get(k).is_some_and(|b| a.same(b))) }
    fn close(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, a)| o.get(k).is_some_and(|b| a.close(b))) }
    fn props() -> Vec<&'static str> { let mut p = V::props(); p.push("C15"); p }
}

// ---- dynamic values ---------------------------------------------------------
pub fn to_j(v: &Value) -> J {
    match v {
        Value::Null => J::Null,
        Value::Bool(b) => J::Bool(*b),
        Value::Number(n) => num_j(n),
        Value::String(s) => J::Str(s.clone()),
        Value::Array(a) => J::Arr(a.iter().map(to_j).collect()),
        Value::Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), to_j(v))).collect()),
    }
}
pub fn num_j(n: &Number) -> J { match n { Number::U64(n) => J::Pos(*n), Number::I64(n) => J::Neg(*n), Number::F64(n) => J::Float(*n) } }
/// the tree a dynamic value holds: members sorted, last of duplicates
pub fn norm(j: &J) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(norm).collect()),
        J::Obj(o) => { let m: BTreeMap<&String, J> = o.iter().map(|(k, v)| (k, norm(v))).collect(); J::Obj(m.into_iter().map(|(k, v)| (k.clone(), v)).collect()) }
        _ => j.clone(),
    }
}
pub fn from_j(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Pos(n) => Value::Number(Number::U64(*n)),
        J::Neg(n) => Value::Number(Number::I64(*n)),
        J::Float(n) => Value::Number(Number::F64(*n)),
        J::Str(s) => Value::String(s.clone()),
        J::Arr(a) => { let mut r = Array::new(); for x in a { r.push(from_j(x)) } Value::Array(r) }
        J::Obj(o) => { let mut r = Object::new(); for (k, v) in o { r.insert(k.clone(), from_j(v)); } Value::Object(r) }
    }
}
pub fn close_j(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Float(a), J::Float(b)) => close_f(*a, *b),
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close_j(a, b)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && close_j(&a.1, &b.1)),
        // Number::I64 of a nonnegative value comes back as U64; an integral float may come back as an integer
        (J::Neg(a), J::Pos(b)) | (J::Pos(b), J::Neg(a)) => *a >= 0 && *a as u64 == *b,
        (J::Float(a), J::Pos(b)) => *a == *b as f64,
        (J::Float(a), J::Neg(b)) => *a == *b as f64,
        _ => a == b,
    }
}
impl Ty for Value {
    fn expect(j: &J) -> Option<Self> { Some(from_j(&norm(j))) }
    fn gen(r: &mut Rng, d: usize) -> Self { from_j(&gen::j(r, d)) }
    fn right(r: &mut Rng, d: usize) -> J { gen::j(r, d) }
    fn frag(&self) -> J { to_j(self) }
    fn same(&self, o: &Self) -> bool { to_j(self) == to_j(o) }
    fn close(&self, o: &Self) -> bool { close_j(&to_j(self), &to_j(o)) }
    fn nullable() -> bool { true }
    fn props() -> Vec<&'static str> { vec!["C10", "C01", "C18"] }
}
impl Ty for Number {
    fn expect(j: &J) -> Option<Self> { match j { J::Pos(n) => Some(Number::U64(*n)), J::Neg(n) => Some(Number::I64(*n)), J::Float(n) => Some(Number::F64(*n)), _ => None } }
    fn gen(r: &mut Rng, _: usize) -> Self { Number::expect(&if r.chance(1, 2) { gen::int_j(r) } else { J::Float(gen::float(r)) }).unwrap() }
    fn frag(&self) -> J { num_j(self) }
    fn same(&self, o: &Self) -> bool { num_j(self) == num_j(o) }
    fn close(&self, o: &Self) -> bool { close_j(&num_j(self), &num_j(o)) }
    fn props() -> Vec<&'static str> { vec!["C10", "C03", "C04", "C12", "C09"] }
}
fn sort_j(j: J) -> J { norm(&j) }
impl Ty for Array {
    fn expect(j: &J) -> Option<Self> { if let J::Arr(a) = j { Some(a.iter().map(|x| from_j(&norm(x))).collect()) } else { None } }
    fn gen(r: &mut Rng, d: usize) -> Self { (0..gen::len(r)).map(|_| Value::gen(r, d.saturating_sub(1))).collect() }
    fn right(r: &mut Rng, d: usize) -> J { J::Arr((0..gen::len(r)).map(|_| gen::j(r, d.saturating_sub(1))).collect()) }
    fn frag(&self) -> J { J::Arr(self.iter().map(to_j).collect()) }
    fn same(&self, o: &Self) -> bool { self.frag() == o.frag() }
    fn close(&self, o: &Self) -> bool { close_j(&self.frag(), &o.frag()) }
    fn props() -> Vec<&'static str> { vec!["C10", "C18", "C12"] }
}
impl Ty for Object {
    fn expect(j: &J) -> Option<Self> { if let J::Obj(a) = j { Some(a.iter().map(|(k, x)| (k.clone(), from_j(&norm(x)))).collect()) } else { None } }
    fn gen(r: &mut Rng, d: usize) -> Self { (0..gen::len(r)).map(|_| (gen::key(r), Value::gen(r, d.saturating_sub(1)))).collect() }
    fn right(r: &mut Rng, d: usize) -> J { J::Obj((0..gen::len(r)).map(|_| (gen::key(r), gen::j(r, d.saturating_sub(1)))).collect()) }
    fn frag(&self) -> J { sort_j(J::Obj(self.iter().map(|(k, v)| (k.clone(), to_j(v))).collect())) }
    fn same(&self, o: &Self) -> bool { self.frag() == o.frag() }
    fn close(&self, o: &Self) -> bool { close_j(&self.frag(), &o.frag()) }
    fn props() -> Vec<&'static str> { vec!["C10", "C18", "C12", "C15"] }
}

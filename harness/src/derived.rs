//! Derived types over which the derive macros are exercised.
use crate::gen;
use crate::refp::J;
use crate::rng::Rng;
use crate::types::{gen_j, HMap, Ty};
use miniserde::json::Value;
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[macro_export] macro_rules! model {
    ($name:ident { $($f:ident : $t:ty = $n:expr),* $(,)? }) => {
        impl Ty for $name {
            fn expect(j: &J) -> Option<Self> {
                let J::Obj(_o) = j else { return None };
                $( let mut $f: Option<$t> = <$t as Ty>::absent(); )*
                for (_k, _v) in _o { let _k: &str = _k; $( if _k == $n { $f = Some(<$t as Ty>::expect(_v)?); continue; } )* }
                Some($name { $( $f: $f? ),* })
            }
            fn gen(_r: &mut Rng, _d: usize) -> Self { let _d = _d.saturating_sub(1); $name { $( $f: <$t as Ty>::gen(_r, _d) ),* } }
            fn right(r: &mut Rng, d: usize) -> J {
                let d = d.saturating_sub(1);
                let mut v: Vec<(String, J)> = vec![ $( ($n.to_string(), gen_j::<$t>(r, d)) ),* ];
                mess(r, d, &mut v);
                J::Obj(v)
            }
            fn frag(&self) -> J { J::Obj(vec![ $( ($n.to_string(), self.$f.frag()) ),* ]) }
            fn same(&self, _o: &Self) -> bool { true $( && self.$f.same(&_o.$f) )* }
            fn close(&self, _o: &Self) -> bool { true $( && self.$f.close(&_o.$f) )* }
            fn props() -> Vec<&'static str> {
                #[allow(unused_mut)] let mut p = vec!["C14", "C12"];
                thread_local! { static D: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
                if D.with(|d| d.replace(d.get() + 1)) == 0 { $( p.extend(<$t as Ty>::props()); )* }
                D.with(|d| d.set(d.get() - 1));
                p
            }
        }
    };
}
/// shuffle, drop, repeat and add members
pub fn mess(r: &mut Rng, d: usize, v: &mut Vec<(String, J)>) {
    for i in (1..v.len()).rev() { if r.chance(1, 2) { let k = r.below(i + 1); v.swap(i, k); } }
    if r.chance(1, 5) && !v.is_empty() { let i = r.below(v.len()); v.remove(i); }
    if r.chance(1, 4) && !v.is_empty() { let x = v[r.below(v.len())].clone(); let y = v[r.below(v.len())].1.clone(); v.push((x.0, if r.chance(1, 2) { y } else { x.1 })); }
    for _ in 0..r.below(3) {
        let i = r.below(v.len() + 1);
        let base = if v.is_empty() { String::new() } else { v[r.below(v.len())].0.clone() };
        let name = match r.below(6) { 0 => format!("{}x", base), 1 => base.to_uppercase(), 2 => { let mut b = base; b.pop(); b } 3 => format!("r#{}", base), 4 => "unknown".into(), _ => gen::key(r) };
        v.insert(i, (name, gen::j(r, d.min(2))));
    }
}
#[macro_export] macro_rules! model_enum {
    ($name:ident { $($v:ident = $n:expr),* $(,)? }) => {
        impl Ty for $name {
            fn expect(j: &J) -> Option<Self> { let J::Str(s) = j else { return None }; let s: &str = s; $( if s == $n { return Some($name::$v) } )* None }
            fn gen(r: &mut Rng, _: usize) -> Self { let n = [$($n),*].len(); let mut i = r.below(n); $( if i == 0 { return $name::$v } i = i.wrapping_sub(1); )* unreachable!("{}", i) }
            fn right(r: &mut Rng, d: usize) -> J {
                let names: &[&str] = &[$($n),*];
                let s = Self::gen(r, d); let _ = s;
                let b = r.pick(names).to_string();
                J::Str(match r.below(12) { 0 => format!("{}x", b), 1 => b.to_uppercase(), 2 => b.to_lowercase(), 3 => { let mut b = b; b.pop(); b } 4 => format!(" {}", b), 5 => gen::string(r), 6 => (*r.pick(&[$(stringify!($v)),*])).to_string(), 7 => format!("r#{}", b), 8 => format!("{}{}", b, b), _ => b })
            }
            fn frag(&self) -> J { match self { $( $name::$v => J::Str($n.to_string()) ),* } }
            fn same(&self, o: &Self) -> bool { std::mem::discriminant(self) == std::mem::discriminant(o) }
            fn props() -> Vec<&'static str> { vec!["C16", "C12"] }
        }
    };
}

#[derive(Serialize, Deserialize, Debug)] pub struct Zero {}
model!(Zero {});
#[derive(Serialize, Deserialize, Debug)] pub struct One { pub a: u8 }
model!(One { a: u8 = "a" });
#[derive(Serialize, Deserialize, Debug)] pub struct Two { pub first: String, pub second: i64 }
model!(Two { first: String = "first", second: i64 = "second" });
#[derive(Serialize, Deserialize, Debug)] pub struct Opt { pub x: Option<u32>, pub y: Option<String>, pub z: bool }
model!(Opt { x: Option<u32> = "x", y: Option<String> = "y", z: bool = "z" });
#[derive(Serialize, Deserialize, Debug)] pub struct Ren {
    #[serde(rename = "type")] pub ty: String,
    #[serde(rename = "")] pub empty: u8,
    #[serde(rename = "q\"u\\o\nte")] pub quote: u8,
    #[serde(rename = "émoji 😀")] pub uni: Option<bool>,
    #[serde(rename = "ty")] pub other: i32,
}
model!(Ren { ty: String = "type", empty: u8 = "", quote: u8 = "q\"u\\o\nte", uni: Option<bool> = "émoji 😀", other: i32 = "ty" });
#[derive(Serialize, Deserialize, Debug)] pub struct Raw { pub r#type: u8, pub r#match: String, pub r#fn: Option<u8>, pub r: u8, #[serde(rename = "r#x")] pub x: u8 }
model!(Raw { r#type: u8 = "type", r#match: String = "match", r#fn: Option<u8> = "fn", r: u8 = "r", x: u8 = "r#x" });
/// renames that cross: each field named as another
#[derive(Serialize, Deserialize, Debug)] pub struct Cross { #[serde(rename = "b")] pub a: u8, #[serde(rename = "c")] pub b: u8, #[serde(rename = "a")] pub c: u8 }
model!(Cross { a: u8 = "b", b: u8 = "c", c: u8 = "a" });
#[derive(Serialize, Deserialize, Debug)] pub struct Gen<T, U> where U: Clone { pub t: T, pub us: Vec<U>, pub m: BTreeMap<String, T> }
pub type G1 = Gen<u8, String>;
model!(G1 { t: u8 = "t", us: Vec<String> = "us", m: BTreeMap<String, u8> = "m" });
pub type G2 = Gen<Option<bool>, Two2>;
model!(G2 { t: Option<bool> = "t", us: Vec<Two2> = "us", m: BTreeMap<String, Option<bool>> = "m" });
#[derive(Serialize, Deserialize, Debug, Clone)] pub struct Two2 { pub p: (u8, bool), pub q: [i8; 2] }
model!(Two2 { p: (u8, bool) = "p", q: [i8; 2] = "q" });
#[derive(Serialize, Deserialize, Debug)] pub struct Nest { pub one: One, pub opt: Option<Box<Nest>>, pub list: Vec<Two>, pub v: Value, pub k: Color, pub h: HMap<String, One> }
model!(Nest { one: One = "one", opt: Option<Box<Nest>> = "opt", list: Vec<Two> = "list", v: Value = "v", k: Color = "k", h: HMap<String, One> = "h" });
#[derive(Serialize, Deserialize, Debug)] pub struct Units { pub u: (), pub o: Option<()>, pub b: Box<u8>, pub f: f64 }
model!(Units { u: () = "u", o: Option<()> = "o", b: Box<u8> = "b", f: f64 = "f" });
#[derive(Serialize, Deserialize, Debug)] pub struct Many {
    pub f0: u8, pub f1: u8, pub f2: u8, pub f3: u8, pub f4: u8, pub f5: u8, pub f6: u8, pub f7: u8, pub f8: u8, pub f9: u8, pub f10: u8, pub f11: u8,
    pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: String, pub f18: Option<u8>, pub f19: u8,
}
model!(Many { f0: u8 = "f0", f1: u8 = "f1", f2: u8 = "f2", f3: u8 = "f3", f4: u8 = "f4", f5: u8 = "f5", f6: u8 = "f6", f7: u8 = "f7", f8: u8 = "f8", f9: u8 = "f9", f10: u8 = "f10",
    f11: u8 = "f11", f12: u8 = "f12", f13: u8 = "f13", f14: u8 = "f14", f15: u8 = "f15", f16: u8 = "f16", f17: String = "f17", f18: Option<u8> = "f18", f19: u8 = "f19" });
#[derive(Serialize, Deserialize, Debug)] pub struct ConstN<T, const N: usize> { pub arr: [T; N], pub n: u8 }
pub type C3 = ConstN<u8, 3>;
model!(C3 { arr: [u8; 3] = "arr", n: u8 = "n" });
#[derive(Serialize, Deserialize, Debug)] pub struct __Odd { pub state: u8, pub data: u8, pub out: Option<u8>, pub value: u8, pub s: u8, pub k: u8, pub key: u8, pub finish: u8 }
model!(__Odd { state: u8 = "state", data: u8 = "data", out: Option<u8> = "out", value: u8 = "value", s: u8 = "s", k: u8 = "k", key: u8 = "key", finish: u8 = "finish" });

#[derive(Serialize, Deserialize, Debug, Clone, Copy)] pub enum Color { Red, #[serde(rename = "green")] Green, Blue }
model_enum!(Color { Red = "Red", Green = "green", Blue = "Blue" });
#[derive(Serialize, Deserialize, Debug)] pub enum Single { Only }
model_enum!(Single { Only = "Only" });
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize, Debug)] pub enum Odd { r#type, #[serde(rename = "")] Empty, #[serde(rename = "a\"\\\u{1}é😀")] Esc, #[serde(rename = "Second")] First, #[serde(rename = "First")] Second, None, Some }
model_enum!(Odd { r#type = "type", Empty = "", Esc = "a\"\\\u{1}é😀", First = "Second", Second = "First", None = "None", Some = "Some" });
#[derive(Serialize, Deserialize, Debug)] pub enum Disc { A = 5, B = 3, C }
model_enum!(Disc { A = "A", B = "B", C = "C" });
#[derive(Serialize, Deserialize, Debug)] pub enum Big { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
model_enum!(Big { V0 = "V0", V1 = "V1", V2 = "V2", V3 = "V3", V4 = "V4", V5 = "V5", V6 = "V6", V7 = "V7", V8 = "V8", V9 = "V9", V10 = "V10", V11 = "V11", V12 = "V12", V13 = "V13", V14 = "V14", V15 = "V15" });

/// serialize-only shapes: borrowed data
#[derive(Serialize)] pub struct Borrowed<'a, T: ?Sized> { pub s: &'a str, pub c: std::borrow::Cow<'a, str>, pub t: &'a T, #[serde(rename = "the slice")] pub sl: &'a [u8] }
pub fn borrowed_frag<T: Ty>(b: &Borrowed<T>) -> J {
    J::Obj(vec![("s".into(), J::Str(b.s.into())), ("c".into(), J::Str(b.c.to_string())), ("t".into(), b.t.frag()), ("the slice".into(), J::Arr(b.sl.iter().map(Ty::frag).collect()))])
}

/// a recursive derived type for the depth checks
#[derive(Serialize, Deserialize)] pub struct Tree { pub c: Vec<Tree> }

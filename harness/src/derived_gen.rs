// written by tools/gen_derive.py
#![allow(dead_code, non_snake_case, unused_parens)]
use crate::refp::J;
use crate::rng::Rng;
use crate::types::{gen_j, Ty};
use crate::derived::mess;
use crate::{gen, model, model_enum};
use std::collections::BTreeMap;
pub mod g0 {
pub mod deco_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Deco {
    #[serde(rename = "n \"0\\")] pub m0: u8,
    /// a comment
    pub m1: Option<u8>,
    #[allow(dead_code)] #[serde(rename=r#"n "2\"#)]
    /// after
    pub m2: u8,
    #[doc(hidden)] #[allow(non_snake_case)] pub m3: u8,
    #[cfg(all())] #[serde(rename = "n \"4\\")] #[doc = "x"] pub m4: u8,
    /** block */ #[allow(unused)] #[serde()] pub m5: Option<u8>,
    #[serde()] #[serde(rename="n \"6\\")]
    pub m6: u8,
    pub m7: u8,
    /// a comment
    #[serde(rename = r#"n "8\"#)] /// after
    pub m8: u8,
    #[allow(dead_code)] #[allow(non_snake_case)] pub m9: Option<u8>,
    #[doc(hidden)] #[serde(rename="n \"10\\")]
    #[doc = "x"] pub m10: u8,
    #[cfg(all())] #[serde()] pub m11: u8,
    /** block */ #[allow(unused)] #[serde(rename = "n \"12\\")] pub m12: u8,
    #[serde()] pub m13: Option<u8>,
}
}
pub mod zero_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Zero {
}
}
pub mod one_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct One<A> {
    pub a: A,
}
}
pub mod plain_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Plain {
    pub id: u32,
    pub name: String,
    pub tags: Vec<String>,
    pub extra: Option<Box<u8>>,
    pub ok: bool,
}
}
pub mod three_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Three<A, B, C> {
    pub first: A,
    pub second: B,
    pub third: C,
}
}
pub mod opt_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Opt<A, B, C> {
    pub x: Option<A>,
    pub y: Option<Option<B>>,
    pub z: C,
}
}
pub mod ren_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Ren {
    #[serde(rename = "type")] pub ty: String,
    #[serde(rename = "")] pub empty: u8,
    #[serde(rename = "q\"u\\o\nte")] pub quote: u8,
    #[serde(rename = "émoji 😀")] pub uni: Option<bool>,
    #[serde(rename = "ty")] pub other: i32,
}
}
pub mod raw_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Raw<A> {
    pub r#type: u8,
    pub r#match: A,
    pub r#fn: Option<u8>,
    pub r: u8,
    #[serde(rename = "r#x")] pub x: u8,
}
}
pub mod cross_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Cross {
    #[serde(rename = "b")] pub a: u8,
    #[serde(rename = "c")] pub b: u8,
    #[serde(rename = "a")] pub c: u8,
}
}
pub mod near_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Near {
    pub ab: u8,
    pub a: u8,
    pub abc: u8,
    pub Ab: u8,
    #[serde(rename = "ab ")] pub b: u8,
}
}
pub mod gen_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Gen<T, U> where U: Clone {
    pub t: T,
    pub us: Vec<U>,
    pub m: BTreeMap<String, T>,
}
}
pub mod constn_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct ConstN<T: Clone, const N: usize> {
    pub arr: [T; N],
    pub n: u8,
}
}
pub mod odd_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct __Odd {
    pub state: u8,
    pub data: u8,
    pub out: Option<u8>,
    pub value: u8,
    pub s: u8,
    pub k: u8,
    pub key: u8,
    pub finish: u8,
}
}
pub mod many_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Many {
    pub f0: Option<u8>,
    pub f1: u8,
    pub f2: u8,
    pub f3: Option<u8>,
    pub f4: u8,
    pub f5: u8,
    pub f6: Option<u8>,
    pub f7: u8,
    pub f8: u8,
    pub f9: Option<u8>,
    pub f10: u8,
    pub f11: u8,
}
}
pub mod borrowed_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize)]
pub struct Borrowed<'a, T> {
    pub s: &'a str,
    pub t: &'a T,
    #[serde(rename = "the slice")] pub sl: &'a [u8],
}
}
pub mod deco_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Deco {
    #[serde(rename = "n \"0\\")] V0,
    /// a comment
    V1,
    #[allow(dead_code)] #[serde(rename=r#"n "2\"#)]
    /// after
    V2,
    #[doc(hidden)] #[allow(non_snake_case)] V3,
    #[cfg(all())] #[serde(rename = "n \"4\\")] #[doc = "x"] V4,
    /** block */ #[allow(unused)] #[serde()] V5,
    #[serde()] #[serde(rename="n \"6\\")]
    V6,
    V7,
    /// a comment
    #[serde(rename = r#"n "8\"#)] /// after
    V8,
    #[allow(dead_code)] #[allow(non_snake_case)] V9,
    #[doc(hidden)] #[serde(rename="n \"10\\")]
    #[doc = "x"] V10,
    #[cfg(all())] #[serde()] V11,
    /** block */ #[allow(unused)] #[serde(rename = "n \"12\\")] V12,
    #[serde()] V13,
}
}
pub mod color_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Color {
    Red,
    #[serde(rename = "green")] Green,
    Blue,
}
}
pub mod single_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Single {
    Only,
}
}
pub mod odd_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Odd {
    r#type,
    #[serde(rename = "")] Empty,
    #[serde(rename = "a\"\\\u{1}é😀")] Esc,
    #[serde(rename = "Second")] First,
    #[serde(rename = "First")] Second,
    None,
    Some,
}
}
pub mod disc_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Disc {
    A = 5,
    B = 3,
    C,
}
}
pub mod near_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Near {
    Ab,
    #[serde(rename = "AB")] AB,
    Abc,
    #[serde(rename = "ab")] Lower,
    #[serde(rename = "Ab ")] Space,
    #[serde(rename = "r#Ab")] Raw,
}
}
pub mod big_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Big {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
}
}
}
pub type E0Deco = g0::deco_e::Deco;
model_enum!(E0Deco { V0 = "n \"0\\", V1 = "V1", V2 = "n \"2\\", V3 = "V3", V4 = "n \"4\\", V5 = "V5", V6 = "n \"6\\", V7 = "V7", V8 = "n \"8\\", V9 = "V9", V10 = "n \"10\\", V11 = "V11", V12 = "n \"12\\", V13 = "V13" });
pub type E0Color = g0::color_e::Color;
model_enum!(E0Color { Red = "Red", Green = "green", Blue = "Blue" });
pub type E0Single = g0::single_e::Single;
model_enum!(E0Single { Only = "Only" });
pub type E0Odd = g0::odd_e::Odd;
model_enum!(E0Odd { r#type = "type", Empty = "", Esc = "a\"\\\u{1}é😀", First = "Second", Second = "First", None = "None", Some = "Some" });
pub type E0Disc = g0::disc_e::Disc;
model_enum!(E0Disc { A = "A", B = "B", C = "C" });
pub type E0Near = g0::near_e::Near;
model_enum!(E0Near { Ab = "Ab", AB = "AB", Abc = "Abc", Lower = "ab", Space = "Ab ", Raw = "r#Ab" });
pub type E0Big = g0::big_e::Big;
model_enum!(E0Big { V0 = "V0", V1 = "V1", V2 = "V2", V3 = "V3", V4 = "V4", V5 = "V5", V6 = "V6", V7 = "V7", V8 = "V8", V9 = "V9" });
pub type S0Deco = g0::deco_s::Deco;
model!(S0Deco { m0: u8 = "n \"0\\", m1: Option<u8> = "m1", m2: u8 = "n \"2\\", m3: u8 = "m3", m4: u8 = "n \"4\\", m5: Option<u8> = "m5", m6: u8 = "n \"6\\", m7: u8 = "m7", m8: u8 = "n \"8\\", m9: Option<u8> = "m9", m10: u8 = "n \"10\\", m11: u8 = "m11", m12: u8 = "n \"12\\", m13: Option<u8> = "m13" });
pub type S0Zero = g0::zero_s::Zero;
model!(S0Zero {  });
pub type S0One = g0::one_s::One<u8>;
model!(S0One { a: u8 = "a" });
pub type S0Plain = g0::plain_s::Plain;
model!(S0Plain { id: u32 = "id", name: String = "name", tags: Vec<String> = "tags", extra: Option<Box<u8>> = "extra", ok: bool = "ok" });
pub type S0Three = g0::three_s::Three<u8, String, Option<u8>>;
model!(S0Three { first: u8 = "first", second: String = "second", third: Option<u8> = "third" });
pub type S0Opt = g0::opt_s::Opt<u8, String, Option<u8>>;
model!(S0Opt { x: Option<u8> = "x", y: Option<Option<String>> = "y", z: Option<u8> = "z" });
pub type S0Ren = g0::ren_s::Ren;
model!(S0Ren { ty: String = "type", empty: u8 = "", quote: u8 = "q\"u\\o\nte", uni: Option<bool> = "émoji 😀", other: i32 = "ty" });
pub type S0Raw = g0::raw_s::Raw<u8>;
model!(S0Raw { r#type: u8 = "type", r#match: u8 = "match", r#fn: Option<u8> = "fn", r: u8 = "r", x: u8 = "r#x" });
pub type S0Cross = g0::cross_s::Cross;
model!(S0Cross { a: u8 = "b", b: u8 = "c", c: u8 = "a" });
pub type S0Near = g0::near_s::Near;
model!(S0Near { ab: u8 = "ab", a: u8 = "a", abc: u8 = "abc", Ab: u8 = "Ab", b: u8 = "ab " });
pub type S0Gen = g0::gen_s::Gen<u8, String>;
model!(S0Gen { t: u8 = "t", us: Vec<String> = "us", m: BTreeMap<String, u8> = "m" });
pub type S0ConstN = g0::constn_s::ConstN<u8, 3>;
model!(S0ConstN { arr: [u8; 3] = "arr", n: u8 = "n" });
pub type S0Odd = g0::odd_s::__Odd;
model!(S0Odd { state: u8 = "state", data: u8 = "data", out: Option<u8> = "out", value: u8 = "value", s: u8 = "s", k: u8 = "k", key: u8 = "key", finish: u8 = "finish" });
pub type S0Many = g0::many_s::Many;
model!(S0Many { f0: Option<u8> = "f0", f1: u8 = "f1", f2: u8 = "f2", f3: Option<u8> = "f3", f4: u8 = "f4", f5: u8 = "f5", f6: Option<u8> = "f6", f7: u8 = "f7", f8: u8 = "f8", f9: Option<u8> = "f9", f10: u8 = "f10", f11: u8 = "f11" });
pub mod g1 {
pub mod r0_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R0<T0, T1: Copy, T2: Clone> {
    pub r#move: T0,
    pub name29: BTreeMap<String, T0>,
    #[serde(rename = "﻿́\t/.")] pub id10: Option<T2>,
    #[serde(rename = "")] pub SCREAM: Option<BTreeMap<String, BTreeMap<String, T1>>>,
    #[serde(rename = "\"\tZｘ /﻿ß-")] pub имя2: u8,
}
}
pub mod r1_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R1<T0: Copy> {
    /// a comment
    pub key27: T0,
    #[allow(dead_code)] /// after
    pub a: u32,
    #[doc(hidden)] #[allow(non_snake_case)] pub _lead2: T0,
    #[cfg(all())] #[serde(rename = "\t﻿")] #[doc = "x"] pub r#ref: T0,
    /** block */ #[allow(unused)] #[serde()] pub begin26: Vec<Vec<u32>>,
    #[serde()] pub map: Box<T0>,
    pub a_b_c: BTreeMap<String, u8>,
    /// a comment
    /// after
    pub b23: u8,
}
}
pub mod r2_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R2 {
    #[allow(dead_code)] #[serde(rename=r#" bß
#Z\ ﻿"#)]
    /// after
    pub b17: i32,
    #[doc(hidden)] #[rustfmt::skip] #[serde(rename = "﻿﻿")] #[allow(non_snake_case)] pub self_10: Option<i32>,
    #[cfg(all())] #[doc = "x"] pub r#fn: i32,
}
}
pub mod r3_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R3<T0, T1> {
    pub match21: u8,
    pub x7: T1,
    #[serde(rename = "ｘ😀 ")] pub id: T1,
    pub match24: T1,
    #[serde(rename = "$")] pub r#type: T0,
    #[serde(rename = "#ßZ }")] pub self23: T1,
    pub begin: Vec<Option<T1>>,
    pub value17: bool,
}
}
pub mod r4_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R4 {
    #[cfg(all())] #[doc = "x"] pub miniserde: u8,
    /** block */ #[allow(unused)] #[serde()] pub b: String,
}
}
pub mod r5_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R5 {
    /** block */ #[allow(unused)] #[serde()] pub _lead10: Vec<Option<[u8; 2]>>,
    #[serde()] pub Result: String,
    pub usize: i32,
    /// a comment
    #[serde(rename = "\n\\' 😀\"}{}\\\tｘaｘ\\\u{1f}ｘ")] /// after
    pub a_b_c3: bool,
    #[allow(dead_code)] #[serde(rename = "",)] #[allow(non_snake_case)] pub r#type: i32,
    #[doc(hidden)] #[doc = "x"] pub usize22: [bool; 2],
    #[cfg(all())] #[serde()] pub r: String,
    /** block */ #[allow(unused)] pub ok: bool,
}
}
pub mod r6_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R6<T0> {
    #[serde(rename = "'")] pub r5: BTreeMap<String, T0>,
    pub true15: Vec<T0>,
    #[serde(rename = "\u{0}\n'́#bb#0$$aｘ$}\u{0}{")] pub __both__: Vec<T0>,
    pub next: Vec<BTreeMap<String, String>>,
    pub r#type: T0,
}
}
pub mod r7_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R7<T0, T1> {
    #[rustfmt::skip] #[serde(rename = "r#é")] pub Box: T0,
    /// a comment
    /// after
    pub err23: Option<u32>,
    #[allow(dead_code)] #[allow(non_snake_case)] pub a29: u32,
    #[doc(hidden)] #[doc = "x"] pub true23: BTreeMap<String, Vec<String>>,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = r#"é"#)] #[serde()] pub r_: T0,
    /** block */ #[allow(unused)] #[serde(rename = "\n ́\\\u{1f} ｘé\u{1f}")] pub r#where: Vec<Box<Box<T1>>>,
    #[serde()] #[serde(rename = "﻿",)] pub имя: T1,
    /// after
    pub str23: u8,
}
}
pub mod r8_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R8<T1, T2: Clone> {
    /// a comment
    /// after
    pub usize6: T2,
    #[allow(dead_code)] #[serde(rename = "😀ß/b$😀\u{7f}😀Z﻿\"\\.r#́﻿-\u{0}.a\"b/\u{7f}$#\\.́ ́-$#}$ \n.\u{7f}",)] #[allow(non_snake_case)] pub r#match: Vec<T1>,
}
}
pub mod r9_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R9 {
    pub Name9: BTreeMap<String, i32>,
}
}
pub mod r10_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R10 {
    #[doc(hidden)] #[doc = "x"] pub key1: bool,
    #[cfg(all())] #[serde()] pub self_2: u32,
    /** block */ #[allow(unused)] #[serde(rename = "\nｘ")] pub r#in: i32,
    #[serde()] #[serde(rename = "\n$",)] pub next: Box<[Box<u32>; 2]>,
    #[serde(rename="\u{1f}ｘ0/-//$\u{1f}ß'Zé0\t\u{0}r#")]
    /// after
    pub value25: [u8; 2],
    /// a comment
    #[allow(non_snake_case)] pub Box6: u8,
    #[allow(dead_code)] #[serde(rename = "Z")] #[doc = "x"] pub a_b_c: u32,
    #[doc(hidden)] #[serde()] pub type8: u32,
    #[cfg(all())] pub miniserde: u32,
    /** block */ #[allow(unused)] pub r#box: Vec<bool>,
    #[serde()] #[serde(rename = r#"b-ß"#)] /// after
    pub a19: Vec<u32>,
    #[allow(non_snake_case)] pub self_19: i32,
    /// a comment
    #[doc = "x"] pub usize10: u8,
}
}
pub mod r11_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R11 {
    #[cfg(all())] #[serde()] pub __both__28: Vec<String>,
    /** block */ #[allow(unused)] pub a_b_c6: u32,
    #[serde()] #[serde(rename = "\"",)] pub next4: String,
    #[serde(rename=r#""#)]
    /// after
    pub next27: Vec<bool>,
    /// a comment
    #[allow(non_snake_case)] pub r: String,
}
}
pub mod r12_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R12 {
    #[serde(rename = "\u{1f}\u{0}")] pub Name15: i32,
    #[serde(rename = "\t")] pub r#type: String,
    pub begin: u8,
}
}
pub mod r13_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R13 {
    #[serde()] pub r#fn: BTreeMap<String, [BTreeMap<String, u8>; 2]>,
    #[serde(rename="\u{1f}\\😀﻿\u{1f}a#\"\u{1f}")]
    /// after
    pub ok: i32,
    /// a comment
    #[rustfmt::skip] #[serde(rename = "$ｘé#}\" .\u{1f}\t\nｘ#ba-$\u{7f}\\'#$0\t́\"{aß\t ﻿.r#/.é﻿ｘ\u{0}")] #[allow(non_snake_case)] pub camelCase28: bool,
    #[allow(dead_code)] #[doc = "x"] pub str: u8,
    #[doc(hidden)] #[serde()] pub r#use: u32,
    #[cfg(all())] pub rx24: Option<BTreeMap<String, u8>>,
    /** block */ #[allow(unused)] pub größe22: BTreeMap<String, bool>,
    #[serde()] /// after
    pub begin18: Box<bool>,
    #[allow(non_snake_case)] pub Name10: String,
    /// a comment
    #[doc = "x"] pub a20: i32,
    #[allow(dead_code)] #[serde()] pub x21: bool,
    #[doc(hidden)] pub r#dyn: u32,
    #[cfg(all())] #[serde(rename = "a",)] pub b: bool,
}
}
pub mod r14_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R14<T0: Clone> {
    /// after
    pub true22: T0,
    /// a comment
    #[allow(non_snake_case)] pub miniserde: [String; 2],
    #[allow(dead_code)] #[doc = "x"] pub a25: Vec<Box<T0>>,
    #[doc(hidden)] #[serde()] pub miniserde24: String,
    #[cfg(all())] #[serde(rename="-{-b#\u{7f}r#é/﻿ '\u{0}\u{7f}\"é# /}\u{1f}}#ｘｘ😀$ß#/Z$0aZ0\n}\n\u{1f}")]
    pub r#fn: T0,
}
}
pub mod r15_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R15 {
    #[serde(rename = "\té\t́{Z\u{7f}b ér#ｘb} - ")] pub r#in: u32,
}
}
pub mod r0_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R0 {
    #[serde(rename = "😀")] seq,
}
}
pub mod r1_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R1 {
    /// a comment
    r#impl,
    #[allow(dead_code)] #[serde(rename=r#""#)]
    /// after
    имя,
    #[doc(hidden)] #[rustfmt::skip] #[serde(rename = "{")] #[allow(non_snake_case)] r#fn,
    #[cfg(all())] #[serde(rename = "-.ｘ {")] #[doc = "x"] match16,
    /** block */ #[allow(unused)] #[serde(rename = "\ta",)] #[serde()] b26,
    #[serde()] größe15,
    #[rustfmt::skip] #[serde(rename = "..")] true10,
    /// a comment
    #[serde(rename = r#"#é"#)] /// after
    имя20,
    #[allow(dead_code)] #[allow(non_snake_case)] value,
    #[doc(hidden)] #[doc = "x"] key16,
    #[cfg(all())] #[serde()] b24,
}
}
pub mod r2_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R2 {
    #[allow(dead_code)] #[serde(rename="ß\"''a﻿ 0}á\u{0}\u{7f}ß/.##é😀'{\\--{${ßß00é\"{$ß\u{7f}b\"")]
    /// after
    b,
    #[doc(hidden)] #[allow(non_snake_case)] имя5,
    #[cfg(all())] #[serde(rename = "\t.😀.$-é0$")] #[doc = "x"] r#struct,
    /** block */ #[allow(unused)] #[serde()] Result,
    #[serde()] #[serde(rename="ß")]
    true27,
    r#fn,
    /// a comment
    #[serde(rename = r#"-﻿ｘ/ßZ
Z$"#)] /// after
    miniserde28,
}
}
pub mod r3_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R3 {
    Name13,
}
}
pub mod r4_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R4 {
    #[cfg(all())] #[doc = "x"] r#move,
}
}
pub mod r5_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R5 {
    /** block */ #[allow(unused)] #[serde()] a,
    #[serde()] r#in,
    #[rustfmt::skip] #[serde(rename = " ar# .-$\n\u{0}")] Result,
}
}
pub mod r6_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R6 {
    #[serde(rename = " \\")] r_24,
    #[serde(rename = "a#/﻿r#0﻿﻿\t\n /﻿-Z}\u{1f}")] r_19,
    _lead11,
}
}
pub mod r7_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R7 {
    ok22,
    /// a comment
    #[serde(rename = r#"/r#"#)] /// after
    Result24,
    #[allow(dead_code)] #[allow(non_snake_case)] begin24,
    #[doc(hidden)] #[serde(rename="́éa\u{7f}﻿. r#'﻿-\n\u{1f}\u{1f}a\u{0}$\u{0}{﻿ $ 0\u{1f}/r#/\u{0}r#😀\u{0} {a}0́Z#")]
    #[doc = "x"] len,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = r#""#)] #[serde()] größe,
    /** block */ #[allow(unused)] #[serde(rename = "\u{7f}ｘ")] _lead,
    #[serde()] #[serde(rename = "#",)] x17,
}
}
pub mod r8_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R8 {
    /// a comment
    #[serde(rename = r#"ｘ0"#)] /// after
    ok18,
}
}
pub mod r9_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R9 {
    Name3,
}
}
}
pub type E1R0 = g1::r0_e::R0;
model_enum!(E1R0 { seq = "😀" });
pub type E1R1 = g1::r1_e::R1;
model_enum!(E1R1 { r#impl = "impl", имя = "", r#fn = "{", match16 = "-.ｘ {", b26 = "\ta", größe15 = "größe15", true10 = "..", имя20 = "#é", value = "value", key16 = "key16", b24 = "b24" });
pub type E1R2 = g1::r2_e::R2;
model_enum!(E1R2 { b = "ß\"''a﻿ 0}á\u{0}\u{7f}ß/.##é😀'{\\--{${ßß00é\"{$ß\u{7f}b\"", имя5 = "имя5", r#struct = "\t.😀.$-é0$", Result = "Result", true27 = "ß", r#fn = "fn", miniserde28 = "-﻿ｘ/ßZ\nZ$" });
pub type E1R3 = g1::r3_e::R3;
model_enum!(E1R3 { Name13 = "Name13" });
pub type E1R4 = g1::r4_e::R4;
model_enum!(E1R4 { r#move = "move" });
pub type E1R5 = g1::r5_e::R5;
model_enum!(E1R5 { a = "a", r#in = "in", Result = " ar# .-$\n\u{0}" });
pub type E1R6 = g1::r6_e::R6;
model_enum!(E1R6 { r_24 = " \\", r_19 = "a#/﻿r#0﻿﻿\t\n /﻿-Z}\u{1f}", _lead11 = "_lead11" });
pub type E1R7 = g1::r7_e::R7;
model_enum!(E1R7 { ok22 = "ok22", Result24 = "/r#", begin24 = "begin24", len = "́éa\u{7f}﻿. r#'﻿-\n\u{1f}\u{1f}a\u{0}$\u{0}{﻿ $ 0\u{1f}/r#/\u{0}r#😀\u{0} {a}0́Z#", größe = "", _lead = "\u{7f}ｘ", x17 = "#" });
pub type E1R8 = g1::r8_e::R8;
model_enum!(E1R8 { ok18 = "ｘ0" });
pub type E1R9 = g1::r9_e::R9;
model_enum!(E1R9 { Name3 = "Name3" });
pub type S1R0 = g1::r0_s::R0<u8, bool, Option<u8>>;
model!(S1R0 { r#move: u8 = "move", name29: BTreeMap<String, u8> = "name29", id10: Option<Option<u8>> = "﻿́\t/.", SCREAM: Option<BTreeMap<String, BTreeMap<String, bool>>> = "", имя2: u8 = "\"\tZｘ /﻿ß-" });
pub type S1R1 = g1::r1_s::R1<u8>;
model!(S1R1 { key27: u8 = "key27", a: u32 = "a", _lead2: u8 = "_lead2", r#ref: u8 = "\t﻿", begin26: Vec<Vec<u32>> = "begin26", map: Box<u8> = "map", a_b_c: BTreeMap<String, u8> = "a_b_c", b23: u8 = "b23" });
pub type S1R2 = g1::r2_s::R2;
model!(S1R2 { b17: i32 = " bß\n#Z\\ ﻿", self_10: Option<i32> = "﻿﻿", r#fn: i32 = "fn" });
pub type S1R3 = g1::r3_s::R3<u8, String>;
model!(S1R3 { match21: u8 = "match21", x7: String = "x7", id: String = "ｘ😀 ", match24: String = "match24", r#type: u8 = "$", self23: String = "#ßZ }", begin: Vec<Option<String>> = "begin", value17: bool = "value17" });
pub type S1R4 = g1::r4_s::R4;
model!(S1R4 { miniserde: u8 = "miniserde", b: String = "b" });
pub type S1R5 = g1::r5_s::R5;
model!(S1R5 { _lead10: Vec<Option<[u8; 2]>> = "_lead10", Result: String = "Result", usize: i32 = "usize", a_b_c3: bool = "\n\\' 😀\"}{}\\\tｘaｘ\\\u{1f}ｘ", r#type: i32 = "", usize22: [bool; 2] = "usize22", r: String = "r", ok: bool = "ok" });
pub type S1R6 = g1::r6_s::R6<u8>;
model!(S1R6 { r5: BTreeMap<String, u8> = "'", true15: Vec<u8> = "true15", __both__: Vec<u8> = "\u{0}\n'́#bb#0$$aｘ$}\u{0}{", next: Vec<BTreeMap<String, String>> = "next", r#type: u8 = "type" });
pub type S1R7 = g1::r7_s::R7<u8, String>;
model!(S1R7 { Box: u8 = "r#é", err23: Option<u32> = "err23", a29: u32 = "a29", true23: BTreeMap<String, Vec<String>> = "true23", r_: u8 = "é", r#where: Vec<Box<Box<String>>> = "\n ́\\\u{1f} ｘé\u{1f}", имя: String = "﻿", str23: u8 = "str23" });
pub type S1R8 = g1::r8_s::R8<u8, String>;
model!(S1R8 { usize6: String = "usize6", r#match: Vec<u8> = "😀ß/b$😀\u{7f}😀Z﻿\"\\.r#́﻿-\u{0}.a\"b/\u{7f}$#\\.́ ́-$#}$ \n.\u{7f}" });
pub type S1R9 = g1::r9_s::R9;
model!(S1R9 { Name9: BTreeMap<String, i32> = "Name9" });
pub type S1R10 = g1::r10_s::R10;
model!(S1R10 { key1: bool = "key1", self_2: u32 = "self_2", r#in: i32 = "\nｘ", next: Box<[Box<u32>; 2]> = "\n$", value25: [u8; 2] = "\u{1f}ｘ0/-//$\u{1f}ß'Zé0\t\u{0}r#", Box6: u8 = "Box6", a_b_c: u32 = "Z", type8: u32 = "type8", miniserde: u32 = "miniserde", r#box: Vec<bool> = "box", a19: Vec<u32> = "b-ß", self_19: i32 = "self_19", usize10: u8 = "usize10" });
pub type S1R11 = g1::r11_s::R11;
model!(S1R11 { __both__28: Vec<String> = "__both__28", a_b_c6: u32 = "a_b_c6", next4: String = "\"", next27: Vec<bool> = "", r: String = "r" });
pub type S1R12 = g1::r12_s::R12;
model!(S1R12 { Name15: i32 = "\u{1f}\u{0}", r#type: String = "\t", begin: u8 = "begin" });
pub type S1R13 = g1::r13_s::R13;
model!(S1R13 { r#fn: BTreeMap<String, [BTreeMap<String, u8>; 2]> = "fn", ok: i32 = "\u{1f}\\😀﻿\u{1f}a#\"\u{1f}", camelCase28: bool = "$ｘé#}\" .\u{1f}\t\nｘ#ba-$\u{7f}\\'#$0\t́\"{aß\t ﻿.r#/.é﻿ｘ\u{0}", str: u8 = "str", r#use: u32 = "use", rx24: Option<BTreeMap<String, u8>> = "rx24", größe22: BTreeMap<String, bool> = "größe22", begin18: Box<bool> = "begin18", Name10: String = "Name10", a20: i32 = "a20", x21: bool = "x21", r#dyn: u32 = "dyn", b: bool = "a" });
pub type S1R14 = g1::r14_s::R14<u8>;
model!(S1R14 { true22: u8 = "true22", miniserde: [String; 2] = "miniserde", a25: Vec<Box<u8>> = "a25", miniserde24: String = "miniserde24", r#fn: u8 = "-{-b#\u{7f}r#é/﻿ '\u{0}\u{7f}\"é# /}\u{1f}}#ｘｘ😀$ß#/Z$0aZ0\n}\n\u{1f}" });
pub type S1R15 = g1::r15_s::R15;
model!(S1R15 { r#in: u32 = "\té\t́{Z\u{7f}b ér#ｘb} - " });
pub mod g2 {
pub mod r0_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R0 {
    #[serde(rename = "#'")] pub имя17: Box<String>,
    pub a: bool,
    #[serde(rename = "é")] pub len18: u32,
    #[serde(rename = "😀{﻿ｘ\t-\u{1f} ß} r#{́ ́#﻿\\/\nß\\😀ér#😀\"r#-\u{7f}#b/0}́\"\u{0}Z")] pub Option17: i32,
    pub Option28: String,
    #[serde(rename = "\\")] pub next: i32,
    #[serde(rename = "aZ")] pub r#type: String,
    #[serde(rename = "")] pub usize14: Option<i32>,
    pub name: BTreeMap<String, i32>,
    #[serde(rename = "a{")] pub Option: u32,
    #[serde(rename = " ß")] pub r#ref: bool,
    #[serde(rename = "﻿-ｘ﻿} a\t\t")] pub seq21: u8,
}
}
pub mod r1_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R1<T0, T1> {
    /// a comment
    #[serde(rename = "}",)] pub Name22: String,
    #[allow(dead_code)] /// after
    pub r#match: [bool; 2],
    #[doc(hidden)] #[allow(non_snake_case)] pub seq3: BTreeMap<String, u8>,
    #[cfg(all())] #[doc = "x"] pub value: Option<T0>,
    /** block */ #[allow(unused)] #[serde()] pub имя23: i32,
    #[serde()] pub r#in: u32,
    pub r#impl: u32,
    /// a comment
    /// after
    pub größe4: bool,
    #[allow(dead_code)] #[allow(non_snake_case)] pub ok15: i32,
    #[doc(hidden)] #[serde(rename=".")]
    #[doc = "x"] pub SCREAM: T1,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = r#"\}"#)] #[serde()] pub map29: Box<T0>,
    /** block */ #[allow(unused)] pub Name: u32,
    #[serde()] pub _lead: T0,
}
}
pub mod r2_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R2 {
    #[allow(dead_code)] /// after
    pub r#match: Vec<u32>,
    #[doc(hidden)] #[allow(non_snake_case)] pub trail_1: u32,
    #[cfg(all())] #[doc = "x"] pub ok: i32,
    /** block */ #[allow(unused)] #[serde(rename = "\u{0}ß#",)] #[serde()] pub r#impl: String,
    #[serde()] pub next26: Vec<u32>,
}
}
pub mod r3_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R3 {
    pub value26: i32,
    #[serde(rename = "#  bß\"\\\\/\n/\u{1f}r#́ #a")] pub _lead: Box<u8>,
    #[serde(rename = "")] pub begin: [String; 2],
    pub ok23: bool,
    pub miniserde22: u8,
    #[serde(rename = "\t\u{0}﻿ 0")] pub r#use: String,
    pub Result0: Option<Box<Vec<u32>>>,
    pub trail_: u32,
    #[serde(rename = "\u{0}")] pub type16: i32,
    #[serde(rename = "#")] pub r#move: bool,
    pub err3: i32,
    pub r: Option<i32>,
    pub r15: String,
}
}
pub mod r4_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R4 {
    #[cfg(all())] #[serde(rename = "ｘ\u{7f}}á😀ｘ\"\\-﻿\"-'$\\ß")] #[doc = "x"] pub _lead: [u32; 2],
    /** block */ #[allow(unused)] #[serde(rename = "Zｘ#\u{1f}}",)] #[serde()] pub map26: u32,
}
}
pub mod r5_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R5 {
    /** block */ #[allow(unused)] #[serde()] pub r_1: String,
    #[serde()] #[serde(rename="\n")]
    pub self_: i32,
}
}
pub mod r6_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R6<T0: Copy> {
    pub map15: i32,
    pub a_b_c6: i32,
    #[serde(rename = ".{ｘ0b́\t'0\\0{'{./Z")] pub r12: T0,
    #[serde(rename = "\\r#")] pub self19: T0,
    pub type27: T0,
    #[serde(rename = "\u{0}é")] pub value: T0,
    pub key: u8,
    pub Option: Option<Vec<T0>>,
    pub __both__12: i32,
    #[serde(rename = "\"#'/é")] pub trail_: bool,
    pub err: String,
    pub trail_3: String,
    #[serde(rename = "#é")] pub id25: [i32; 2],
}
}
pub mod r7_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R7<T0> {
    #[rustfmt::skip] #[serde(rename = "")] pub a2: T0,
    /// a comment
    /// after
    pub a7: bool,
    #[allow(dead_code)] #[allow(non_snake_case)] pub name20: bool,
    #[doc(hidden)] #[doc = "x"] pub camelCase: T0,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = "\u{1f} \\")] #[serde()] pub x: u32,
}
}
pub mod r8_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R8<T0: Copy, T1: Clone> {
    /// a comment
    #[serde(rename = r#""#)] /// after
    pub x7: T1,
    #[allow(dead_code)] #[allow(non_snake_case)] pub b19: T0,
    #[doc(hidden)] #[doc = "x"] pub ok: bool,
}
}
pub mod r9_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R9 {
    pub key23: u32,
    pub name6: u32,
    pub begin: i32,
}
}
pub mod r10_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R10 {
    #[doc(hidden)] #[doc = "x"] pub имя4: String,
}
}
pub mod r11_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R11 {
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = "\n #😀}\u{0}\"0/")] #[serde()] pub miniserde: u32,
    /** block */ #[allow(unused)] #[serde(rename = "/{ßｘ0\u{7f}//r#\u{1f}\né/}😀\t\u{1f}")] pub str14: u32,
    #[serde()] pub next1: bool,
}
}
pub mod r12_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R12 {
    #[serde(rename = " . 😀\n./ｘ\"")] pub b: [BTreeMap<String, i32>; 2],
}
}
pub mod r13_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R13 {
    #[serde()] pub r11: Option<u32>,
    #[serde(rename=r#"/"#)]
    /// after
    pub camelCase2: Option<bool>,
    /// a comment
    #[allow(non_snake_case)] pub _lead0: [[u8; 2]; 2],
    #[allow(dead_code)] #[serde(rename = "\u{7f}")] #[doc = "x"] pub miniserde3: String,
    #[doc(hidden)] #[serde()] pub r#struct: Option<bool>,
    #[cfg(all())] pub r#if: Vec<i32>,
    /** block */ #[allow(unused)] pub name: i32,
    #[serde()] /// after
    pub Result: Box<Vec<String>>,
    #[serde(rename = "\u{0}/",)] #[allow(non_snake_case)] pub Name: i32,
    /// a comment
    #[serde(rename="}'\u{0}\u{1f}ｘr##﻿Z#b😀}b\t😀﻿.$ßb/😀\u{0}\u{1f} \u{0}é﻿́bbZ}$ß\"$b/")]
    #[doc = "x"] pub value22: u32,
    #[allow(dead_code)] #[serde()] pub trail_: Option<u32>,
    #[doc(hidden)] pub _lead4: u8,
    #[cfg(all())] pub null: bool,
}
}
pub mod r14_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R14 {
    /// after
    pub begin: bool,
}
}
pub mod r15_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct R15<T0: Clone, T1> {
    #[serde(rename = "\tr#ｘ")] pub str3: T1,
    pub a_b_c18: bool,
    #[serde(rename = "#")] pub r#ref: [i32; 2],
    pub r#impl: u8,
    #[serde(rename = "\u{1f}ｘ")] pub __both__15: BTreeMap<String, i32>,
    #[serde(rename = "r#}#\tb\n#﻿}")] pub begin: BTreeMap<String, T1>,
    #[serde(rename = "'\u{0}\u{1f}$😀😀\"́é\"ｘ$#\u{1f}\u{7f}\u{0}a")] pub r#move: T0,
    pub trail_3: Box<T0>,
    pub seq27: String,
    pub Option: T0,
    #[serde(rename = "{ /0😀'\"}﻿\u{7f}aa\u{0}﻿bZ ")] pub r_: T1,
    #[serde(rename = "")] pub next29: T0,
    pub a10: Option<bool>,
}
}
pub mod r0_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R0 {
    имя28,
}
}
pub mod r1_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R1 {
    /// a comment
    #[serde(rename = "}",)] len18,
    #[allow(dead_code)] /// after
    r#impl,
    #[doc(hidden)] #[rustfmt::skip] #[serde(rename = "a")] #[allow(non_snake_case)] größe22,
}
}
pub mod r2_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R2 {
    #[allow(dead_code)] /// after
    value12,
    #[doc(hidden)] #[allow(non_snake_case)] имя,
    #[cfg(all())] #[doc = "x"] r#dyn,
    /** block */ #[allow(unused)] #[serde(rename = r#"́-"#,)] #[serde()] a,
    #[serde()] SCREAM,
    #[rustfmt::skip] #[serde(rename = "ß\\0$\u{0}́#Z-0\n0Z\u{1f}😀'}ｘ $\u{0}r#é\"\\́'﻿é0.\t#\u{1f}Z\\\u{7f}\taa")] next1,
    /// a comment
    #[serde(rename = r#""#)] /// after
    r_,
    #[allow(dead_code)] #[allow(non_snake_case)] __both__26,
    #[doc(hidden)] #[doc = "x"] next14,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = r#".a{"#)] #[serde()] null9,
    /** block */ #[allow(unused)] #[serde(rename = "0.r#")] r#box,
    #[serde()] ok,
}
}
pub mod r3_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R3 {
    #[serde(rename = "\u{1f}﻿}")] r_18,
    #[serde(rename = "́a.b/́😀''﻿b{0́\taa")] b17,
}
}
pub mod r4_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R4 {
    #[cfg(all())] #[serde(rename = "'.́😀﻿0\t́#")] #[doc = "x"] Name9,
}
}
pub mod r5_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R5 {
    /** block */ #[allow(unused)] #[serde(rename = r#""#,)] #[serde()] r_,
    #[serde()] r_10,
    #[rustfmt::skip] #[serde(rename = "$ 0$aZ/$/")] Option16,
}
}
pub mod r6_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R6 {
    r#match,
}
}
pub mod r7_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R7 {
    Result6,
    /// a comment
    /// after
    a28,
    #[allow(dead_code)] #[allow(non_snake_case)] r#dyn,
    #[doc(hidden)] #[doc = "x"] value,
    #[cfg(all())] #[rustfmt::skip] #[serde(rename = "\"/ｘ\t\"")] #[serde()] ok3,
    /** block */ #[allow(unused)] id13,
    #[serde()] #[serde(rename = "\u{7f}",)] r#type,
    /// after
    r#in,
    /// a comment
    #[allow(non_snake_case)] key5,
    #[allow(dead_code)] #[serde(rename = "")] #[doc = "x"] map25,
    #[doc(hidden)] #[serde()] x16,
    #[cfg(all())] #[serde(rename="}0")]
    name,
}
}
pub mod r8_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R8 {
    /// a comment
    /// after
    map,
    #[allow(dead_code)] #[allow(non_snake_case)] rx7,
}
}
pub mod r9_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum R9 {
    #[serde(rename = "ß")] r#struct,
    #[serde(rename = "﻿Z{# ")] type27,
}
}
}
pub type E2R0 = g2::r0_e::R0;
model_enum!(E2R0 { имя28 = "имя28" });
pub type E2R1 = g2::r1_e::R1;
model_enum!(E2R1 { len18 = "}", r#impl = "impl", größe22 = "a" });
pub type E2R2 = g2::r2_e::R2;
model_enum!(E2R2 { value12 = "value12", имя = "имя", r#dyn = "dyn", a = "́-", SCREAM = "SCREAM", next1 = "ß\\0$\u{0}́#Z-0\n0Z\u{1f}😀'}ｘ $\u{0}r#é\"\\́'﻿é0.\t#\u{1f}Z\\\u{7f}\taa", r_ = "", __both__26 = "__both__26", next14 = "next14", null9 = ".a{", r#box = "0.r#", ok = "ok" });
pub type E2R3 = g2::r3_e::R3;
model_enum!(E2R3 { r_18 = "\u{1f}﻿}", b17 = "́a.b/́😀''﻿b{0́\taa" });
pub type E2R4 = g2::r4_e::R4;
model_enum!(E2R4 { Name9 = "'.́😀﻿0\t́#" });
pub type E2R5 = g2::r5_e::R5;
model_enum!(E2R5 { r_ = "", r_10 = "r_10", Option16 = "$ 0$aZ/$/" });
pub type E2R6 = g2::r6_e::R6;
model_enum!(E2R6 { r#match = "match" });
pub type E2R7 = g2::r7_e::R7;
model_enum!(E2R7 { Result6 = "Result6", a28 = "a28", r#dyn = "dyn", value = "value", ok3 = "\"/ｘ\t\"", id13 = "id13", r#type = "\u{7f}", r#in = "in", key5 = "key5", map25 = "", x16 = "x16", name = "}0" });
pub type E2R8 = g2::r8_e::R8;
model_enum!(E2R8 { map = "map", rx7 = "rx7" });
pub type E2R9 = g2::r9_e::R9;
model_enum!(E2R9 { r#struct = "ß", type27 = "﻿Z{# " });
pub type S2R0 = g2::r0_s::R0;
model!(S2R0 { имя17: Box<String> = "#'", a: bool = "a", len18: u32 = "é", Option17: i32 = "😀{﻿ｘ\t-\u{1f} ß} r#{́ ́#﻿\\/\nß\\😀ér#😀\"r#-\u{7f}#b/0}́\"\u{0}Z", Option28: String = "Option28", next: i32 = "\\", r#type: String = "aZ", usize14: Option<i32> = "", name: BTreeMap<String, i32> = "name", Option: u32 = "a{", r#ref: bool = " ß", seq21: u8 = "﻿-ｘ﻿} a\t\t" });
pub type S2R1 = g2::r1_s::R1<u8, String>;
model!(S2R1 { Name22: String = "}", r#match: [bool; 2] = "match", seq3: BTreeMap<String, u8> = "seq3", value: Option<u8> = "value", имя23: i32 = "имя23", r#in: u32 = "in", r#impl: u32 = "impl", größe4: bool = "größe4", ok15: i32 = "ok15", SCREAM: String = ".", map29: Box<u8> = "\\}", Name: u32 = "Name", _lead: u8 = "_lead" });
pub type S2R2 = g2::r2_s::R2;
model!(S2R2 { r#match: Vec<u32> = "match", trail_1: u32 = "trail_1", ok: i32 = "ok", r#impl: String = "\u{0}ß#", next26: Vec<u32> = "next26" });
pub type S2R3 = g2::r3_s::R3;
model!(S2R3 { value26: i32 = "value26", _lead: Box<u8> = "#  bß\"\\\\/\n/\u{1f}r#́ #a", begin: [String; 2] = "", ok23: bool = "ok23", miniserde22: u8 = "miniserde22", r#use: String = "\t\u{0}﻿ 0", Result0: Option<Box<Vec<u32>>> = "Result0", trail_: u32 = "trail_", type16: i32 = "\u{0}", r#move: bool = "#", err3: i32 = "err3", r: Option<i32> = "r", r15: String = "r15" });
pub type S2R4 = g2::r4_s::R4;
model!(S2R4 { _lead: [u32; 2] = "ｘ\u{7f}}á😀ｘ\"\\-﻿\"-'$\\ß", map26: u32 = "Zｘ#\u{1f}}" });
pub type S2R5 = g2::r5_s::R5;
model!(S2R5 { r_1: String = "r_1", self_: i32 = "\n" });
pub type S2R6 = g2::r6_s::R6<u8>;
model!(S2R6 { map15: i32 = "map15", a_b_c6: i32 = "a_b_c6", r12: u8 = ".{ｘ0b́\t'0\\0{'{./Z", self19: u8 = "\\r#", type27: u8 = "type27", value: u8 = "\u{0}é", key: u8 = "key", Option: Option<Vec<u8>> = "Option", __both__12: i32 = "__both__12", trail_: bool = "\"#'/é", err: String = "err", trail_3: String = "trail_3", id25: [i32; 2] = "#é" });
pub type S2R7 = g2::r7_s::R7<u8>;
model!(S2R7 { a2: u8 = "", a7: bool = "a7", name20: bool = "name20", camelCase: u8 = "camelCase", x: u32 = "\u{1f} \\" });
pub type S2R8 = g2::r8_s::R8<u8, String>;
model!(S2R8 { x7: String = "", b19: u8 = "b19", ok: bool = "ok" });
pub type S2R9 = g2::r9_s::R9;
model!(S2R9 { key23: u32 = "key23", name6: u32 = "name6", begin: i32 = "begin" });
pub type S2R10 = g2::r10_s::R10;
model!(S2R10 { имя4: String = "имя4" });
pub type S2R11 = g2::r11_s::R11;
model!(S2R11 { miniserde: u32 = "\n #😀}\u{0}\"0/", str14: u32 = "/{ßｘ0\u{7f}//r#\u{1f}\né/}😀\t\u{1f}", next1: bool = "next1" });
pub type S2R12 = g2::r12_s::R12;
model!(S2R12 { b: [BTreeMap<String, i32>; 2] = " . 😀\n./ｘ\"" });
pub type S2R13 = g2::r13_s::R13;
model!(S2R13 { r11: Option<u32> = "r11", camelCase2: Option<bool> = "/", _lead0: [[u8; 2]; 2] = "_lead0", miniserde3: String = "\u{7f}", r#struct: Option<bool> = "struct", r#if: Vec<i32> = "if", name: i32 = "name", Result: Box<Vec<String>> = "Result", Name: i32 = "\u{0}/", value22: u32 = "}'\u{0}\u{1f}ｘr##﻿Z#b😀}b\t😀﻿.$ßb/😀\u{0}\u{1f} \u{0}é﻿́bbZ}$ß\"$b/", trail_: Option<u32> = "trail_", _lead4: u8 = "_lead4", null: bool = "null" });
pub type S2R14 = g2::r14_s::R14;
model!(S2R14 { begin: bool = "begin" });
pub type S2R15 = g2::r15_s::R15<u8, String>;
model!(S2R15 { str3: String = "\tr#ｘ", a_b_c18: bool = "a_b_c18", r#ref: [i32; 2] = "#", r#impl: u8 = "impl", __both__15: BTreeMap<String, i32> = "\u{1f}ｘ", begin: BTreeMap<String, String> = "r#}#\tb\n#﻿}", r#move: u8 = "'\u{0}\u{1f}$😀😀\"́é\"ｘ$#\u{1f}\u{7f}\u{0}a", trail_3: Box<u8> = "trail_3", seq27: String = "seq27", Option: u8 = "Option", r_: String = "{ /0😀'\"}﻿\u{7f}aa\u{0}﻿bZ ", next29: u8 = "", a10: Option<bool> = "a10" });
pub mod g3 {
pub mod wide31_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Wide31 {
    #[serde(rename = " f0 ")] pub f0: u8,
    pub f1: Option<u8>,
    pub f2: String,
    pub f3: bool,
    pub f4: u8,
    #[serde(rename = " f5 ")] pub f5: u8,
    pub f6: String,
    pub f7: u8,
    pub f8: Option<u8>,
    pub f9: String,
    #[serde(rename = " f10 ")] pub f10: u8,
    pub f11: u8,
    pub f12: Option<u8>,
    pub f13: String,
    pub f14: u8,
    #[serde(rename = " f15 ")] pub f15: u8,
    pub f16: String,
    pub f17: bool,
    pub f18: u8,
    pub f19: Option<u8>,
    #[serde(rename = " f20 ")] pub f20: u8,
    pub f21: u8,
    pub f22: Option<u8>,
    pub f23: String,
    pub f24: bool,
    #[serde(rename = " f25 ")] pub f25: u8,
    pub f26: Option<u8>,
    pub f27: String,
    pub f28: u8,
    pub f29: Option<u8>,
    #[serde(rename = " f30 ")] pub f30: u8,
}
}
pub mod wide33_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Wide33 {
    #[serde(rename = " f0 ")] pub f0: u8,
    pub f1: Option<u8>,
    pub f2: String,
    pub f3: bool,
    pub f4: u8,
    #[serde(rename = " f5 ")] pub f5: u8,
    pub f6: String,
    pub f7: u8,
    pub f8: Option<u8>,
    pub f9: String,
    #[serde(rename = " f10 ")] pub f10: u8,
    pub f11: u8,
    pub f12: Option<u8>,
    pub f13: String,
    pub f14: u8,
    #[serde(rename = " f15 ")] pub f15: u8,
    pub f16: String,
    pub f17: bool,
    pub f18: u8,
    pub f19: Option<u8>,
    #[serde(rename = " f20 ")] pub f20: u8,
    pub f21: u8,
    pub f22: Option<u8>,
    pub f23: String,
    pub f24: bool,
    #[serde(rename = " f25 ")] pub f25: u8,
    pub f26: Option<u8>,
    pub f27: String,
    pub f28: u8,
    pub f29: Option<u8>,
    #[serde(rename = " f30 ")] pub f30: u8,
    pub f31: bool,
    pub f32: u8,
}
}
pub mod wide65_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Wide65 {
    #[serde(rename = " f0 ")] pub f0: u8,
    pub f1: Option<u8>,
    pub f2: String,
    pub f3: bool,
    pub f4: u8,
    #[serde(rename = " f5 ")] pub f5: u8,
    pub f6: String,
    pub f7: u8,
    pub f8: Option<u8>,
    pub f9: String,
    #[serde(rename = " f10 ")] pub f10: u8,
    pub f11: u8,
    pub f12: Option<u8>,
    pub f13: String,
    pub f14: u8,
    #[serde(rename = " f15 ")] pub f15: u8,
    pub f16: String,
    pub f17: bool,
    pub f18: u8,
    pub f19: Option<u8>,
    #[serde(rename = " f20 ")] pub f20: u8,
    pub f21: u8,
    pub f22: Option<u8>,
    pub f23: String,
    pub f24: bool,
    #[serde(rename = " f25 ")] pub f25: u8,
    pub f26: Option<u8>,
    pub f27: String,
    pub f28: u8,
    pub f29: Option<u8>,
    #[serde(rename = " f30 ")] pub f30: u8,
    pub f31: bool,
    pub f32: u8,
    pub f33: Option<u8>,
    pub f34: String,
    #[serde(rename = " f35 ")] pub f35: u8,
    pub f36: Option<u8>,
    pub f37: String,
    pub f38: bool,
    pub f39: u8,
    #[serde(rename = " f40 ")] pub f40: u8,
    pub f41: String,
    pub f42: u8,
    pub f43: Option<u8>,
    pub f44: String,
    #[serde(rename = " f45 ")] pub f45: u8,
    pub f46: u8,
    pub f47: Option<u8>,
    pub f48: String,
    pub f49: u8,
    #[serde(rename = " f50 ")] pub f50: u8,
    pub f51: String,
    pub f52: bool,
    pub f53: u8,
    pub f54: Option<u8>,
    #[serde(rename = " f55 ")] pub f55: u8,
    pub f56: u8,
    pub f57: Option<u8>,
    pub f58: String,
    pub f59: bool,
    #[serde(rename = " f60 ")] pub f60: u8,
    pub f61: Option<u8>,
    pub f62: String,
    pub f63: u8,
    pub f64: Option<u8>,
}
}
pub mod wide130_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Wide130 {
    #[serde(rename = " f0 ")] pub f0: u8,
    pub f1: Option<u8>,
    pub f2: String,
    pub f3: bool,
    pub f4: u8,
    #[serde(rename = " f5 ")] pub f5: u8,
    pub f6: String,
    pub f7: u8,
    pub f8: Option<u8>,
    pub f9: String,
    #[serde(rename = " f10 ")] pub f10: u8,
    pub f11: u8,
    pub f12: Option<u8>,
    pub f13: String,
    pub f14: u8,
    #[serde(rename = " f15 ")] pub f15: u8,
    pub f16: String,
    pub f17: bool,
    pub f18: u8,
    pub f19: Option<u8>,
    #[serde(rename = " f20 ")] pub f20: u8,
    pub f21: u8,
    pub f22: Option<u8>,
    pub f23: String,
    pub f24: bool,
    #[serde(rename = " f25 ")] pub f25: u8,
    pub f26: Option<u8>,
    pub f27: String,
    pub f28: u8,
    pub f29: Option<u8>,
    #[serde(rename = " f30 ")] pub f30: u8,
    pub f31: bool,
    pub f32: u8,
    pub f33: Option<u8>,
    pub f34: String,
    #[serde(rename = " f35 ")] pub f35: u8,
    pub f36: Option<u8>,
    pub f37: String,
    pub f38: bool,
    pub f39: u8,
    #[serde(rename = " f40 ")] pub f40: u8,
    pub f41: String,
    pub f42: u8,
    pub f43: Option<u8>,
    pub f44: String,
    #[serde(rename = " f45 ")] pub f45: u8,
    pub f46: u8,
    pub f47: Option<u8>,
    pub f48: String,
    pub f49: u8,
    #[serde(rename = " f50 ")] pub f50: u8,
    pub f51: String,
    pub f52: bool,
    pub f53: u8,
    pub f54: Option<u8>,
    #[serde(rename = " f55 ")] pub f55: u8,
    pub f56: u8,
    pub f57: Option<u8>,
    pub f58: String,
    pub f59: bool,
    #[serde(rename = " f60 ")] pub f60: u8,
    pub f61: Option<u8>,
    pub f62: String,
    pub f63: u8,
    pub f64: Option<u8>,
    #[serde(rename = " f65 ")] pub f65: u8,
    pub f66: bool,
    pub f67: u8,
    pub f68: Option<u8>,
    pub f69: String,
    #[serde(rename = " f70 ")] pub f70: u8,
    pub f71: Option<u8>,
    pub f72: String,
    pub f73: bool,
    pub f74: u8,
    #[serde(rename = " f75 ")] pub f75: u8,
    pub f76: String,
    pub f77: u8,
    pub f78: Option<u8>,
    pub f79: String,
    #[serde(rename = " f80 ")] pub f80: u8,
    pub f81: u8,
    pub f82: Option<u8>,
    pub f83: String,
    pub f84: u8,
    #[serde(rename = " f85 ")] pub f85: u8,
    pub f86: String,
    pub f87: bool,
    pub f88: u8,
    pub f89: Option<u8>,
    #[serde(rename = " f90 ")] pub f90: u8,
    pub f91: u8,
    pub f92: Option<u8>,
    pub f93: String,
    pub f94: bool,
    #[serde(rename = " f95 ")] pub f95: u8,
    pub f96: Option<u8>,
    pub f97: String,
    pub f98: u8,
    pub f99: Option<u8>,
    #[serde(rename = " f100 ")] pub f100: u8,
    pub f101: bool,
    pub f102: u8,
    pub f103: Option<u8>,
    pub f104: String,
    #[serde(rename = " f105 ")] pub f105: u8,
    pub f106: Option<u8>,
    pub f107: String,
    pub f108: bool,
    pub f109: u8,
    #[serde(rename = " f110 ")] pub f110: u8,
    pub f111: String,
    pub f112: u8,
    pub f113: Option<u8>,
    pub f114: String,
    #[serde(rename = " f115 ")] pub f115: u8,
    pub f116: u8,
    pub f117: Option<u8>,
    pub f118: String,
    pub f119: u8,
    #[serde(rename = " f120 ")] pub f120: u8,
    pub f121: String,
    pub f122: bool,
    pub f123: u8,
    pub f124: Option<u8>,
    #[serde(rename = " f125 ")] pub f125: u8,
    pub f126: u8,
    pub f127: Option<u8>,
    pub f128: String,
    pub f129: bool,
}
}
pub mod blank_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Blank {
    #[serde(rename = " a")] pub a: u8,
    #[serde(rename = "a ")] pub b: u8,
    #[serde(rename = "a")] pub c: Option<u8>,
    #[serde(rename = " ")] pub d: u8,
    #[serde(rename = "\n")] pub e: bool,
    #[serde(rename = "　x\u{a0}")] pub f: String,
}
}
pub mod cases_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Debug, Serialize, Deserialize)]
pub struct Cases {
    pub aa: u8,
    pub AA: u8,
    #[serde(rename = "Aa")] pub b: u8,
    #[serde(rename = "aA")] pub c: u8,
    #[serde(rename = "É")] pub d: u8,
    #[serde(rename = "é")] pub e: u8,
}
}
pub mod wide33_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Wide33 {
    #[serde(rename = " v0")] V0,
    V1,
    V2,
    V3,
    V4,
    #[serde(rename = "v5\t")] V5,
    V6,
    V7,
    V8,
    V9,
    #[serde(rename = "v 10")] V10,
    V11,
    V12,
    V13,
    V14,
    #[serde(rename = "V15.")] V15,
    V16,
    V17,
    V18,
    V19,
    #[serde(rename = " v20")] V20,
    V21,
    V22,
    V23,
    V24,
    #[serde(rename = "v25\t")] V25,
    V26,
    V27,
    V28,
    V29,
    #[serde(rename = "v 30")] V30,
    V31,
    V32,
}
}
pub mod wide70_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Wide70 {
    #[serde(rename = " v0")] V0,
    V1,
    V2,
    V3,
    V4,
    #[serde(rename = "v5\t")] V5,
    V6,
    V7,
    V8,
    V9,
    #[serde(rename = "v 10")] V10,
    V11,
    V12,
    V13,
    V14,
    #[serde(rename = "V15.")] V15,
    V16,
    V17,
    V18,
    V19,
    #[serde(rename = " v20")] V20,
    V21,
    V22,
    V23,
    V24,
    #[serde(rename = "v25\t")] V25,
    V26,
    V27,
    V28,
    V29,
    #[serde(rename = "v 30")] V30,
    V31,
    V32,
    V33,
    V34,
    #[serde(rename = "V35.")] V35,
    V36,
    V37,
    V38,
    V39,
    #[serde(rename = " v40")] V40,
    V41,
    V42,
    V43,
    V44,
    #[serde(rename = "v45\t")] V45,
    V46,
    V47,
    V48,
    V49,
    #[serde(rename = "v 50")] V50,
    V51,
    V52,
    V53,
    V54,
    #[serde(rename = "V55.")] V55,
    V56,
    V57,
    V58,
    V59,
    #[serde(rename = " v60")] V60,
    V61,
    V62,
    V63,
    V64,
    #[serde(rename = "v65\t")] V65,
    V66,
    V67,
    V68,
    V69,
}
}
pub mod blank_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Blank {
    #[serde(rename = " a")] A,
    #[serde(rename = "a ")] B,
    #[serde(rename = "a")] C,
    #[serde(rename = " ")] D,
    #[serde(rename = "\n")] E,
    #[serde(rename = "　x\u{a0}")] F,
    #[serde(rename = "G\t")] G,
    #[serde(rename = "g")] H,
}
}
pub mod cases_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Debug, Serialize, Deserialize)]
pub enum Cases {
    Aa,
    AA,
    #[serde(rename = "aa")] Bb,
    #[serde(rename = "aA")] Cc,
    #[serde(rename = "É")] CcC,
    #[serde(rename = "é")] Dd,
}
}
}
pub type E3Wide33 = g3::wide33_e::Wide33;
model_enum!(E3Wide33 { V0 = " v0", V1 = "V1", V2 = "V2", V3 = "V3", V4 = "V4", V5 = "v5\t", V6 = "V6", V7 = "V7", V8 = "V8", V9 = "V9", V10 = "v 10", V11 = "V11", V12 = "V12", V13 = "V13", V14 = "V14", V15 = "V15.", V16 = "V16", V17 = "V17", V18 = "V18", V19 = "V19", V20 = " v20", V21 = "V21", V22 = "V22", V23 = "V23", V24 = "V24", V25 = "v25\t", V26 = "V26", V27 = "V27", V28 = "V28", V29 = "V29", V30 = "v 30", V31 = "V31", V32 = "V32" });
pub type E3Wide70 = g3::wide70_e::Wide70;
model_enum!(E3Wide70 { V0 = " v0", V1 = "V1", V2 = "V2", V3 = "V3", V4 = "V4", V5 = "v5\t", V6 = "V6", V7 = "V7", V8 = "V8", V9 = "V9", V10 = "v 10", V11 = "V11", V12 = "V12", V13 = "V13", V14 = "V14", V15 = "V15.", V16 = "V16", V17 = "V17", V18 = "V18", V19 = "V19", V20 = " v20", V21 = "V21", V22 = "V22", V23 = "V23", V24 = "V24", V25 = "v25\t", V26 = "V26", V27 = "V27", V28 = "V28", V29 = "V29", V30 = "v 30", V31 = "V31", V32 = "V32", V33 = "V33", V34 = "V34", V35 = "V35.", V36 = "V36", V37 = "V37", V38 = "V38", V39 = "V39", V40 = " v40", V41 = "V41", V42 = "V42", V43 = "V43", V44 = "V44", V45 = "v45\t", V46 = "V46", V47 = "V47", V48 = "V48", V49 = "V49", V50 = "v 50", V51 = "V51", V52 = "V52", V53 = "V53", V54 = "V54", V55 = "V55.", V56 = "V56", V57 = "V57", V58 = "V58", V59 = "V59", V60 = " v60", V61 = "V61", V62 = "V62", V63 = "V63", V64 = "V64", V65 = "v65\t", V66 = "V66", V67 = "V67", V68 = "V68", V69 = "V69" });
pub type E3Blank = g3::blank_e::Blank;
model_enum!(E3Blank { A = " a", B = "a ", C = "a", D = " ", E = "\n", F = "　x\u{a0}", G = "G\t", H = "g" });
pub type E3Cases = g3::cases_e::Cases;
model_enum!(E3Cases { Aa = "Aa", AA = "AA", Bb = "aa", Cc = "aA", CcC = "É", Dd = "é" });
pub type S3Wide31 = g3::wide31_s::Wide31;
model!(S3Wide31 { f0: u8 = " f0 ", f1: Option<u8> = "f1", f2: String = "f2", f3: bool = "f3", f4: u8 = "f4", f5: u8 = " f5 ", f6: String = "f6", f7: u8 = "f7", f8: Option<u8> = "f8", f9: String = "f9", f10: u8 = " f10 ", f11: u8 = "f11", f12: Option<u8> = "f12", f13: String = "f13", f14: u8 = "f14", f15: u8 = " f15 ", f16: String = "f16", f17: bool = "f17", f18: u8 = "f18", f19: Option<u8> = "f19", f20: u8 = " f20 ", f21: u8 = "f21", f22: Option<u8> = "f22", f23: String = "f23", f24: bool = "f24", f25: u8 = " f25 ", f26: Option<u8> = "f26", f27: String = "f27", f28: u8 = "f28", f29: Option<u8> = "f29", f30: u8 = " f30 " });
pub type S3Wide33 = g3::wide33_s::Wide33;
model!(S3Wide33 { f0: u8 = " f0 ", f1: Option<u8> = "f1", f2: String = "f2", f3: bool = "f3", f4: u8 = "f4", f5: u8 = " f5 ", f6: String = "f6", f7: u8 = "f7", f8: Option<u8> = "f8", f9: String = "f9", f10: u8 = " f10 ", f11: u8 = "f11", f12: Option<u8> = "f12", f13: String = "f13", f14: u8 = "f14", f15: u8 = " f15 ", f16: String = "f16", f17: bool = "f17", f18: u8 = "f18", f19: Option<u8> = "f19", f20: u8 = " f20 ", f21: u8 = "f21", f22: Option<u8> = "f22", f23: String = "f23", f24: bool = "f24", f25: u8 = " f25 ", f26: Option<u8> = "f26", f27: String = "f27", f28: u8 = "f28", f29: Option<u8> = "f29", f30: u8 = " f30 ", f31: bool = "f31", f32: u8 = "f32" });
pub type S3Wide65 = g3::wide65_s::Wide65;
model!(S3Wide65 { f0: u8 = " f0 ", f1: Option<u8> = "f1", f2: String = "f2", f3: bool = "f3", f4: u8 = "f4", f5: u8 = " f5 ", f6: String = "f6", f7: u8 = "f7", f8: Option<u8> = "f8", f9: String = "f9", f10: u8 = " f10 ", f11: u8 = "f11", f12: Option<u8> = "f12", f13: String = "f13", f14: u8 = "f14", f15: u8 = " f15 ", f16: String = "f16", f17: bool = "f17", f18: u8 = "f18", f19: Option<u8> = "f19", f20: u8 = " f20 ", f21: u8 = "f21", f22: Option<u8> = "f22", f23: String = "f23", f24: bool = "f24", f25: u8 = " f25 ", f26: Option<u8> = "f26", f27: String = "f27", f28: u8 = "f28", f29: Option<u8> = "f29", f30: u8 = " f30 ", f31: bool = "f31", f32: u8 = "f32", f33: Option<u8> = "f33", f34: String = "f34", f35: u8 = " f35 ", f36: Option<u8> = "f36", f37: String = "f37", f38: bool = "f38", f39: u8 = "f39", f40: u8 = " f40 ", f41: String = "f41", f42: u8 = "f42", f43: Option<u8> = "f43", f44: String = "f44", f45: u8 = " f45 ", f46: u8 = "f46", f47: Option<u8> = "f47", f48: String = "f48", f49: u8 = "f49", f50: u8 = " f50 ", f51: String = "f51", f52: bool = "f52", f53: u8 = "f53", f54: Option<u8> = "f54", f55: u8 = " f55 ", f56: u8 = "f56", f57: Option<u8> = "f57", f58: String = "f58", f59: bool = "f59", f60: u8 = " f60 ", f61: Option<u8> = "f61", f62: String = "f62", f63: u8 = "f63", f64: Option<u8> = "f64" });
pub type S3Wide130 = g3::wide130_s::Wide130;
model!(S3Wide130 { f0: u8 = " f0 ", f1: Option<u8> = "f1", f2: String = "f2", f3: bool = "f3", f4: u8 = "f4", f5: u8 = " f5 ", f6: String = "f6", f7: u8 = "f7", f8: Option<u8> = "f8", f9: String = "f9", f10: u8 = " f10 ", f11: u8 = "f11", f12: Option<u8> = "f12", f13: String = "f13", f14: u8 = "f14", f15: u8 = " f15 ", f16: String = "f16", f17: bool = "f17", f18: u8 = "f18", f19: Option<u8> = "f19", f20: u8 = " f20 ", f21: u8 = "f21", f22: Option<u8> = "f22", f23: String = "f23", f24: bool = "f24", f25: u8 = " f25 ", f26: Option<u8> = "f26", f27: String = "f27", f28: u8 = "f28", f29: Option<u8> = "f29", f30: u8 = " f30 ", f31: bool = "f31", f32: u8 = "f32", f33: Option<u8> = "f33", f34: String = "f34", f35: u8 = " f35 ", f36: Option<u8> = "f36", f37: String = "f37", f38: bool = "f38", f39: u8 = "f39", f40: u8 = " f40 ", f41: String = "f41", f42: u8 = "f42", f43: Option<u8> = "f43", f44: String = "f44", f45: u8 = " f45 ", f46: u8 = "f46", f47: Option<u8> = "f47", f48: String = "f48", f49: u8 = "f49", f50: u8 = " f50 ", f51: String = "f51", f52: bool = "f52", f53: u8 = "f53", f54: Option<u8> = "f54", f55: u8 = " f55 ", f56: u8 = "f56", f57: Option<u8> = "f57", f58: String = "f58", f59: bool = "f59", f60: u8 = " f60 ", f61: Option<u8> = "f61", f62: String = "f62", f63: u8 = "f63", f64: Option<u8> = "f64", f65: u8 = " f65 ", f66: bool = "f66", f67: u8 = "f67", f68: Option<u8> = "f68", f69: String = "f69", f70: u8 = " f70 ", f71: Option<u8> = "f71", f72: String = "f72", f73: bool = "f73", f74: u8 = "f74", f75: u8 = " f75 ", f76: String = "f76", f77: u8 = "f77", f78: Option<u8> = "f78", f79: String = "f79", f80: u8 = " f80 ", f81: u8 = "f81", f82: Option<u8> = "f82", f83: String = "f83", f84: u8 = "f84", f85: u8 = " f85 ", f86: String = "f86", f87: bool = "f87", f88: u8 = "f88", f89: Option<u8> = "f89", f90: u8 = " f90 ", f91: u8 = "f91", f92: Option<u8> = "f92", f93: String = "f93", f94: bool = "f94", f95: u8 = " f95 ", f96: Option<u8> = "f96", f97: String = "f97", f98: u8 = "f98", f99: Option<u8> = "f99", f100: u8 = " f100 ", f101: bool = "f101", f102: u8 = "f102", f103: Option<u8> = "f103", f104: String = "f104", f105: u8 = " f105 ", f106: Option<u8> = "f106", f107: String = "f107", f108: bool = "f108", f109: u8 = "f109", f110: u8 = " f110 ", f111: String = "f111", f112: u8 = "f112", f113: Option<u8> = "f113", f114: String = "f114", f115: u8 = " f115 ", f116: u8 = "f116", f117: Option<u8> = "f117", f118: String = "f118", f119: u8 = "f119", f120: u8 = " f120 ", f121: String = "f121", f122: bool = "f122", f123: u8 = "f123", f124: Option<u8> = "f124", f125: u8 = " f125 ", f126: u8 = "f126", f127: Option<u8> = "f127", f128: String = "f128", f129: bool = "f129" });
pub type S3Blank = g3::blank_s::Blank;
model!(S3Blank { a: u8 = " a", b: u8 = "a ", c: Option<u8> = "a", d: u8 = " ", e: bool = "\n", f: String = "　x\u{a0}" });
pub type S3Cases = g3::cases_s::Cases;
model!(S3Cases { aa: u8 = "aa", AA: u8 = "AA", b: u8 = "Aa", c: u8 = "aA", d: u8 = "É", e: u8 = "é" });
#[macro_export] macro_rules! derived_gen_types { ($m:ident [$($t:ty),* $(,)?]) => { $m![$($t,)* crate::derived_gen::E0Deco, crate::derived_gen::E0Color, crate::derived_gen::E0Single, crate::derived_gen::E0Odd, crate::derived_gen::E0Disc, crate::derived_gen::E0Near, crate::derived_gen::E0Big, crate::derived_gen::S0Deco, crate::derived_gen::S0Zero, crate::derived_gen::S0One, crate::derived_gen::S0Plain, crate::derived_gen::S0Three, crate::derived_gen::S0Opt, crate::derived_gen::S0Ren, crate::derived_gen::S0Raw, crate::derived_gen::S0Cross, crate::derived_gen::S0Near, crate::derived_gen::S0Gen, crate::derived_gen::S0ConstN, crate::derived_gen::S0Odd, crate::derived_gen::S0Many, crate::derived_gen::E1R0, crate::derived_gen::E1R1, crate::derived_gen::E1R2, crate::derived_gen::E1R3, crate::derived_gen::E1R4, crate::derived_gen::E1R5, crate::derived_gen::E1R6, crate::derived_gen::E1R7, crate::derived_gen::E1R8, crate::derived_gen::E1R9, crate::derived_gen::S1R0, crate::derived_gen::S1R1, crate::derived_gen::S1R2, crate::derived_gen::S1R3, crate::derived_gen::S1R4, crate::derived_gen::S1R5, crate::derived_gen::S1R6, crate::derived_gen::S1R7, crate::derived_gen::S1R8, crate::derived_gen::S1R9, crate::derived_gen::S1R10, crate::derived_gen::S1R11, crate::derived_gen::S1R12, crate::derived_gen::S1R13, crate::derived_gen::S1R14, crate::derived_gen::S1R15, crate::derived_gen::E2R0, crate::derived_gen::E2R1, crate::derived_gen::E2R2, crate::derived_gen::E2R3, crate::derived_gen::E2R4, crate::derived_gen::E2R5, crate::derived_gen::E2R6, crate::derived_gen::E2R7, crate::derived_gen::E2R8, crate::derived_gen::E2R9, crate::derived_gen::S2R0, crate::derived_gen::S2R1, crate::derived_gen::S2R2, crate::derived_gen::S2R3, crate::derived_gen::S2R4, crate::derived_gen::S2R5, crate::derived_gen::S2R6, crate::derived_gen::S2R7, crate::derived_gen::S2R8, crate::derived_gen::S2R9, crate::derived_gen::S2R10, crate::derived_gen::S2R11, crate::derived_gen::S2R12, crate::derived_gen::S2R13, crate::derived_gen::S2R14, crate::derived_gen::S2R15, crate::derived_gen::E3Wide33, crate::derived_gen::E3Wide70, crate::derived_gen::E3Blank, crate::derived_gen::E3Cases, crate::derived_gen::S3Wide31, crate::derived_gen::S3Wide33, crate::derived_gen::S3Wide65, crate::derived_gen::S3Wide130, crate::derived_gen::S3Blank, crate::derived_gen::S3Cases] } }

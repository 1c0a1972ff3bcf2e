// written by tools/gen_derive.py
#![allow(dead_code, non_snake_case)]
pub mod deco_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Deco {
    #[serde(rename = "n \"0\\")] pub m0: u8,
    /// a comment
    pub m1: Option<u8>,
    #[allow(dead_code)] #[serde(rename=r#"n "2\"#)]
    /// after
    pub m2: u8,
    #[doc(hidden)] #[allow(non_snake_case)] pub m3: u8,
    #[cfg(all())] #[serde(rename = "n \"4\\")] #[doc = "x"] pub m4: u8,
    /** block */ #[allow(unused)] #[serde()] pub m5: Option<u8>,
    #[serde()] #[serde(rename="n \"6\\")]
    pub m6: u8,
    pub m7: u8,
    /// a comment
    #[serde(rename = r#"n "8\"#)] /// after
    pub m8: u8,
    #[allow(dead_code)] #[allow(non_snake_case)] pub m9: Option<u8>,
    #[doc(hidden)] #[serde(rename="n \"10\\")]
    #[doc = "x"] pub m10: u8,
    #[cfg(all())] #[serde()] pub m11: u8,
    /** block */ #[allow(unused)] #[serde(rename = "n \"12\\")] pub m12: u8,
    #[serde()] pub m13: Option<u8>,
}
}
pub mod zero_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Zero {
}
}
pub mod one_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct One<A> {
    pub a: A,
}
}
pub mod plain_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Plain {
    pub id: u32,
    pub name: String,
    pub tags: Vec<String>,
    pub extra: Option<Box<u8>>,
    pub ok: bool,
}
}
pub mod three_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Three<A, B, C> {
    pub first: A,
    pub second: B,
    pub third: C,
}
}
pub mod opt_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Opt<A, B, C> {
    pub x: Option<A>,
    pub y: Option<Option<B>>,
    pub z: C,
}
}
pub mod ren_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Ren {
    #[serde(rename = "type")] pub ty: String,
    #[serde(rename = "")] pub empty: u8,
    #[serde(rename = "q\"u\\o\nte")] pub quote: u8,
    #[serde(rename = "émoji 😀")] pub uni: Option<bool>,
    #[serde(rename = "ty")] pub other: i32,
}
}
pub mod raw_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Raw<A> {
    pub r#type: u8,
    pub r#match: A,
    pub r#fn: Option<u8>,
    pub r: u8,
    #[serde(rename = "r#x")] pub x: u8,
}
}
pub mod cross_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Cross {
    #[serde(rename = "b")] pub a: u8,
    #[serde(rename = "c")] pub b: u8,
    #[serde(rename = "a")] pub c: u8,
}
}
pub mod near_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Near {
    pub ab: u8,
    pub a: u8,
    pub abc: u8,
    pub Ab: u8,
    #[serde(rename = "ab ")] pub b: u8,
}
}
pub mod gen_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Gen<T, U> where U: Clone {
    pub t: T,
    pub us: Vec<U>,
    pub m: BTreeMap<String, T>,
}
}
pub mod constn_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct ConstN<T: Clone, const N: usize> {
    pub arr: [T; N],
    pub n: u8,
}
}
pub mod odd_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct __Odd {
    pub state: u8,
    pub data: u8,
    pub out: Option<u8>,
    pub value: u8,
    pub s: u8,
    pub k: u8,
    pub key: u8,
    pub finish: u8,
}
}
pub mod many_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct Many {
    pub f0: Option<u8>,
    pub f1: u8,
    pub f2: u8,
    pub f3: Option<u8>,
    pub f4: u8,
    pub f5: u8,
    pub f6: Option<u8>,
    pub f7: u8,
    pub f8: u8,
    pub f9: Option<u8>,
    pub f10: u8,
    pub f11: u8,
}
}
pub mod borrowed_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize)]
pub struct Borrowed<'a, T> {
    pub s: &'a str,
    pub t: &'a T,
    #[serde(rename = "the slice")] pub sl: &'a [u8],
}
}
pub mod r0_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R0<T0: Clone> {
    #[serde(rename = "r#$.")] pub Option: i32,
    pub self15: Option<i32>,
    pub Name16: T0,
}
}
pub mod r1_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R1 {
    /// a comment
    pub Name17: u32,
    #[allow(dead_code)] #[serde(rename="\nß\u{1f}$́")]
    /// after
    pub str8: u8,
    #[doc(hidden)] #[rustfmt::skip] #[serde(rename = "ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\.")] #[allow(non_snake_case)] pub r#move: Vec<bool>,
}
}
pub mod r2_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R2<T0: Copy, T1: Copy, T2: Clone> {
    #[allow(dead_code)] /// after
    pub r#in: i32,
    #[doc(hidden)] #[allow(non_snake_case)] pub value9: T0,
    #[cfg(all())] #[doc = "x"] pub r#if: T1,
    /** block */ #[allow(unused)] #[serde()] pub r#ref: T0,
    #[serde()] pub r21: T2,
}
}
pub mod r3_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R3<T0: Copy, T1: Clone> {
    pub next2: T0,
    #[serde(rename = "b-")] pub rx15: Vec<u8>,
    pub true27: T1,
    #[serde(rename = "/")] pub r#type: u32,
    #[serde(rename = "\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}")] pub rx: Vec<Option<u32>>,
}
}
pub mod r4_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R4<T0: Clone> {
    #[cfg(all())] #[doc = "x"] pub r#loop: Box<T0>,
    /** block */ #[allow(unused)] #[serde()] pub r#match: i32,
}
}
pub mod r5_s {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[derive(Serialize, Deserialize)]
pub struct R5 {
    /** block */ #[allow(unused)] #[serde()] pub b: i32,
}
}
pub mod deco_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Deco {
    #[serde(rename = "n \"0\\")] V0,
    /// a comment
    V1,
    #[allow(dead_code)] #[serde(rename=r#"n "2\"#)]
    /// after
    V2,
    #[doc(hidden)] #[allow(non_snake_case)] V3,
    #[cfg(all())] #[serde(rename = "n \"4\\")] #[doc = "x"] V4,
    /** block */ #[allow(unused)] #[serde()] V5,
    #[serde()] #[serde(rename="n \"6\\")]
    V6,
    V7,
    /// a comment
    #[serde(rename = r#"n "8\"#)] /// after
    V8,
    #[allow(dead_code)] #[allow(non_snake_case)] V9,
    #[doc(hidden)] #[serde(rename="n \"10\\")]
    #[doc = "x"] V10,
    #[cfg(all())] #[serde()] V11,
    /** block */ #[allow(unused)] #[serde(rename = "n \"12\\")] V12,
    #[serde()] V13,
}
}
pub mod color_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Color {
    Red,
    #[serde(rename = "green")] Green,
    Blue,
}
}
pub mod single_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Single {
    Only,
}
}
pub mod odd_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Odd {
    r#type,
    #[serde(rename = "")] Empty,
    #[serde(rename = "a\"\\\u{1}é😀")] Esc,
    #[serde(rename = "Second")] First,
    #[serde(rename = "First")] Second,
    None,
    Some,
}
}
pub mod disc_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Disc {
    A = 5,
    B = 3,
    C,
}
}
pub mod near_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Near {
    Ab,
    #[serde(rename = "AB")] AB,
    Abc,
    #[serde(rename = "ab")] Lower,
    #[serde(rename = "Ab ")] Space,
    #[serde(rename = "r#Ab")] Raw,
}
}
pub mod big_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum Big {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
}
}
pub mod r0_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum R0 {
    #[serde(rename = "﻿'é́#\u{0} \u{7f}/-﻿\t r#$a{")] seq21,
}
}
pub mod r1_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum R1 {
    /// a comment
    #[serde(rename = "ｘ}",)] __both__17,
}
}
pub mod r2_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum R2 {
    #[allow(dead_code)] /// after
    next18,
    #[doc(hidden)] #[allow(non_snake_case)] a_b_c,
    #[cfg(all())] #[serde(rename = "$\u{1f}")] #[doc = "x"] err,
}
}
pub mod r3_e {
#[allow(unused_imports)] use miniserde::{Deserialize, Serialize};
#[allow(unused_imports)] use std::collections::BTreeMap;
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize)]
pub enum R3 {
    #[serde(rename = "ｘ﻿$b\"{Z\t$")] seq12,
    #[serde(rename = "}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\")] begin,
}
}

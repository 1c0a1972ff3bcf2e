//! Independent reference: JSON text -> events and tree (RFC 8259), number and
//! string decoding, and a reference printer. Shares no code with the crate.

#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Str(String), Neg(i64), Pos(u64), Float(f64), Arr(Vec<J>), Obj(Vec<(String, J)>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Null, Bool(bool), Str(String), Neg(i64), Pos(u64), Float(u64), Seq, Map, Elem, Key(String), End }

/// which part of the text made it invalid
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why { None, Structure, Str, Number, Range }

pub struct Out { pub evs: Vec<Ev>, pub ok: bool, pub why: Why, pub tree: Option<J> }

pub fn same_f(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }

impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Str(a), J::Str(b)) => a == b,
            (J::Neg(a), J::Neg(b)) => a == b,
            (J::Pos(a), J::Pos(b)) => a == b,
            (J::Float(a), J::Float(b)) => same_f(*a, *b),
            (J::Arr(a), J::Arr(b)) => a == b,
            (J::Obj(a), J::Obj(b)) => a == b,
            _ => false,
        }
    }
}

pub fn pow10(n: usize) -> f64 { format!("1e{}", n).parse().unwrap() }

/// significand * 10^x by one multiplication or division, two below 1e-308
pub fn scaled(neg: bool, sig: u64, x: i128) -> Option<f64> {
    thread_local! { static P: Vec<f64> = (0..309).map(pow10).collect(); }
    let f = sig as f64;
    let p = |n: i128| P.with(|p| p[n as usize]);
    let r = if sig == 0 { 0.0 }
    else if x > 308 { return None }
    else if x >= 0 { let g = f * p(x); if g.is_infinite() { return None } g }
    else if x >= -308 { f / p(-x) }
    else if x >= -616 { f / p(308) / p(-x - 308) }
    else { 0.0 };
    Some(if neg { -r } else { r })
}

enum Num { Neg(i64), Pos(u64), Float(f64) }

struct P<'a> { s: &'a [u8], p: usize }

fn hexv(b: u8) -> Option<u32> { (b as char).to_digit(16) }

impl<'a> P<'a> {
    fn at(&self, i: usize) -> u8 { *self.s.get(i).unwrap_or(&0) }
    fn ws(&mut self) { while matches!(self.at(self.p), b' ' | b'\n' | b'\t' | b'\r') { self.p += 1; } }
    fn hex4(&self, p: usize) -> Option<u32> {
        let mut n = 0;
        for i in 0..4 { if p + i >= self.s.len() { return None } n = n * 16 + hexv(self.s[p + i])?; }
        Some(n)
    }
    /// body of a string whose opening quote was read
    fn string(&mut self) -> Result<String, Why> {
        let mut out: Vec<u8> = Vec::new();
        loop {
            if self.p >= self.s.len() { return Err(Why::Str) }
            match self.s[self.p] {
                b'"' => { self.p += 1; return String::from_utf8(out).map_err(|_| Why::Str); }
                b'\\' => {
                    let c = self.at(self.p + 1);
                    let (b, adv): (u8, usize) = match c {
                        b'"' => (b'"', 2), b'\\' => (b'\\', 2), b'/' => (b'/', 2), b'b' => (8, 2), b'f' => (12, 2),
                        b'n' => (10, 2), b'r' => (13, 2), b't' => (9, 2),
                        b'u' => {
                            let n1 = self.hex4(self.p + 2).ok_or(Why::Str)?;
                            let (n, adv) = if (0xD800..0xDC00).contains(&n1) {
                                if self.at(self.p + 6) != b'\\' || self.at(self.p + 7) != b'u' { return Err(Why::Str) }
                                let n2 = self.hex4(self.p + 8).ok_or(Why::Str)?;
                                if !(0xDC00..0xE000).contains(&n2) { return Err(Why::Str) }
                                (0x10000 + (n1 - 0xD800) * 0x400 + (n2 - 0xDC00), 12)
                            } else { (n1, 6) };
                            let ch = char::from_u32(n).ok_or(Why::Str)?;
                            let mut b = [0; 4];
                            out.extend(ch.encode_utf8(&mut b).bytes());
                            self.p += adv;
                            continue;
                        }
                        _ => return Err(Why::Str),
                    };
                    out.push(b);
                    self.p += adv;
                }
                b if b < 0x20 => return Err(Why::Str),
                b => { out.push(b); self.p += 1; }
            }
        }
    }
    fn number(&mut self, neg: bool) -> Result<Num, Why> {
        let b = self.p;
        let dig = |c: u8| c.is_ascii_digit();
        if !dig(self.at(b)) { return Err(Why::Number) }
        if self.at(b) == b'0' && dig(self.at(b + 1)) { return Err(Why::Number) }
        let mut e = b;
        while dig(self.at(e)) { e += 1; }
        let mut q = e;
        let mut fr = e..e;
        if self.at(q) == b'.' {
            q += 1;
            let s = q;
            while dig(self.at(q)) { q += 1; }
            if q == s { return Err(Why::Number) }
            fr = s..q;
        }
        let mut ex: Option<i128> = None;
        let mut exp_bad_first = false;
        if matches!(self.at(q), b'e' | b'E') {
            q += 1;
            let mut sg = 1;
            if self.at(q) == b'+' { q += 1; } else if self.at(q) == b'-' { q += 1; sg = -1; }
            let s = q;
            let mut v: i128 = 0;
            while dig(self.at(q)) { v = (v * 10 + (self.at(q) - b'0') as i128).min(1 << 100); q += 1; }
            if q == s { exp_bad_first = true; }
            ex = Some(sg * v);
        }
        if exp_bad_first { return Err(Why::Number) }
        let mut sig: u128 = 0;
        let mut x: i128 = 0;
        let lim = u64::MAX as u128;
        let mut stuck = false;
        for i in b..e {
            let n = sig * 10 + (self.s[i] - b'0') as u128;
            if !stuck && n <= lim { sig = n; } else { stuck = true; x += 1; }
        }
        let is_float = stuck || !fr.is_empty() || ex.is_some();
        // a digit of the fraction may still fit after integer digits were dropped
        let mut fstuck = false;
        for i in fr.clone() {
            let n = sig * 10 + (self.s[i] - b'0') as u128;
            if !fstuck && n <= lim { sig = n; x -= 1; } else { fstuck = true; }
        }
        self.p = q;
        let sig = sig as u64;
        if !is_float {
            return Ok(if !neg { Num::Pos(sig) } else if sig <= 1 << 63 { Num::Neg((sig as i64).wrapping_neg()) }
                else { Num::Float(-(sig as f64)) });
        }
        match scaled(neg, sig, x + ex.unwrap_or(0)) { Some(f) => Ok(Num::Float(f)), None => Err(Why::Range) }
    }
    fn word(&mut self, w: &[u8]) -> bool {
        if self.s[self.p..].starts_with(w) { self.p += w.len(); true } else { false }
    }
}

enum Fr { Arr(Vec<J>), Obj(Vec<(String, J)>, Option<String>) }

pub fn parse(s: &[u8]) -> Out {
    let mut p = P { s, p: 0 };
    let mut evs = Vec::new();
    let mut st: Vec<Fr> = Vec::new();
    let bad = |evs, why| Out { evs, ok: false, why, tree: None };
    // state: a value is due
    'value: loop {
        p.ws();
        if p.p >= s.len() { return bad(evs, Why::Structure) }
        let c = s[p.p];
        let mut done: Option<J> = None;
        match c {
            b'"' => { p.p += 1; match p.string() { Ok(t) => { evs.push(Ev::Str(t.clone())); done = Some(J::Str(t)) } Err(w) => return bad(evs, w) } }
            b'0'..=b'9' | b'-' => {
                let neg = c == b'-';
                if neg { p.p += 1; }
                match p.number(neg) {
                    Ok(Num::Neg(n)) => { evs.push(Ev::Neg(n)); done = Some(J::Neg(n)) }
                    Ok(Num::Pos(n)) => { evs.push(Ev::Pos(n)); done = Some(J::Pos(n)) }
                    Ok(Num::Float(n)) => { evs.push(Ev::Float(n.to_bits())); done = Some(J::Float(n)) }
                    Err(w) => return bad(evs, w),
                }
            }
            b'n' => { if !p.word(b"null") { return bad(evs, Why::Structure) } evs.push(Ev::Null); done = Some(J::Null) }
            b't' => { if !p.word(b"true") { return bad(evs, Why::Structure) } evs.push(Ev::Bool(true)); done = Some(J::Bool(true)) }
            b'f' => { if !p.word(b"false") { return bad(evs, Why::Structure) } evs.push(Ev::Bool(false)); done = Some(J::Bool(false)) }
            b'[' => { p.p += 1; evs.push(Ev::Seq); st.push(Fr::Arr(vec![])); }
            b'{' => { p.p += 1; evs.push(Ev::Map); st.push(Fr::Obj(vec![], None)); }
            _ => return bad(evs, Why::Structure),
        }
        // state: a value has just ended (done) or a container has just opened
        loop {
            let fresh = done.is_none();
            match (st.last_mut(), done.take()) {
                (None, Some(v)) => {
                    p.ws();
                    let ok = p.p >= s.len();
                    return Out { evs, ok, why: if ok { Why::None } else { Why::Structure }, tree: if ok { Some(v) } else { None } };
                }
                (Some(Fr::Arr(a)), Some(v)) => a.push(v),
                (Some(Fr::Obj(o, k)), Some(v)) => o.push((k.take().unwrap(), v)),
                (_, None) => {}
            }
            p.ws();
            let c = p.at(p.p);
            let is_map = matches!(st.last(), Some(Fr::Obj(..)));
            let mut item = false;
            if p.p < s.len() && c == if is_map { b'}' } else { b']' } {
                p.p += 1;
                evs.push(Ev::End);
                done = Some(match st.pop().unwrap() { Fr::Arr(a) => J::Arr(a), Fr::Obj(o, _) => J::Obj(o) });
            } else if p.p < s.len() && matches!(c, b'}' | b']') {
                return bad(evs, Why::Structure);
            } else if fresh { item = true }
            else if p.p < s.len() && c == b',' { p.p += 1; item = true }
            else { return bad(evs, Why::Structure) }
            if item {
                match st.last_mut().unwrap() {
                    Fr::Arr(_) => evs.push(Ev::Elem),
                    Fr::Obj(_, k) => {
                        p.ws();
                        if p.at(p.p) != b'"' { return bad(evs, Why::Structure) }
                        p.p += 1;
                        match p.string() { Ok(t) => { evs.push(Ev::Key(t.clone())); *k = Some(t) } Err(w) => return bad(evs, w) }
                        p.ws();
                        if p.at(p.p) != b':' { return bad(evs, Why::Structure) }
                        p.p += 1;
                    }
                }
                continue 'value;
            }
        }
    }
}

pub fn escape(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\t' => out.push_str("\\t"),
            '\n' => out.push_str("\\n"),
            '\u{c}' => out.push_str("\\f"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// reference printer; floats as `\u{1}` + bits, to be compared by value
pub fn print(j: &J, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Neg(n) => out.push_str(&n.to_string()),
        J::Pos(n) => out.push_str(&n.to_string()),
        J::Float(f) => if f.is_finite() { out.push('\u{1}'); out.push_str(&f.to_bits().to_string()); out.push('\u{1}') } else { out.push_str("null") },
        J::Str(s) => escape(s, out),
        J::Arr(a) => { out.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { out.push(',') } print(x, out) } out.push(']') }
        J::Obj(a) => { out.push('{'); for (i, (k, x)) in a.iter().enumerate() { if i > 0 { out.push(',') } escape(k, out); out.push(':'); print(x, out) } out.push('}') }
    }
}

pub fn valid_number_text(t: &[u8]) -> bool {
    let t = if t.first() == Some(&b'-') { &t[1..] } else { t };
    let mut p = P { s: t, p: 0 };
    match p.number(false) { Ok(_) => p.p == t.len() && !t.is_empty(), Err(Why::Range) => true, Err(_) => false }
}

/// compare printed text with the reference, floats by exact value
pub fn same_text(got: &str, want: &str) -> Result<(), String> {
    if !want.contains('\u{1}') { return if got == want { Ok(()) } else { Err(format!("got {:?}, expected {:?}", cut(got), cut(want))) } }
    let (g, w) = (got.as_bytes(), want.as_bytes());
    let (mut i, mut k) = (0, 0);
    while k < w.len() {
        if w[k] == 1 {
            let e = k + 1 + w[k + 1..].iter().position(|&b| b == 1).unwrap();
            let bits: u64 = want[k + 1..e].parse().unwrap();
            let s = i;
            while i < g.len() && matches!(g[i], b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E') { i += 1; }
            let t = &got[s..i];
            let f = f64::from_bits(bits);
            if !valid_number_text(t.as_bytes()) { return Err(format!("{:?} is no JSON number (float {:?})", t, f)) }
            if t.parse::<f64>().map(|x| x.to_bits()) != Ok(bits) { return Err(format!("{:?} does not denote {:?}", t, f)) }
            k = e + 1;
        } else {
            if i >= g.len() || g[i] != w[k] { return Err(format!("got {:?}, expected {:?} (floats marked by bits)", cut(got), cut(want))) }
            i += 1; k += 1;
        }
    }
    if i != g.len() { return Err(format!("extra text in {:?}, expected {:?}", cut(got), cut(want))) }
    Ok(())
}

pub fn cut(s: &str) -> String {
    if s.len() <= 300 { s.to_string() } else { let mut n = 300; while !s.is_char_boundary(n) { n -= 1 } format!("{}… ({} bytes)", &s[..n], s.len()) }
}

/// printed with floats in a plain readable form, for use as input
pub fn to_input(j: &J) -> String {
    let mut o = String::new();
    fn go(j: &J, o: &mut String) {
        match j {
            J::Float(f) => o.push_str(&format!("{:e}", f)),
            J::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } go(x, o) } o.push(']') }
            J::Obj(a) => { o.push('{'); for (i, (k, x)) in a.iter().enumerate() { if i > 0 { o.push(',') } escape(k, o); o.push(':'); go(x, o) } o.push('}') }
            _ => print(j, o),
        }
    }
    go(j, &mut o);
    o
}

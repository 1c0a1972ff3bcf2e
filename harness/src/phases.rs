//! Which cases each property explores.
use crate::gen;
use crate::kinds::*;
use crate::refp::J;
use crate::rng::Rng;

pub struct Sink<'a> {
    pub f: &'a mut dyn FnMut(u8, &[u8]) -> bool,
    pub part: u64,
    pub parts: u64,
    pub n: u64,
    pub deadline: std::time::Instant,
    pub stop: bool,
}
impl<'a> Sink<'a> {
    fn put(&mut self, k: u8, p: &[u8]) {
        self.n += 1;
        if self.stop || self.n % self.parts != self.part { return }
        if self.n / self.parts % 64 == 0 && std::time::Instant::now() > self.deadline { self.stop = true; return }
        if (self.f)(k, p) { self.stop = true }
    }
    fn text(&mut self, k: u8, first: Option<u8>, t: &str) {
        if let Some(b) = first { let mut v = vec![b]; v.extend(t.as_bytes()); self.put(k, &v) } else { self.put(k, t.as_bytes()) }
    }
}
/// every string over the alphabet of exactly n tokens, wrapped
fn words(s: &mut Sink, k: u8, first: Option<u8>, alpha: &[&str], n: usize, pre: &str, post: &str) {
    let mut idx = vec![0usize; n];
    loop {
        if s.stop { return }
        let mut t = String::from(pre);
        for &i in &idx { t.push_str(alpha[i]) }
        t.push_str(post);
        s.text(k, first, &t);
        let mut c = n;
        loop {
            if c == 0 { return }
            c -= 1;
            idx[c] += 1;
            if idx[c] < alpha.len() { break }
            idx[c] = 0;
        }
    }
}
const TOK: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "1", " ", "null"];
const TOK2: &[&str] = &["[", "]", "{", "}", ",", "\"a\":", "1"];
const NUMC: &[&str] = &["-", "+", "0", "1", "9", ".", "e", "E"];
const STRC: &[&str] = &["\\", "\"", "u", "d", "8", "C", "0", "n", "\u{1f}", "é", "😀", "\u{0}", " ", "/"];

fn structure(s: &mut Sink, depth: usize) {
    for n in 0..=depth { words(s, PARSE, None, TOK, n, "", "") }
    for n in 3..=depth + 2 { words(s, PARSE, None, TOK2, n, "", "") }
    for w in ["null", "true", "false", "nul", "nulL", "tru", "truf", "fals", "falsf", "Null", "nullx", "NaN", "Infinity", "-Infinity", "undefined", "'a'", "//", "/**/1", "1,", ",1", "[1 2]", "{\"a\" 1}", "{1:2}", "{a:1}", "{\"a\":1,}", "[,]", "{,}", "[1,,2]", "\u{feff}1", "\u{a0}1", "\u{b}1", "\u{c}1", "1\u{0}", "\u{0}", "\u{0}1", "[\u{0}]", "[1\u{0},2]", "{\"a\"\u{0}:1}", "[1]\u{0}"] {
        for (a, b) in [("", ""), (" ", " "), ("[", "]"), ("[1,", ",2]"), ("{\"k\":", "}"), ("[[", "]]"), ("\n\t\r ", "\r\t\n "), ("", "\u{c}"), ("", "\u{85}"), ("", "\u{0}"), ("", "x"), ("", "]"), ("", "}"), ("", ",")] {
            s.text(PARSE, None, &format!("{}{}{}", a, w, b));
        }
    }
    // every byte of the first two planes between tokens
    for c in (0u32..0x180).chain([0x2028, 0x3000, 0xfeff, 0x1f600]) {
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{}1", c), format!("1{}", c), format!("[{}1]", c), format!("[1{}]", c), format!("[1{},2]", c), format!("[1,{}2]", c), format!("{{{}\"a\":1}}", c), format!("{{\"a\"{}:1}}", c), format!("{{\"a\":{}1}}", c), format!("{{\"a\":1{}}}", c), format!("{{\"a\":1,{}\"b\":2}}", c), format!("\"{}\"", c), format!("\"\\{}\"", c), format!("\"a{}b\"", c), format!("\"\\n{}\"", c), format!("{}", c), format!("n{}ll", c), format!("-{}", c), format!("1{}5", c), format!("1.5{}3", c), format!("1e{}3", c), format!("\"\\u00{}0\"", c), format!("\"\\u{}000\"", c), format!("\"\\u000{}\"", c)] {
                s.text(PARSE, None, &t);
            }
        }
    }
}
fn strings(s: &mut Sink, n: usize, all_pairs: bool) {
    for i in 0..=n { words(s, PARSE, None, STRC, i, "\"", "\"") }
    for i in 1..=n.min(3) { words(s, PARSE, None, STRC, i, "{\"\\n", "\":1}"); words(s, PARSE, None, STRC, i, "[\"a\\tb\",\"", "\",\"é\"]") }
    words(s, PARSE, None, &["0", "8", "9", "d", "D", "c", "F", "g", "G", "\"", "\u{0}"], 4, "\"\\u", "\"");
    words(s, PARSE, None, &["0", "9", "a", "A", "f", "F", ":", "/", "@", "`", "G", "g"], 4, "\"x\\u", "y\"");
    for u in 0..0x10000u32 { s.text(PARSE, None, &format!("\"\\u{:04x}\"", u)); if u % 7 == 0 || (0xd7f0..0xe010).contains(&u) { s.text(PARSE, None, &format!("\"a\\u{:04X}z\\u{:04x}\"", u, 0xdc00 + u % 0x400)) } }
    let edge: Vec<u32> = [0, 1, 2, 0x1ff, 0x200, 0x3fe, 0x3ff].to_vec();
    for h in 0..0x400u32 { for &l in &edge { s.text(PARSE, None, &format!("\"\\ud{:03x}\\ud{:03x}\"", 0x800 + h, 0xc00 + l)); s.text(PARSE, None, &format!("\"\\uD{:03X}\\uD{:03X}\"", 0x800 + edge[h as usize % 7], 0xc00 + h)); } }
    for h in [0xd7ffu32, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000] { for l in [0u32, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff] { for sep in ["\\u", "\\", "u", "\\n\\u", "a\\u", "\\U", "/u"] { s.text(PARSE, None, &format!("\"\\u{:04x}{}{:04x}\"", h, sep, l)); s.text(PARSE, None, &format!("\"pre\\u{:04x}{}{:04x}post\\n\"", h, sep, l)) } } }
    if all_pairs { for h in 0xd800..0xdc00u32 { for l in (0xdc00..0xe000u32).step_by(5) { s.text(PARSE, None, &format!("\"\\u{:04x}\\u{:04x}\"", h, l)) } } }
    for c in 0..0x110000u32 { if c < 0x900 || c % 509 == 0 || (0xd7f0..0xe010).contains(&c) || c > 0x10fff0 { if let Some(c) = char::from_u32(c) { s.text(PARSE, None, &format!("\"{}\"", c)); s.text(PARSE, None, &format!("\"\\\"{}\\\\\"", c)); } } }
}
fn numbers(s: &mut Sink, n: usize) {
    for i in 1..=n { words(s, PARSE, None, NUMC, i, "", "") }
    for i in 1..=3 { words(s, PARSE, None, NUMC, i, "[", "]"); words(s, PARSE, None, NUMC, i, "{\"a\":", "}"); words(s, PARSE, None, NUMC, i, "18446744073709551", ""); words(s, PARSE, None, NUMC, i, "1.", "") }
    let d = ["0", "1", "5", "6", "9"];
    for base in ["1844674407370955161", "922337203685477580", "-922337203685477580", "-1844674407370955161", "999999999999999999", "0.1844674407370955161", "1.844674407370955161", "10000000000000000000", "4294967", "2147483", "-2147483", "429496729", "214748364", "-214748364", "6553", "3276", "-3276", "25", "12", "-12"] {
        for k in 0..=3 {
            let mut idx = vec![0; k];
            loop {
                let t: String = std::iter::once(base.to_string()).chain(idx.iter().map(|&i: &usize| d[i].to_string())).collect();
                for suf in ["", ".", ".0", ".5", "e0", "e1", "e-1", ".5e3", "E+2", ".00", "e"] { s.text(PARSE, None, &format!("{}{}", t, suf)) }
                let mut c = k;
                let mut done = true;
                while c > 0 { c -= 1; idx[c] += 1; if idx[c] < d.len() { done = false; break } idx[c] = 0 }
                if done { break }
            }
        }
    }
    // every exponent around the edges, for several significands
    for sig in ["0", "-0", "0.0", "1", "-1", "9", "123456789", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0.000001", "1.7976931348623157", "4.9", "2.2250738585072014", "123.456"] {
        for e in (-700i64..=700).chain([2147483646, 2147483647, 2147483648, 2147483649, -2147483646, -2147483647, -2147483648, -2147483649, 4294967295, 4294967296, -4294967296, 9223372036854775807, 99999999999999999, -99999999999999999]) {
            s.text(PARSE, None, &format!("{}e{}", sig, e));
            if e % 50 == 0 { s.text(PARSE, None, &format!("{}E{:+}", sig, e)); s.text(PARSE, None, &format!("[{}e{:+04}]", sig, e)) }
        }
        for z in ["00000000000", "0000000000000000000000000000", "99999999999", "21474836470", "21474836480"] { for sg in ["", "-", "+"] { for tail in ["", "1", "5", "x", "."] { s.text(PARSE, None, &format!("{}e{}{}{}", sig, sg, z, tail)) } } }
    }
    // long digit runs
    for n in (1..=40).chain([100, 300, 307, 308, 309, 310, 330, 616, 617, 640, 1000]) {
        for (a, b) in [("0.", "1"), ("1", ""), ("9", ""), ("-9", ".5"), ("0.", "0"), ("1", "e-300"), ("0.", "1e300"), ("1", ".0"), ("12345", "6.789e-5"), ("1", "e-330"), ("0.", "123456789012345678901234567890"), ("0.", "9e+310")] {
            for c in ["0", "9"] { s.text(PARSE, None, &format!("{}{}{}", a, c.repeat(n), b)) }
        }
    }
}
/// long digit runs whose exponent brings the value back into range
fn balanced(s: &mut Sink) {
    let mut ns: Vec<i64> = (10..=60).chain((60..2100).step_by(37)).collect();
    for p in [64i64, 100, 128, 200, 255, 256, 300, 308, 323, 324, 400, 500, 512, 600, 640, 700, 800, 999, 1000, 1024, 1100, 2000, 2048, 4096, 5000, 8192, 9999, 10000, 16384, 32767, 32768, 65535, 65536, 100000] { for d in -1..=1 { ns.push(p + d) } }
    for n in ns {
        let z = "0".repeat(n as usize);
        for d in if n < 2200 { &[0i64, 1, -1, 5, -5, 20, -20, 300, -300, 320, -330][..] } else { &[0, 300][..] } {
            s.text(PARSE, None, &format!("1{}e{}", z, d - n));
            s.text(PARSE, None, &format!("-37{}.5e{}", z, d - n));
            s.text(PARSE, None, &format!("0.{}1e{:+}", z, n + d));
            s.text(PARSE, None, &format!("0.{}18446744073709551616E{}", z, n + d));
            s.text(PARSE, None, &format!("1.{}1e{}", z, d));
            s.text(PARSE, None, &format!("{}e-{}", "9".repeat(n as usize), n + d));
        }
    }
}
fn random_parse(s: &mut Sink, r: &mut Rng) {
    let d = r.below(5);
    let mut t = String::new();
    match r.below(8) {
        0 => gen::number_text(r, &mut t),
        1 => { let x = gen::string(r); gen::lit(r, &x, &mut t); if r.chance(1, 2) { t = gen::mutate(r, &t) } }
        _ => { let j = gen::j(r, d); gen::render(r, &j, &mut t); if r.chance(1, 2) { t = gen::mutate(r, &t) } }
    }
    s.text(PARSE, None, &t);
}
const DOCS: &[&str] = &["null", "true", "\"\"", "\"a\"", "0", "-1", "1.5", "[]", "{}", "[1]", "[1,2]", "[[]]", "[{}]", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":[]}", "{\"a\":{}}", "[1,\"a\",null,true,-1,1.5,[],{}]", "{\"a\":null,\"b\":true,\"c\":\"s\",\"d\":-1,\"e\":0.5,\"f\":[1],\"g\":{\"h\":[]}}", "[[[1],2],[3]]", "[1,", "{\"a\":1,", "{\"a\":", "{\"a\"", "[[1]", "[{\"a\":[1", "[1}", "{\"a\":1]", "[1]x", "{\"a\":1}}"];
fn inject(s: &mut Sink) {
    for k in 0..24u8 { for d in DOCS { s.text(INJECT, Some(k), d) } }
    for n in 1..=4 { words(s, INJECT, Some(1), TOK2, n, "[", ""); words(s, INJECT, Some(2), TOK2, n, "{\"a\":", "") }
}
fn random_inject(s: &mut Sink, r: &mut Rng) {
    let d = r.below(4);
    let mut t = String::new();
    let j = gen::j(r, d);
    gen::render(r, &j, &mut t);
    if r.chance(1, 4) { t = gen::mutate(r, &t) }
    let k = r.below(30) as u8;
    s.text(INJECT, Some(k), &t);
}
const KINDS_: &[&str] = &["null", "true", "false", "\"\"", "\"a\"", "\"Red\"", "\"1\"", "0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.5", "1.0", "1e2", "-0.0", "[]", "[1]", "[1,2]", "[1,2,3]", "[1,true]", "[true]", "[null]", "[null,null]", "[null,1]", "[1,null]", "[[]]", "[[],[]]", "[{}]", "[\"a\"]", "[\"a\",\"b\"]", "[\"a\",\"b\",\"c\"]", "[\"a\",[1]]", "[[1,2],[3,4]]", "[[1],[2]]",
    "{}", "{\"a\":1}", "{\"a\":null}", "{\"a\":true}", "{\"1\":true}", "{\"a\":\"x\"}", "{\"a\":1,\"a\":2}", "{\"a\":1,\"b\":2}", "{\"b\":2,\"a\":1}", "{\"a\":[]}", "{\"a\":{}}", "{\"x\":1,\"y\":\"s\",\"z\":true}", "{\"z\":true}", "{\"first\":\"f\",\"second\":-5}", "{\"second\":-5,\"first\":\"f\",\"third\":[{}]}", "{\"a\":1", "[1,2", "[1,2]]", "1 1", "", "{\"u\":null,\"b\":1,\"f\":1}", "[[1,2],[3,4],[5,6]]", "[{\"a\":1},{\"a\":2}]", "{\"a\":{\"a\":1}}", "[1,2,3,4]", "[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]"];
fn typed_all(s: &mut Sink, tys: &[usize]) {
    for &t in tys {
        for k in KINDS_ {
            s.text(TYPED, Some(t as u8), k);
            s.text(TYPED, Some(t as u8), &format!("[{}]", k));
            s.text(TYPED, Some(t as u8), &format!("[{},{}]", k, k));
            s.text(TYPED, Some(t as u8), &format!("{{\"a\":{}}}", k));
        }
        for i in 0..=20 { for e in ["1", "\"x\"", "true", "[]", "null", "{\"a\":1}"] { s.text(TYPED, Some(t as u8), &format!("[{}]", vec![e; i].join(","))) } }
    }
}
fn random_typed(s: &mut Sink, r: &mut Rng, tys: &[usize]) {
    let t = *r.pick(tys);
    let j = TABLE.with(|tb| (tb[t].text)(r));
    let mut o = String::new();
    gen::render(r, &j, &mut o);
    if r.chance(1, 12) { o = gen::mutate(r, &o) }
    s.text(TYPED, Some(t as u8), &o);
}
fn random_round(s: &mut Sink, r: &mut Rng, tys: &[usize]) {
    let t = *r.pick(tys) as u8;
    let x = r.next().to_le_bytes();
    s.put(ROUND, &[t, x[0], x[1], x[2], x[3]]);
}
fn ser_small(s: &mut Sink, n: usize) {
    // all trees of at most n nodes, prefix coded
    for len in 1..=n {
        let mut idx = vec![0u8; len];
        loop {
            let mut p = vec![0];
            p.extend(&idx);
            let (_, used) = ser_tree(&p);
            if used == len + 1 { s.put(SER, &p) }
            if s.stop { return }
            let mut c = len;
            let mut done = true;
            while c > 0 { c -= 1; idx[c] += 1; if idx[c] < 14 { done = false; break } idx[c] = 0 }
            if done { break }
        }
    }
}
fn random_ser(s: &mut Sink, r: &mut Rng) { let x = r.next().to_le_bytes(); s.put(SER, &[1, x[0], x[1], x[2], x[3]]) }
fn str_all(s: &mut Sink) {
    for c in 0..0x110000u32 { if c < 0x1000 || c % 67 == 0 || (0xd7f0..0xe010).contains(&c) || c > 0x10fff0 { if let Some(c) = char::from_u32(c) { s.text(STR, None, &c.to_string()) } } }
    for a in 0..0x80u8 { for b in 0..0x80u8 { s.text(STR, None, &format!("{}{}", a as char, b as char)) } }
    for &a in gen::CHARS { for &b in gen::CHARS { for &c in gen::CHARS { s.text(STR, None, &format!("{}{}{}", a, b, c)) } } }
    for n in [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000] { for c in ['a', '"', '\u{1f}', 'é', '😀'] { for p in [0, n / 2, n] { let mut t: Vec<char> = vec!['x'; n]; t.insert(p, c); s.text(STR, None, &t.iter().collect::<String>()); let u: String = vec![c; n].iter().collect(); s.text(STR, None, &u) } } }
}
fn nums_all(s: &mut Sink) {
    let mut put = |t: u8, v: u64| { let mut p = vec![t]; p.extend(v.to_le_bytes()); s.put(NUM, &p) };
    for t in 0..12u8 {
        for v in 0..300u64 { put(t, v); put(t, v.wrapping_neg()) }
        for k in 0..64 { for d in 0..3u64 { put(t, (1u64 << k).wrapping_add(d).wrapping_sub(1)); put(t, (!0u64 >> k).wrapping_sub(d)) } }
        let mut p = 1u64; for _ in 0..19 { p = p.wrapping_mul(10); for d in 0..3 { put(t, p.wrapping_add(d).wrapping_sub(1)); put(t, p.wrapping_neg().wrapping_add(d)) } }
    }
    for v in 0..65536u64 { put(1, v); put(6, v) }
    for e in 0..2048u64 { for m in [0, 1, 0x8000000000000, 0xfffffffffffff] { for sg in [0, 1u64 << 63] { put(10, sg | e << 52 | m) } } }
    for e in 0..256u64 { for m in [0, 1, 0x400000, 0x7fffff] { for sg in [0, 1u64 << 31] { put(11, sg | e << 23 | m) } } }
}
fn random_num(s: &mut Sink, r: &mut Rng) { let mut p = vec![r.below(12) as u8]; p.extend((r.next() >> if r.chance(1, 2) { r.below(64) } else { 0 }).to_le_bytes()); s.put(NUM, &p) }
fn drops_all(s: &mut Sink) {
    let n = DTABLE.with(|d| d.len());
    for t in 0..n as u8 {
        for e in ["1", "60", "100", "50", "null", "[1]", "[50]", "{\"a\":1}", "{\"a\":100}", "[]", "[1,100]"] {
            s.text(DROPS, Some(t), e);
            for k in 0..7 {
                let v = vec![e; k].join(",");
                for d in [format!("[{}]", v), format!("[{}", v), format!("[{},", v), format!("[1,{}]", v), format!("[{},100]", v), format!("[{},1]", v), format!("[[{}],[{}]]", v, v), format!("[[{}],[1,2]]", v), format!("{{\"a\":[{}],\"b\":[1,2]}}", v), format!("{{\"1\":[{}],\"1\":1}}", v), format!("[[{}]]", v), format!("[[{}],1", v), format!("{{\"a\":[{}],\"a\":[1,2]}}", v), format!("{{\"a\":[{}],\"b\":1,\"b\":2,\"a\":[1,2],\"c\":1,\"d\":[1,2]}}", v)] { s.text(DROPS, Some(t), &d) }
            }
            for d in [format!("{{\"a\":{},\"a\":{}}}", e, e), format!("{{\"a\":1,\"b\":{}", e), format!("{{\"1\":{},\"2\":2}}", e), format!("{{\"a\":{}}}x", e)] { s.text(DROPS, Some(t), &d) }
        }
    }
}
fn random_drops(s: &mut Sink, r: &mut Rng) {
    let n = DTABLE.with(|d| d.len());
    let t = r.below(n);
    let j = DTABLE.with(|d| (d[t].text)(r));
    let mut o = String::new();
    gen::render(r, &j, &mut o);
    if r.chance(1, 8) { let mut k = r.below(o.len() + 1); while !o.is_char_boundary(k) { k -= 1 } o.truncate(k) }
    s.text(DROPS, Some(t as u8), &o);
}
fn random_cont(s: &mut Sink, r: &mut Rng) { let n = 1 + r.below(30); let p: Vec<u8> = (0..n).map(|_| r.below(46) as u8).collect(); s.put(CONT, &p) }
fn cont_all(s: &mut Sink) { for a in 0..46u8 { s.put(CONT, &[a]); for b in 0..46u8 { s.put(CONT, &[40, 41, a, b]); s.put(CONT, &[42, 43, a, b, 38]); s.put(CONT, &[0, 20, a, b]); s.put(CONT, &[0, 0, 0, 20, 21, 22, a, b]); for c in 0..40u8 { s.put(CONT, &[0, 1, 20, a, b, c]) } } } }
fn deep_all(s: &mut Sink) {
    for n in [1u32, 2, 10, 1000, 100_000] { for sh in 0..DEEP_SHAPES as u8 { for op in 0..DEEP_OPS as u8 { if (op == 6 || op == 7) && sh > 0 { continue } if n == 10 && sh < 8 { continue } let b = n.to_le_bytes(); s.put(DEEP, &[sh, op, b[0], b[1], b[2]]) } } }
}
fn random_reparse(s: &mut Sink, r: &mut Rng) { let d = r.below(5); let j = gen::j(r, d); let mut t = String::new(); gen::render(r, &j, &mut t); s.text(REPARSE, None, &t) }
fn random_shapes(s: &mut Sink, r: &mut Rng) { let x = r.next().to_le_bytes(); s.put(SHAPES, &x[..4]) }
#[allow(dead_code)]
fn unused(_: J) {}


// ---- sizes: what only shows beyond some depth, length or count --------------------
const SIZES: &[usize] = &[15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 253, 254, 255, 256, 257, 258, 300, 400, 500, 501, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097];
const HUGE: &[usize] = &[5000, 8191, 8192, 8193, 10000, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70000, 100001];
fn big_sizes(x: usize, cap: usize) -> Vec<usize> { SIZES.iter().chain(HUGE).copied().filter(|n| *n <= cap && (x > 0 || *n <= 1100 || n % 256 < 2)).collect() }
fn big_deep(s: &mut Sink, x: usize) {
    for n in big_sizes(x, 5000) {
        for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[{\"k\":", "}]"), ("[1,", ",2]"), ("{\"a\":[],\"b\":", ",\"c\":{}}"), ("[\"s\\n\",[", ",null],{}]")] {
            let (a, b) = (o.repeat(n), c.repeat(n));
            s.text(PARSE, None, &format!("{}7{}", a, b));
            s.text(PARSE, None, &format!("[{}\"x\"{},{{\"z\":[]}}]", a, b));
            s.text(PARSE, None, &format!("{}7{}", a, c.repeat(n - 1)));
            s.text(PARSE, None, &format!("{}7{},", a, c.repeat(n - 1)));
            s.text(PARSE, None, &format!("{}7{}{}{}", a, c.repeat(n / 2), if c.ends_with(']') { "}" } else { "]" }, c.repeat(n - n / 2)));
            for (k, t) in [format!("{}7{}", a, b), a.clone()].iter().enumerate() {
                for f in [n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 3 * n, 4 * n] { if k == 0 || x > 0 { let mut v = (f as u32).to_le_bytes().to_vec(); v.extend(t.as_bytes()); s.put(LATE, &v) } }
            }
        }
    }
}
fn big_wide(s: &mut Sink, x: usize) {
    for n in big_sizes(x, if x > 0 { 70000 } else { 4097 }) {
        for e in ["1", "\"a\"", "\"\\n\"", "[]", "{\"a\":1}", "null", "-0.5"] {
            if n > 5000 && e.len() > 4 { continue }
            let v = vec![e; n].join(",");
            s.text(PARSE, None, &format!("[{}]", v));
            s.text(PARSE, None, &format!("[{},]", v));
            s.text(PARSE, None, &format!("{{\"k\":[{}],\"l\":[2]}}", v));
            let m = (0..n).map(|i| format!("\"{}\":{}", i, e)).collect::<Vec<_>>().join(",");
            s.text(PARSE, None, &format!("{{{}}}", m));
            s.text(PARSE, None, &format!("{{{},}}", m));
            s.text(PARSE, None, &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", i % 3, i)).collect::<Vec<_>>().join(",")));
            let mut v = (n as u32 * 2).to_le_bytes().to_vec(); v.extend(format!("{{{}}}", m).as_bytes()); s.put(LATE, &v);
            let w = " \n\t\r".repeat(n / 4 + 1);
            s.text(PARSE, None, &format!("{}[{}{}{},{}1{}]{}", w, w, e, w, w, w, w));
            s.text(PARSE, None, &format!("{}{{{}\"a\"{}:{}{}{}}}{}x", w, w, w, w, e, w, w));
        }
    }
}
fn big_str(s: &mut Sink, x: usize) {
    for n in big_sizes(x, if x > 0 { 110000 } else { 8192 }) {
        for c in ["a", "\\n", "\\u0041", "\\ud83d\\ude00", "é", "😀", "\\\\", "\\\"", "\u{7f}"] {
            let t = c.repeat(n);
            for u in [format!("\"{}\"", t), format!("\"{}\\n\"", t), format!("\"\\t{}\"", t), format!("[\"{}\\n\",\"b\",\"\\n\",\"{}\",\"c\\tc\"]", t, t), format!("{{\"{}\":\"\\b\",\"{}x\":\"y\"}}", t, t), format!("\"{}", t), format!("\"{}\u{1}\"", t), format!("\"{}\\x\"", t), format!("\"{}\\ud800\"", t)] { s.text(PARSE, None, &u) }
        }
    }
}
fn big_print(s: &mut Sink, x: usize) {
    for n in big_sizes(x, if x > 0 { 110000 } else { 8192 }) {
        for c in ["a", "\n", "\u{1}", "é", "😀", "\"", "\\", "\u{7f}"] {
            let t = c.repeat(n);
            for u in [format!("{}\n", t), format!("\t{}", t), format!("{}\"{}", t, t), format!("x{}é\u{1f}y", t), t] { s.text(STR, None, &u) }
        }
    }
    for n in big_sizes(x, if x > 0 { 2100 } else { 520 }) { for sh in 0..8u8 { let b = (n as u32).to_le_bytes(); s.put(SER, &[2, sh, b[0], b[1], b[2]]) } }
    for n in big_sizes(x, if x > 0 { 70000 } else { 4097 }) { for sh in 8..16u8 { let b = (n as u32).to_le_bytes(); s.put(SER, &[2, sh, b[0], b[1], b[2]]) } }
}
fn big_typed(s: &mut Sink, x: usize, tys: &[usize]) {
    for &t in tys {
        for n in big_sizes(x, if x > 0 { 4100 } else { 520 }) {
            for e in ["1", "\"x\"", "true", "[1,2]", "null", "{\"a\":1}"] {
                if n > 600 && e.len() > 4 { continue }
                s.text(TYPED, Some(t as u8), &format!("[{}]", vec![e; n].join(",")));
                s.text(TYPED, Some(t as u8), &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", i % 200, e)).collect::<Vec<_>>().join(",")));
                s.text(TYPED, Some(t as u8), &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", i, e)).collect::<Vec<_>>().join(",")));
                s.text(TYPED, Some(t as u8), &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", if i % 2 == 0 { "a" } else { "zz" }, e)).collect::<Vec<_>>().join(",")));
            }
            for e in ["-0.0", "\"\\n\"", "[{}]"] { s.text(TYPED, Some(t as u8), &format!("{{\"{}\":{}}}", "k".repeat(n), e)); s.text(TYPED, Some(t as u8), &format!("{{\"a\":1,\"{}\":{},\"b\":2}}", "\\n".repeat(n), e)) }
            s.text(TYPED, Some(t as u8), &format!("\"{}\"", "x".repeat(n)));
        }
        if x > 0 { for n in [65536usize, 70000] { s.text(TYPED, Some(t as u8), &format!("[{}]", vec!["1"; n].join(","))); s.text(TYPED, Some(t as u8), &format!("{{{}}}", (0..n).map(|i| format!("\"{}\":1", i)).collect::<Vec<_>>().join(","))) } }
    }
}
fn big_drops(s: &mut Sink) {
    let n = DTABLE.with(|d| d.len());
    for t in 0..n as u8 { for k in [63usize, 64, 65, 127, 128, 129, 198, 199, 200, 201, 255, 256, 257, 300] { for e in ["1", "[1]"] { let v = vec![e; k].join(","); for d in [format!("[{}]", v), format!("[{}", v), format!("[{},100]", v), format!("[{},null,1]", v), format!("[{}]x", v)] { s.text(DROPS, Some(t), &d) } } } }
}

type R = fn(&mut Sink, &mut Rng, &[usize]);
/// exhaustive part, then the random generators used in turn
pub fn explore(prop: &str, seed: u64, deep: bool, s: &mut Sink) {
    let tys = { let t = types_with(prop); if t.is_empty() { (0..all_types()).collect() } else { t } };
    let every: Vec<usize> = (0..all_types()).collect();
    let x = deep as usize;
    let p: R = |s, r, _| random_parse(s, r);
    let ty: R = |s, r, t| random_typed(s, r, t);
    let rd: R = |s, r, t| random_round(s, r, t);
    let se: R = |s, r, _| random_ser(s, r);
    let inj: R = |s, r, _| random_inject(s, r);
    let nm: R = |s, r, _| random_num(s, r);
    let st: R = |s, r, _| { let x = gen::string(r); s.text(STR, None, &x) };
    let dr: R = |s, r, _| random_drops(s, r);
    let co: R = |s, r, _| random_cont(s, r);
    let re: R = |s, r, _| random_reparse(s, r);
    let sh: R = |s, r, _| random_shapes(s, r);
    let dp: R = |s, r, _| { let n = (1 + r.below(60_000)) as u32; let b = n.to_le_bytes(); let sh = r.below(DEEP_SHAPES) as u8; let op = r.below(10) as u8; s.put(DEEP, &[sh, op, b[0], b[1], b[2]]) };
    let rand: Vec<R> = match prop {
        "C01" => { big_deep(s, x); big_wide(s, x); big_str(s, 0); structure(s, 5 + x); numbers(s, 4 + x); strings(s, 3, false); vec![p, p, p, inj] }
        "C02" => { big_str(s, x); strings(s, 4 + x, deep); structure(s, 4); vec![p, st] }
        "C03" => { balanced(s); numbers(s, 5 + x); typed_all(s, &tys); vec![p, ty, nm] }
        "C04" => { balanced(s); numbers(s, 5 + x); typed_all(s, &tys); vec![p, ty, nm] }
        "C05" => { big_deep(s, x); big_wide(s, x); big_str(s, x); structure(s, 4 + x); strings(s, 3, false); balanced(s); numbers(s, 4); inject(s); typed_all(s, &tys); deep_some(s); vec![p, inj, ty, dr] }
        "C06" => { deep_all(s); inject(s); vec![dp, inj] }
        "C07" => { big_print(s, x); ser_small(s, 4 + x); str_all(s); nums_all(s); vec![se, se, rd, st, nm, sh] }
        "C08" => { big_print(s, x); big_str(s, 0); str_all(s); strings(s, 3, false); vec![st, rd, se, p] }
        "C09" => { nums_all(s); vec![nm, nm, rd, se] }
        "C10" => { big_deep(s, x); big_wide(s, x); structure(s, 4); typed_all(s, &tys); nums_all(s); ser_small(s, 3); vec![rd, re, ty, p, nm, co] }
        "C11" => { big_typed(s, x, &tys); typed_all(s, &tys); str_all(s); nums_all(s); vec![rd, rd, ty, sh] }
        "C12" => { big_typed(s, x, &tys); typed_all(s, &tys); inject(s); vec![ty, ty, inj] }
        "C13" => { big_typed(s, x, &tys); big_drops(s); typed_all(s, &tys); drops_all(s); vec![ty, dr] }
        "C14" => { big_typed(s, x, &tys); typed_all(s, &tys); vec![ty, ty, rd, sh] }
        "C15" => { big_typed(s, x, &tys); typed_all(s, &tys); vec![ty, rd] }
        "C16" => { big_typed(s, x, &tys); typed_all(s, &tys); vec![ty, rd] }
        "C17" => { big_drops(s); drops_all(s); typed_all(s, &tys); inject(s); vec![dr, dr, ty, inj, co] }
        "C18" => { big_typed(s, x, &tys); cont_all(s); typed_all(s, &tys); vec![co, co, ty, rd] }
        "C19" => { big_deep(s, x); big_wide(s, x); inject(s); structure(s, 4 + x); strings(s, 3, false); numbers(s, 3); vec![inj, p] }
        "C20" => { big_print(s, x); ser_small(s, 4 + x); vec![se, se, rd] }
        _ => panic!("unknown property"),
    };
    let mut r = Rng(seed ^ 0xabcd_0000 ^ s.part.wrapping_mul(0x1234_5678_9abc_def1));
    s.parts = 1;
    s.part = 0;
    let mut i = 0;
    while !s.stop {
        let list = if i % 7 == 6 { &every } else { &tys };
        rand[i % rand.len()](s, &mut r, list);
        i += 1;
    }
}
fn deep_some(s: &mut Sink) { for sh in 0..DEEP_SHAPES as u8 { for op in [0u8, 2, 3, 4, 5] { let b = 60_000u32.to_le_bytes(); s.put(DEEP, &[sh, op, b[0], b[1], b[2]]) } } }

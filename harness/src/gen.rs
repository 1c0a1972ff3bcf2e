use crate::refp::{self, J};
use crate::rng::Rng;

pub const CHARS: &[char] = &['a', 'b', '"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '\u{0}', '\u{1}', '\u{b}', '\u{e}', '\u{1f}', ' ', '!', '#', '[', ']', '{', '}', ':', ',',
    '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '0', 'u', 'n', 'z'];

pub fn string(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 | 2 => 1, 3..=6 => r.below(6), _ => if r.chance(1, 40) { r.below(700) } else { r.below(40) } };
    (0..n).map(|_| if r.chance(1, 6) { rand_char(r) } else { *r.pick(CHARS) }).collect()
}
pub fn rand_char(r: &mut Rng) -> char {
    loop { if let Some(c) = char::from_u32(match r.below(4) { 0 => r.below(0x80), 1 => r.below(0x800), 2 => r.below(0x10000), _ => r.below(0x110000) } as u32) { return c } }
}
pub const INTS: &[i128] = &[0, 1, 2, 9, 10, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 999, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 2147483646, 2147483647, 2147483648, 2147483649,
    4294967294, 4294967295, 4294967296, 4294967297, 9007199254740991, 9007199254740992, 9007199254740993, 999999999999999999, 1000000000000000000, 9223372036854775806, 9223372036854775807, 9223372036854775808, 9223372036854775809,
    9999999999999999999, 10000000000000000000, 18446744073709551609, 18446744073709551610, 18446744073709551614, 18446744073709551615, 1844674407370955161, 1844674407370955162, 922337203685477580, 922337203685477581];
pub fn int(r: &mut Rng) -> i128 {
    let m = match r.below(4) {
        0 => *r.pick(INTS),
        1 => (r.next() >> r.below(64)) as i128,
        2 => { let k = r.below(64) as u32; (1i128 << k) + r.below(3) as i128 - 1 }
        _ => r.below(300) as i128,
    };
    let m = m.min(u64::MAX as i128);
    if r.chance(1, 3) { -m } else { m }
}
pub fn int_j(r: &mut Rng) -> J {
    let n = int(r);
    if n >= 0 { if n == 0 && r.chance(1, 4) { J::Neg(0) } else { J::Pos(n as u64) } } else if n >= i64::MIN as i128 { J::Neg(n as i64) } else { J::Float(n as f64) }
}
pub fn float(r: &mut Rng) -> f64 {
    let f = match r.below(10) {
        0 => f64::from_bits(r.next()),
        1 => r.below(1000) as f64 / 8.0,
        2 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1.5, 1e16, 1e17, 1e21, 123456789012345680.0, 1e-5, 1e-7, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, 1e-300, 2.2250738585072011e-308]),
        3 => r.next() as f64,
        4 => (r.next() as f64) * refp::pow10(r.below(289)),
        5 => (r.next() as f64) / refp::pow10(r.below(309)),
        6 => f32::from_bits(r.next() as u32) as f64,
        _ => (r.below(2_000_001) as f64 - 1_000_000.0) / *r.pick(&[1.0, 10.0, 100.0, 1000.0]),
    };
    if f.is_finite() { f } else { 0.5 }
}
pub fn j(r: &mut Rng, d: usize) -> J {
    match r.below(if d == 0 { 7 } else { 11 }) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 => J::Str(string(r)),
        3 | 4 => int_j(r),
        5 => J::Float(float(r)),
        6 => J::Pos(r.below(10) as u64),
        7 | 8 => { let n = len(r); J::Arr((0..n).map(|_| j(r, d - 1)).collect()) }
        _ => { let n = len(r); J::Obj((0..n).map(|_| (key(r), j(r, d - 1))).collect()) }
    }
}
pub fn len(r: &mut Rng) -> usize { match r.below(10) { 0 | 1 => 0, 2 | 3 => 1, 4 | 5 => 2, 6 | 7 => 3, 8 => r.below(8), _ => if r.chance(1, 60) { r.below(300) } else { r.below(20) } } }
pub fn key(r: &mut Rng) -> String { if r.chance(1, 2) { (*r.pick(&["a", "b", "c", "k", ""])).to_string() } else { string(r) } }

pub fn ws(r: &mut Rng, o: &mut String) {
    if r.chance(1, 3) { for _ in 0..r.below(4) { o.push(*r.pick(&[' ', '\n', '\t', '\r'])) } }
}
/// string literal with a random mix of escapes
pub fn lit(r: &mut Rng, s: &str, o: &mut String) {
    o.push('"');
    let style = r.below(4);
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if style == 0 && !must { o.push(c); continue }
        let k = r.below(4);
        if !must && k < 2 { o.push(c); continue }
        let short = match c { '"' => Some('"'), '\\' => Some('\\'), '/' => Some('/'), '\u{8}' => Some('b'), '\u{c}' => Some('f'), '\n' => Some('n'), '\r' => Some('r'), '\t' => Some('t'), _ => None };
        if let (Some(x), true) = (short, k != 3) { o.push('\\'); o.push(x); continue }
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            o.push_str("\\u");
            for ch in format!("{:04x}", u).chars() { o.push(if r.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }) }
        }
    }
    o.push('"');
}
pub fn num(r: &mut Rng, f: f64, o: &mut String) {
    match r.below(6) {
        0 => o.push_str(&format!("{:e}", f)),
        1 => o.push_str(&format!("{:E}", f)),
        2 if f.abs() < 1e300 && f.abs() > 1e-300 => o.push_str(&format!("{:.3}", f)),
        3 => number_text(r, o),
        _ => o.push_str(&format!("{:?}", f)),
    }
}
/// any number-shaped text, occasionally wrong
pub fn number_text(r: &mut Rng, o: &mut String) {
    if r.chance(1, 3) { o.push('-') }
    let digs = |r: &mut Rng, o: &mut String, n: usize| for i in 0..n { o.push((b'0' + if i == 0 && n > 1 { 1 + r.below(9) } else { r.below(10) } as u8) as char) };
    match r.below(10) {
        0 => o.push('0'),
        1 => { let n = 1 + r.below(25); digs(r, o, n) }
        2 => { let n = 17 + r.below(6); digs(r, o, n) }
        3 => o.push_str(&format!("{}", u64::MAX as u128 - 12 + r.below(25) as u128)),
        4 => o.push_str(&format!("{}", (1u128 << 63) - 12 + r.below(25) as u128)),
        5 => { o.push_str("1844674407370955161"); let n = r.below(4); for _ in 0..n { o.push((b'0' + r.below(10) as u8) as char) } }
        6 => { let n = 1 + r.below(400); digs(r, o, n) }
        _ => { let n = 1 + r.below(4); digs(r, o, n) }
    }
    if r.chance(2, 5) {
        o.push('.');
        match r.below(6) {
            0 => for _ in 0..r.below(400) { o.push('0') },
            1 => { let n = 1 + r.below(25); for _ in 0..n { o.push((b'0' + r.below(10) as u8) as char) } }
            _ => { let n = 1 + r.below(5); for _ in 0..n { o.push((b'0' + r.below(10) as u8) as char) } }
        }
        if r.chance(2, 3) { let n = 1 + r.below(20); for _ in 0..n { o.push((b'0' + r.below(10) as u8) as char) } }
    }
    if r.chance(2, 5) {
        o.push(if r.chance(1, 2) { 'e' } else { 'E' });
        match r.below(3) { 0 => o.push('+'), 1 => o.push('-'), _ => {} }
        match r.below(8) {
            0 => o.push_str(&r.below(700).to_string()),
            1 => o.push_str(&(2147483640 + r.below(16) as u64).to_string()),
            2 => o.push_str(&(300 + r.below(30)).to_string()),
            3 => o.push_str(&(600 + r.below(30)).to_string()),
            4 => { for _ in 0..r.below(20) { o.push('0') } o.push_str(&r.below(400).to_string()) }
            5 => o.push_str("99999999999999999999"),
            6 => o.push_str(&format!("{}", r.next())),
            _ => o.push_str(&r.below(20).to_string()),
        }
    }
}
pub fn render(r: &mut Rng, j: &J, o: &mut String) {
    ws(r, o);
    match j {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Str(s) => lit(r, s, o),
        J::Neg(0) => o.push_str("-0"),
        J::Neg(n) => o.push_str(&n.to_string()),
        J::Pos(n) => o.push_str(&n.to_string()),
        J::Float(f) => num(r, *f, o),
        J::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } render(r, x, o) } ws(r, o); o.push(']') }
        J::Obj(a) => { o.push('{'); for (i, (k, x)) in a.iter().enumerate() { if i > 0 { o.push(',') } ws(r, o); lit(r, k, o); ws(r, o); o.push(':'); render(r, x, o) } ws(r, o); o.push('}') }
    }
    ws(r, o);
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = c.len();
        let alpha: &[char] = &['[', ']', '{', '}', ',', ':', '"', '\\', 'u', 'd', '8', '0', '1', '9', '.', 'e', 'E', '+', '-', 't', 'n', 'f', ' ', '\n', '\u{0}', '\u{b}', '\u{1f}', 'é', '\u{a0}'];
        match r.below(7) {
            0 if n > 0 => { let i = r.below(n); c.remove(i); }
            1 if n > 0 => { let i = r.below(n); c[i] = *r.pick(alpha); }
            2 if n > 0 => { let i = r.below(n); let x = c[i]; c.insert(i, x); }
            3 if n > 1 => { let i = r.below(n - 1); c.swap(i, i + 1); }
            4 if n > 0 => { let i = r.below(n); c.truncate(i); }
            5 if n > 2 => { let a = r.below(n); let b = a + r.below(n - a); let t: Vec<char> = c[a..b].to_vec(); let i = r.below(n); for (k, x) in t.into_iter().enumerate() { c.insert(i + k, x) } }
            _ => { let i = r.below(n + 1); c.insert(i, *r.pick(alpha)); }
        }
    }
    c.into_iter().collect()
}

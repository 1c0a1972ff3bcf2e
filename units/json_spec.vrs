/// inputs of 2 GiB and more are outside the contract: the exponent counter is 32 bits wide
pub spec const MAX_LEN: int = 0x7fff_0000;

// ---------------------------------------------------------------------------
// JSON text, specified over bytes and mathematical integers (RFC 8259).
// Written from the RFC and the property statements, not from the code.
// ---------------------------------------------------------------------------

pub open spec fn at(s: Seq<u8>, p: int) -> u8 {
    if 0 <= p < s.len() { s[p] } else { 0u8 }
}

pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x0a || b == 0x09 || b == 0x0d }

pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }

pub open spec fn skip_ws(s: Seq<u8>, p: int) -> int
    decreases s.len() - p,
{
    if 0 <= p < s.len() && is_ws(s[p]) { skip_ws(s, p + 1) } else { p }
}

pub open spec fn digits_end(s: Seq<u8>, p: int) -> int
    decreases s.len() - p,
{
    if 0 <= p < s.len() && is_digit(s[p]) { digits_end(s, p + 1) } else { p }
}

pub open spec fn dval(b: u8) -> int { b as int - 0x30 }

/// the literal `w` stands at p
pub open spec fn word_at(s: Seq<u8>, p: int, w: Seq<u8>) -> bool {
    0 <= p && p + w.len() <= s.len() && s.subrange(p, p + w.len()) == w
}

// ---- strings --------------------------------------------------------------

pub open spec fn hexval(b: u8) -> Option<int> {
    if 0x30 <= b <= 0x39 { Some(b as int - 0x30) }
    else if 0x61 <= b <= 0x66 { Some(b as int - 0x61 + 10) }
    else if 0x41 <= b <= 0x46 { Some(b as int - 0x41 + 10) }
    else { None }
}

pub open spec fn hex_prefix(s: Seq<u8>, p: int, k: int) -> Option<int>
    decreases k,
{
    if k <= 0 { Some(0) } else {
        match hex_prefix(s, p, k - 1) {
            None => None,
            Some(n) => if 0 <= p + k - 1 < s.len() {
                match hexval(s[p + k - 1]) { Some(d) => Some(n * 16 + d), None => None }
            } else { None },
        }
    }
}

/// four hex digits at p
pub open spec fn hex4(s: Seq<u8>, p: int) -> Option<int> { hex_prefix(s, p, 4) }

pub open spec fn utf8_of(n: int) -> Seq<u8> { vstd::utf8::encode_scalar(n as u32) }

/// escape sequence whose first byte after the backslash stands at p:
/// the bytes it denotes and the position after it
pub open spec fn escape(s: Seq<u8>, p: int) -> Option<(Seq<u8>, int)> {
    if !(0 <= p < s.len()) { None }
    else if s[p] == 0x22 { Some((seq![0x22u8], p + 1)) }
    else if s[p] == 0x5c { Some((seq![0x5cu8], p + 1)) }
    else if s[p] == 0x2f { Some((seq![0x2fu8], p + 1)) }
    else if s[p] == 0x62 { Some((seq![0x08u8], p + 1)) }
    else if s[p] == 0x66 { Some((seq![0x0cu8], p + 1)) }
    else if s[p] == 0x6e { Some((seq![0x0au8], p + 1)) }
    else if s[p] == 0x72 { Some((seq![0x0du8], p + 1)) }
    else if s[p] == 0x74 { Some((seq![0x09u8], p + 1)) }
    else if s[p] == 0x75 {
        match hex4(s, p + 1) {
            None => None,
            Some(n1) =>
                if 0xDC00 <= n1 <= 0xDFFF { None }
                else if 0xD800 <= n1 <= 0xDBFF {
                    if at(s, p + 5) == 0x5c && at(s, p + 6) == 0x75 {
                        match hex4(s, p + 7) {
                            None => None,
                            Some(n2) => if 0xDC00 <= n2 <= 0xDFFF {
                                Some((utf8_of(0x10000 + (n1 - 0xD800) * 0x400 + (n2 - 0xDC00)), p + 11))
                            } else { None },
                        }
                    } else { None }
                }
                else { Some((utf8_of(n1), p + 5)) },
        }
    }
    else { None }
}

pub open spec fn prepend(a: Seq<u8>, r: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> {
    match r { None => None, Some((t, e)) => Some((a + t, e)) }
}

/// body of a string literal from p up to its closing quote: decoded bytes and
/// the position after the quote
pub open spec fn str_body(s: Seq<u8>, p: int) -> Option<(Seq<u8>, int)>
    decreases s.len() - p,
{
    if !(0 <= p < s.len()) { None }
    else if s[p] == 0x22 { Some((Seq::empty(), p + 1)) }
    else if s[p] == 0x5c {
        match escape(s, p + 1) {
            None => None,
            Some((b, q)) => if q > p { prepend(b, str_body(s, q)) } else { None },
        }
    }
    else if s[p] < 0x20 { None }
    else { prepend(seq![s[p]], str_body(s, p + 1)) }
}

// ---- numbers --------------------------------------------------------------

/// greedy significand: digits are absorbed while the value fits in 64 bits
pub open spec fn sig_end(s: Seq<u8>, p: int, sig: int) -> (int, int)
    decreases s.len() - p,
{
    if 0 <= p < s.len() && is_digit(s[p]) && sig * 10 + dval(s[p]) <= u64::MAX {
        sig_end(s, p + 1, sig * 10 + dval(s[p]))
    } else { (sig, p) }
}

/// value of the digits in [p, q) appended to v
pub open spec fn dec(s: Seq<u8>, p: int, q: int, v: int) -> int
    decreases q - p,
{
    if p < q { dec(s, p + 1, q, v * 10 + dval(at(s, p))) } else { v }
}

pub enum Num { Neg(i64), Nonneg(u64), Float(f64) }

pub open spec fn signed_num(nonneg: bool, sig: int) -> Num {
    if nonneg { Num::Nonneg(sig as u64) }
    else if sig <= 0x8000_0000_0000_0000 { Num::Neg((-sig) as i64) }
    else { Num::Float(f_neg(f_of_u64(sig as u64))) }
}

/// exponent part whose 'e' stands at p: Some((value, end)) with sign applied
pub open spec fn exp_part(s: Seq<u8>, p: int) -> Option<(int, int)> {
    let sgn = at(s, p + 1);
    let d = if sgn == 0x2b || sgn == 0x2d { p + 2 } else { p + 1 };
    if is_digit(at(s, d)) {
        let q = digits_end(s, d);
        let v = dec(s, d, q, 0);
        Some((if sgn == 0x2d { -v } else { v }, q))
    } else { None }
}

/// after the digits: significand `sig`, decimal exponent `x`, cursor p at 'e' or past the number
pub open spec fn with_exp(s: Seq<u8>, p: int, nonneg: bool, sig: int, x: int) -> Option<(f64, int)> {
    if at(s, p) == 0x65 || at(s, p) == 0x45 {
        match exp_part(s, p) {
            None => None,
            Some((e, q)) => match scaled(nonneg, sig, x + e) { Some(f) => Some((f, q)), None => None },
        }
    } else {
        match scaled(nonneg, sig, x) { Some(f) => Some((f, p)), None => None }
    }
}

/// fraction part whose '.' stands at p
pub open spec fn with_frac(s: Seq<u8>, p: int, nonneg: bool, sig: int, x: int) -> Option<(f64, int)> {
    if !is_digit(at(s, p + 1)) { None } else {
        let (sig2, q) = sig_end(s, p + 1, sig);
        with_exp(s, digits_end(s, q), nonneg, sig2, x - (q - (p + 1)))
    }
}

/// integer digits done with significand `sig`, `x` digits dropped, cursor p
pub open spec fn with_tail(s: Seq<u8>, p: int, nonneg: bool, sig: int, x: int) -> Option<(f64, int)> {
    if at(s, p) == 0x2e { with_frac(s, p, nonneg, sig, x) } else { with_exp(s, p, nonneg, sig, x) }
}

pub open spec fn float_of(r: Option<(f64, int)>) -> Option<(Num, int)> {
    match r { Some((f, q)) => Some((Num::Float(f), q)), None => None }
}

/// number without its sign; p at the first digit
pub open spec fn number(s: Seq<u8>, p: int, nonneg: bool) -> Option<(Num, int)> {
    if !is_digit(at(s, p)) { None }
    else if at(s, p) == 0x30 && is_digit(at(s, p + 1)) { None }
    else {
        let (sig, q) = sig_end(s, p, 0);
        let e = digits_end(s, q);
        if at(s, e) == 0x2e || at(s, e) == 0x65 || at(s, e) == 0x45 || e != q {
            float_of(with_tail(s, e, nonneg, sig, e - q))
        } else {
            Some((signed_num(nonneg, sig), e))
        }
    }
}

// ---- tokens ---------------------------------------------------------------

pub enum Ev { Null, Bool(bool), Str(Seq<u8>), Neg(i64), Nonneg(u64), Float(f64), SeqStart, MapStart }

pub open spec fn num_ev(r: Option<(Num, int)>) -> Option<(Ev, int)> {
    match r {
        None => None,
        Some((Num::Neg(n), q)) => Some((Ev::Neg(n), q)),
        Some((Num::Nonneg(n), q)) => Some((Ev::Nonneg(n), q)),
        Some((Num::Float(f), q)) => Some((Ev::Float(f), q)),
    }
}

pub open spec fn str_ev(r: Option<(Seq<u8>, int)>) -> Option<(Ev, int)> {
    match r { None => None, Some((t, q)) => Some((Ev::Str(t), q)) }
}

pub open spec fn w_ull() -> Seq<u8> { seq![0x75u8, 0x6c, 0x6c] }
pub open spec fn w_rue() -> Seq<u8> { seq![0x72u8, 0x75, 0x65] }
pub open spec fn w_alse() -> Seq<u8> { seq![0x61u8, 0x6c, 0x73, 0x65] }

/// first token of a value at p, where p is past the whitespace
pub open spec fn token(s: Seq<u8>, p: int) -> Option<(Ev, int)> {
    if !(0 <= p < s.len()) { None }
    else if s[p] == 0x22 { str_ev(str_body(s, p + 1)) }
    else if is_digit(s[p]) { num_ev(number(s, p, true)) }
    else if s[p] == 0x2d { num_ev(number(s, p + 1, false)) }
    else if s[p] == 0x7b { Some((Ev::MapStart, p + 1)) }
    else if s[p] == 0x5b { Some((Ev::SeqStart, p + 1)) }
    else if s[p] == 0x6e { if word_at(s, p + 1, w_ull()) { Some((Ev::Null, p + 4)) } else { None } }
    else if s[p] == 0x74 { if word_at(s, p + 1, w_rue()) { Some((Ev::Bool(true), p + 4)) } else { None } }
    else if s[p] == 0x66 { if word_at(s, p + 1, w_alse()) { Some((Ev::Bool(false), p + 5)) } else { None } }
    else { None }
}

pub open spec fn lex(s: Seq<u8>, p: int) -> Option<(Ev, int)> { token(s, skip_ws(s, p)) }

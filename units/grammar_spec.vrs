pub struct Part { pub calls: Seq<Call>, pub end: Option<int> }   // end None: malformed

pub open spec fn pcat(a: Seq<Call>, r: Part) -> Part { Part { calls: a + r.calls, end: r.end } }

/// value = ws (string | number | literal | '[' .. | '{' ..)
pub open spec fn g_value(s: Seq<u8>, p: int, vis: int, k: int) -> Part
    decreases s.len() - p, 0int,
{
    match lex(s, p) {
        None => Part { calls: Seq::empty(), end: None },
        Some((ev, q)) => if !(p < q <= s.len()) { Part { calls: Seq::empty(), end: None } } else {
            match ev {
                Ev::SeqStart => pcat(seq![Call::Val(vis, ev)], g_members(s, q, Frame { map: false, id: k }, k + 1, false)),
                Ev::MapStart => pcat(seq![Call::Val(vis, ev)], g_members(s, q, Frame { map: true, id: k }, k + 1, false)),
                _ => Part { calls: seq![Call::Val(vis, ev)], end: Some(q) },
            }
        },
    }
}

/// rest of a container: `more` after a member -- (',' member)* close, else -- close | member (',' member)* close
pub open spec fn g_members(s: Seq<u8>, p: int, fr: Frame, k: int, more: bool) -> Part
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    let close = if fr.map { 0x7du8 } else { 0x5du8 };
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { g_member(s, w, fr, k) } else { Part { calls: Seq::empty(), end: None } } }
    else if s[w] == close { Part { calls: seq![Call::End(fr.id, fr.map)], end: Some(w + 1) } }
    else if s[w] == 0x7d || s[w] == 0x5d { Part { calls: Seq::empty(), end: None } }
    else if more {
        if s[w] == 0x2c { g_member(s, w + 1, fr, k) } else { Part { calls: Seq::empty(), end: None } }
    } else { g_member(s, w, fr, k) }
}

/// array member = value; object member = string ':' value; then the rest of the container
pub open spec fn g_member(s: Seq<u8>, p: int, fr: Frame, k: int) -> Part
    decreases s.len() - p, 2int,
{
    if !fr.map { pcat(seq![Call::Elem(fr.id)], g_rest(s, p, fr, k)) }
    else {
        let w = skip_ws(s, p);
        if at(s, w) != 0x22 { Part { calls: Seq::empty(), end: None } } else {
            match str_body(s, w + 1) {
                None => Part { calls: Seq::empty(), end: None },
                Some((t, q)) => pcat(seq![Call::Key(fr.id, t)], {
                    let c = skip_ws(s, q);
                    if at(s, c) == 0x3a && p < c < s.len() { g_rest(s, c + 1, fr, k) }
                    else { Part { calls: Seq::empty(), end: None } }
                }),
            }
        }
    }
}

pub open spec fn g_rest(s: Seq<u8>, c: int, fr: Frame, k: int) -> Part
    decreases s.len() - c, 1int,
{
    let v = g_value(s, c, k, k + 1);
    match v.end {
        None => v,
        Some(q) => if c < q <= s.len() { pcat(v.calls, g_members(s, q, fr, k + 1 + v.calls.len(), true)) }
            else { Part { calls: v.calls, end: None } },
    }
}

/// the text is exactly one JSON value with optional whitespace around it
pub open spec fn is_json(s: Seq<u8>) -> bool {
    match g_value(s, 0, ROOT(), 0).end { None => false, Some(q) => skip_ws(s, q) == s.len() }
}


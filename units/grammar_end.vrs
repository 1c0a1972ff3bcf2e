proof fn lem_value_end(s: Seq<u8>, c: int, vis: int, k: int)
    ensures g_value(s, c, vis, k).end is Some ==> c < g_value(s, c, vis, k).end->0 <= s.len(),
    decreases s.len() - c, 0int,
{
    match lex(s, c) {
        None => {},
        Some((ev, q)) => if c < q <= s.len() {
            lem_members_end(s, q, Frame { map: false, id: k }, k + 1, false);
            lem_members_end(s, q, Frame { map: true, id: k }, k + 1, false);
        },
    }
}
proof fn lem_members_end(s: Seq<u8>, p: int, fr: Frame, k: int, more: bool)
    ensures g_members(s, p, fr, k, more).end is Some ==> p < g_members(s, p, fr, k, more).end->0 <= s.len(),
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if p <= w <= s.len() {
        if w < s.len() { lem_member_end(s, w + 1, fr, k); }
        lem_member_end(s, w, fr, k);
    }
}
proof fn lem_member_end(s: Seq<u8>, p: int, fr: Frame, k: int)
    ensures g_member(s, p, fr, k).end is Some ==> p < g_member(s, p, fr, k).end->0 <= s.len(),
    decreases s.len() - p, 2int,
{
    let w = skip_ws(s, p);
    let c = if !fr.map { p } else if str_body(s, w + 1) is Some { skip_ws(s, (str_body(s, w + 1)->0).1) + 1 } else { p };
    if p <= c {
        let v = g_value(s, c, k, k + 1);
        match v.end {
            Some(q) => { if c < q <= s.len() { lem_members_end(s, q, fr, k + 1 + v.calls.len(), true); } },
            None => {},
        }
    }
}

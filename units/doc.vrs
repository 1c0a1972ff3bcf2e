// ---------------------------------------------------------------------------
// The document of a text: the calls the grammar derives are those of one document.
// ---------------------------------------------------------------------------
/// the calls that hand a document to a receiver
pub open spec fn jevs(j: J, vis: int, k: int) -> Seq<Call>
    decreases j, 0int,
{
    match j {
        J::Null => seq![Call::Val(vis, Ev::Null)],
        J::Bool(b) => seq![Call::Val(vis, Ev::Bool(b))],
        J::Str(s) => seq![Call::Val(vis, Ev::Str(s))],
        J::Neg(n) => seq![Call::Val(vis, Ev::Neg(n))],
        J::Nonneg(n) => seq![Call::Val(vis, Ev::Nonneg(n))],
        J::Float(n) => seq![Call::Val(vis, Ev::Float(n))],
        J::List(js) => seq![Call::Val(vis, Ev::SeqStart)] + jevs_elems(js, 0, k, k + 1),
        J::Obj(ms) => seq![Call::Val(vis, Ev::MapStart)] + jevs_members(ms, 0, k, k + 1),
    }
}
pub open spec fn jevs_elems(js: Seq<J>, i: int, id: int, k: int) -> Seq<Call>
    decreases js, js.len() - i,
{
    if 0 <= i < js.len() {
        let v = jevs(js[i], k, k + 1);
        seq![Call::Elem(id)] + (v + jevs_elems(js, i + 1, id, k + 1 + v.len()))
    } else { seq![Call::End(id, false)] }
}
pub open spec fn jevs_members(ms: Members, i: int, id: int, k: int) -> Seq<Call>
    decreases ms, ms.len() - i,
{
    if 0 <= i < ms.len() {
        let v = jevs(ms[i].1, k, k + 1);
        seq![Call::Key(id, ms[i].0)] + (v + jevs_members(ms, i + 1, id, k + 1 + v.len()))
    } else { seq![Call::End(id, true)] }
}
pub open spec fn ev_doc(ev: Ev) -> J {
    match ev {
        Ev::Bool(b) => J::Bool(b),
        Ev::Str(s) => J::Str(s),
        Ev::Neg(n) => J::Neg(n),
        Ev::Nonneg(n) => J::Nonneg(n),
        Ev::Float(f) => J::Float(f),
        _ => J::Null,
    }
}
/// the text denotes this document
pub open spec fn reads(s: Seq<u8>, j: J) -> bool { is_json(s) && g_value(s, 0, ROOT(), 0).calls == jevs(j, ROOT(), 0) }

// the document itself, by recursion over the text as in the grammar
pub open spec fn d_value(s: Seq<u8>, p: int) -> Option<(J, int)>
    decreases s.len() - p, 0int,
{
    match lex(s, p) {
        None => None,
        Some((ev, q)) => if !(p < q <= s.len()) { None } else {
            match ev {
                Ev::SeqStart => match d_elems(s, q, false, Seq::empty()) { Some((js, e)) => Some((J::List(js), e)), None => None },
                Ev::MapStart => match d_members(s, q, false, Seq::empty()) { Some((ms, e)) => Some((J::Obj(ms), e)), None => None },
                _ => Some((ev_doc(ev), q)),
            }
        },
    }
}
pub open spec fn d_elems(s: Seq<u8>, p: int, more: bool, acc: Seq<J>) -> Option<(Seq<J>, int)>
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { d_elem(s, w, acc) } else { None } }
    else if s[w] == 0x5d { Some((acc, w + 1)) }
    else if s[w] == 0x7d { None }
    else if more { if s[w] == 0x2c { d_elem(s, w + 1, acc) } else { None } }
    else { d_elem(s, w, acc) }
}
pub open spec fn d_elem(s: Seq<u8>, c: int, acc: Seq<J>) -> Option<(Seq<J>, int)>
    decreases s.len() - c, 1int,
{
    match d_value(s, c) {
        None => None,
        Some((j, q)) => if c < q <= s.len() { d_elems(s, q, true, acc.push(j)) } else { None },
    }
}
pub open spec fn d_members(s: Seq<u8>, p: int, more: bool, acc: Members) -> Option<(Members, int)>
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { d_member(s, w, acc) } else { None } }
    else if s[w] == 0x7d { Some((acc, w + 1)) }
    else if s[w] == 0x5d { None }
    else if more { if s[w] == 0x2c { d_member(s, w + 1, acc) } else { None } }
    else { d_member(s, w, acc) }
}
pub open spec fn d_member(s: Seq<u8>, p: int, acc: Members) -> Option<(Members, int)>
    decreases s.len() - p, 2int,
{
    let w = skip_ws(s, p);
    if at(s, w) != 0x22 { None } else {
        match str_body(s, w + 1) {
            None => None,
            Some((t, q)) => {
                let c = skip_ws(s, q);
                if at(s, c) == 0x3a && p < c < s.len() {
                    match d_value(s, c + 1) {
                        None => None,
                        Some((j, e)) => if c + 1 < e <= s.len() { d_members(s, e, true, acc.push((t, j))) } else { None },
                    }
                } else { None }
            }
        }
    }
}
proof fn lem_rest_end(s: Seq<u8>, c: int, fr: Frame, k: int)
    ensures ({
        let v = g_value(s, c, k, k + 1);
        let g = g_rest(s, c, fr, k);
        match v.end {
            None => g.end is None,
            Some(q) => if c < q <= s.len() {
                let r = g_members(s, q, fr, k + 1 + v.calls.len(), true);
                g.end == r.end && g.calls == v.calls + r.calls
            } else { g.end is None },
        }
    }),
{
    hide(lex); hide(str_body); hide(skip_ws);
}
proof fn lem_elem_step(js: Seq<J>, n: int, j: J, id: int, k: int)
    requires 0 <= n < js.len(), js[n] == j,
    ensures jevs_elems(js, n, id, k) == seq![Call::Elem(id)] + (jevs(j, k, k + 1) + jevs_elems(js, n + 1, id, k + 1 + jevs(j, k, k + 1).len())),
{ }
proof fn lem_member_step(js: Members, n: int, t: Seq<u8>, j: J, id: int, k: int)
    requires 0 <= n < js.len(), js[n] == (t, j),
    ensures jevs_members(js, n, id, k) == seq![Call::Key(id, t)] + (jevs(j, k, k + 1) + jevs_members(js, n + 1, id, k + 1 + jevs(j, k, k + 1).len())),
{ }
proof fn lem_g_elem(s: Seq<u8>, c: int, id: int, k: int)
    ensures g_member(s, c, Frame { map: false, id }, k) == pcat(seq![Call::Elem(id)], g_rest(s, c, Frame { map: false, id }, k)),
{ hide(skip_ws); hide(str_body); hide(lex); }
proof fn lem_g_key(s: Seq<u8>, p: int, id: int, k: int)
    ensures ({
        let fr = Frame { map: true, id };
        let g = g_member(s, p, fr, k);
        let w = skip_ws(s, p);
        if at(s, w) != 0x22 { g.end is None } else {
            match str_body(s, w + 1) {
                None => g.end is None,
                Some((t, q)) => {
                    let c = skip_ws(s, q);
                    if at(s, c) == 0x3a && p < c < s.len() {
                        g == pcat(seq![Call::Key(id, t)], g_rest(s, c + 1, fr, k))
                    } else { g.end is None }
                }
            }
        }
    }),
{ hide(skip_ws); hide(str_body); hide(lex); }
proof fn lem_d_value(s: Seq<u8>, p: int, vis: int, k: int)
    ensures
        g_value(s, p, vis, k).end is Some <==> d_value(s, p) is Some,
        d_value(s, p) matches Some((j, e)) ==> g_value(s, p, vis, k) == (Part { calls: jevs(j, vis, k), end: Some(e) }),
    decreases s.len() - p, 0int,
{
    hide(lex);
    match lex(s, p) {
        None => {},
        Some((ev, q)) => if p < q <= s.len() {
            match ev {
                Ev::SeqStart => { lem_d_elems(s, q, false, Seq::empty(), k, k + 1); },
                Ev::MapStart => { lem_d_members(s, q, false, Seq::empty(), k, k + 1); },
                _ => {},
            }
        },
    }
}
proof fn lem_d_elems(s: Seq<u8>, p: int, more: bool, acc: Seq<J>, id: int, k: int)
    ensures
        g_members(s, p, Frame { map: false, id }, k, more).end is Some <==> d_elems(s, p, more, acc) is Some,
        d_elems(s, p, more, acc) matches Some((js, e)) ==> acc.len() <= js.len() && js.take(acc.len() as int) == acc
            && g_members(s, p, Frame { map: false, id }, k, more) == (Part { calls: jevs_elems(js, acc.len() as int, id, k), end: Some(e) }),
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    assert(acc.take(acc.len() as int) =~= acc);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { lem_d_elem(s, w, acc, id, k); } }
    else if s[w] == 0x5d { }
    else if s[w] == 0x7d { }
    else if more { if s[w] == 0x2c { lem_d_elem(s, w + 1, acc, id, k); } }
    else { lem_d_elem(s, w, acc, id, k); }
}
proof fn lem_d_elem(s: Seq<u8>, c: int, acc: Seq<J>, id: int, k: int)
    ensures
        g_member(s, c, Frame { map: false, id }, k).end is Some <==> d_elem(s, c, acc) is Some,
        d_elem(s, c, acc) matches Some((js, e)) ==> acc.len() <= js.len() && js.take(acc.len() as int) == acc
            && g_member(s, c, Frame { map: false, id }, k) == (Part { calls: jevs_elems(js, acc.len() as int, id, k), end: Some(e) }),
    decreases s.len() - c, 1int,
{
    hide(g_value); hide(g_members); hide(g_member); hide(g_rest); hide(jevs); hide(jevs_elems);
    lem_d_value(s, c, k, k + 1);
    lem_g_elem(s, c, id, k);
    lem_rest_end(s, c, Frame { map: false, id }, k);
    match d_value(s, c) {
        None => {},
        Some((j, q)) => if c < q <= s.len() {
            let v = jevs(j, k, k + 1);
            let ac2 = acc.push(j);
            lem_d_elems(s, q, true, ac2, id, k + 1 + v.len());
            if let Some((js, e)) = d_elems(s, q, true, ac2) {
                assert(js.take(acc.len() as int) =~= ac2.take(acc.len() as int));
                assert(ac2.take(acc.len() as int) =~= acc);
                assert(js[acc.len() as int] == js.take(ac2.len() as int)[acc.len() as int]);
                lem_elem_step(js, acc.len() as int, j, id, k);
            }
        },
    }
}
proof fn lem_d_members(s: Seq<u8>, p: int, more: bool, acc: Members, id: int, k: int)
    ensures
        g_members(s, p, Frame { map: true, id }, k, more).end is Some <==> d_members(s, p, more, acc) is Some,
        d_members(s, p, more, acc) matches Some((js, e)) ==> acc.len() <= js.len() && js.take(acc.len() as int) == acc
            && g_members(s, p, Frame { map: true, id }, k, more) == (Part { calls: jevs_members(js, acc.len() as int, id, k), end: Some(e) }),
    decreases s.len() - p, 3int,
{
    hide(str_body);
    let w = skip_ws(s, p);
    assert(acc.take(acc.len() as int) =~= acc);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { lem_d_member(s, w, acc, id, k); } }
    else if s[w] == 0x7d { }
    else if s[w] == 0x5d { }
    else if more { if s[w] == 0x2c { lem_d_member(s, w + 1, acc, id, k); } }
    else { lem_d_member(s, w, acc, id, k); }
}
proof fn lem_d_member(s: Seq<u8>, p: int, acc: Members, id: int, k: int)
    ensures
        g_member(s, p, Frame { map: true, id }, k).end is Some <==> d_member(s, p, acc) is Some,
        d_member(s, p, acc) matches Some((js, e)) ==> acc.len() <= js.len() && js.take(acc.len() as int) == acc
            && g_member(s, p, Frame { map: true, id }, k) == (Part { calls: jevs_members(js, acc.len() as int, id, k), end: Some(e) }),
    decreases s.len() - p, 2int,
{
    hide(g_value); hide(g_members); hide(str_body); hide(skip_ws); hide(g_member); hide(g_rest); hide(jevs); hide(jevs_members); hide(lex);
    lem_g_key(s, p, id, k);
    let w = skip_ws(s, p);
    if at(s, w) == 0x22 {
        if let Some((t, q)) = str_body(s, w + 1) {
            let c = skip_ws(s, q);
            if at(s, c) == 0x3a && p < c < s.len() {
                lem_d_value(s, c + 1, k, k + 1);
                lem_rest_end(s, c + 1, Frame { map: true, id }, k);
                if let Some((j, e)) = d_value(s, c + 1) {
                    if c + 1 < e <= s.len() {
                        let v = jevs(j, k, k + 1);
                        let ac2 = acc.push((t, j));
                        lem_d_members(s, e, true, ac2, id, k + 1 + v.len());
                        if let Some((js, z)) = d_members(s, e, true, ac2) {
                            assert(js.take(acc.len() as int) =~= ac2.take(acc.len() as int));
                            assert(ac2.take(acc.len() as int) =~= acc);
                            assert(js[acc.len() as int] == js.take(ac2.len() as int)[acc.len() as int]);
                            lem_member_step(js, acc.len() as int, t, j, id, k);
                        }
                    }
                }
            }
        }
    }
}
/// every accepted text denotes a document
pub proof fn lem_text_document(s: Seq<u8>)
    requires is_json(s),
    ensures d_value(s, 0) is Some, reads(s, (d_value(s, 0)->0).0),
{ lem_d_value(s, 0, ROOT(), 0); }
pub proof fn every_text_has_a_document(s: Seq<u8>)
    requires is_json(s),
    ensures exists|j: J| reads(s, j),
{
    lem_text_document(s);
    assert(reads(s, (d_value(s, 0)->0).0));
}

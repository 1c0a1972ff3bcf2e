// ---------------------------------------------------------------------------
// The same event sequence, defined by recursion over the grammar of RFC 8259
// (value, array, object, member), and the proof that the push-down machine
// used in the contract of from_str_impl computes exactly this.
// ---------------------------------------------------------------------------
//@include grammar_spec.vrs
pub open spec fn run_of(v: Part, s: Seq<u8>, st: Seq<Frame>, k: int) -> Run {
    match v.end {
        None => Run { calls: v.calls, ok: false },
        Some(q) => cat(v.calls, after(s, q, st, k + v.calls.len())),
    }
}

proof fn lem_run_pcat(c: Call, v: Part, s: Seq<u8>, st: Seq<Frame>, k: int)
    ensures run_of(pcat(seq![c], v), s, st, k) == cat(seq![c], run_of(v, s, st, k + 1)),
{
    match v.end {
        None => {},
        Some(q) => { assert((seq![c] + v.calls) + after(s, q, st, k + 1 + v.calls.len()).calls =~= seq![c] + (v.calls + after(s, q, st, k + 1 + v.calls.len()).calls)); },
    }
}

proof fn lem_need(s: Seq<u8>, p: int, vis: int, st: Seq<Frame>, k: int)
    ensures need(s, p, vis, st, k) == run_of(g_value(s, p, vis, k), s, st, k),
    decreases s.len() - p, 0int,
{
    match lex(s, p) {
        None => {},
        Some((ev, q)) => if p < q <= s.len() {
            match ev {
                Ev::SeqStart => {
                    let fr = Frame { map: false, id: k };
                    lem_inside(s, q, fr, st, k + 1, false);
                    lem_run_pcat(Call::Val(vis, ev), g_members(s, q, fr, k + 1, false), s, st, k);
                },
                Ev::MapStart => {
                    let fr = Frame { map: true, id: k };
                    lem_inside(s, q, fr, st, k + 1, false);
                    lem_run_pcat(Call::Val(vis, ev), g_members(s, q, fr, k + 1, false), s, st, k);
                },
                _ => {},
            }
        },
    }
}

proof fn lem_inside(s: Seq<u8>, p: int, fr: Frame, st: Seq<Frame>, k: int, comma: bool)
    requires p <= s.len(),
    ensures inside(s, p, fr, st, k, comma) == run_of(g_members(s, p, fr, k, comma), s, st, k),
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if p <= w <= s.len() {
        if w < s.len() && comma && s[w] == 0x2c { lem_item(s, w + 1, fr, st, k); }
        else if w < s.len() && s[w] == (if fr.map { 0x7du8 } else { 0x5du8 }) { }
        else if w < s.len() && (s[w] == 0x7d || s[w] == 0x5d) { }
        else if comma { }
        else { lem_item(s, w, fr, st, k); }
    }
}

proof fn lem_item(s: Seq<u8>, p: int, fr: Frame, st: Seq<Frame>, k: int)
    ensures item(s, p, fr, st, k) == run_of(g_member(s, p, fr, k), s, st, k),
    decreases s.len() - p, 2int,
{
    if !fr.map {
        lem_rest(s, p, fr, st, k);
        lem_run_pcat(Call::Elem(fr.id), g_rest(s, p, fr, k), s, st, k);
    } else {
        let w = skip_ws(s, p);
        if at(s, w) == 0x22 {
            match str_body(s, w + 1) {
                None => {},
                Some((t, q)) => {
                    let c = skip_ws(s, q);
                    let r = if at(s, c) == 0x3a && p < c < s.len() { g_rest(s, c + 1, fr, k) } else { Part { calls: Seq::empty(), end: None } };
                    if at(s, c) == 0x3a && p < c < s.len() { lem_rest(s, c + 1, fr, st, k); }
                    lem_run_pcat(Call::Key(fr.id, t), r, s, st, k);
                },
            }
        }
    }
}

//@include grammar_end.vrs
proof fn lem_run_pcats(cs: Seq<Call>, m: Part, s: Seq<u8>, st: Seq<Frame>, k: int)
    ensures run_of(pcat(cs, m), s, st, k) == cat(cs, run_of(m, s, st, k + cs.len())),
{
    match m.end {
        None => {},
        Some(z) => {
            let a = after(s, z, st, k + cs.len() + m.calls.len());
            assert((cs + m.calls) + a.calls =~= cs + (m.calls + a.calls));
        },
    }
}
proof fn lem_after_push(s: Seq<u8>, q: int, fr: Frame, st: Seq<Frame>, k: int)
    ensures after(s, q, st.push(fr), k) == inside(s, q, fr, st, k, true),
{
    assert(st.push(fr).last() == fr);
    assert(st.push(fr).drop_last() =~= st);
}
proof fn lem_g_rest(s: Seq<u8>, c: int, fr: Frame, k: int)
    ensures ({
        let v = g_value(s, c, k, k + 1);
        g_rest(s, c, fr, k) == match v.end {
            None => v,
            Some(q) => if c < q <= s.len() { pcat(v.calls, g_members(s, q, fr, k + 1 + v.calls.len(), true)) }
                else { Part { calls: v.calls, end: None } },
        } }),
{
}
proof fn lem_rest(s: Seq<u8>, c: int, fr: Frame, st: Seq<Frame>, k: int)
    ensures need(s, c, k, st.push(fr), k + 1) == run_of(g_rest(s, c, fr, k), s, st, k + 1),
    decreases s.len() - c, 1int,
{
    hide(inside); hide(need); hide(g_value); hide(g_members); hide(after);
    lem_need(s, c, k, st.push(fr), k + 1);
    lem_value_end(s, c, k, k + 1);
    lem_g_rest(s, c, fr, k);
    let v = g_value(s, c, k, k + 1);
    match v.end {
        None => {},
        Some(q) => {
            let k2 = k + 1 + v.calls.len();
            lem_inside(s, q, fr, st, k2, true);
            lem_after_push(s, q, fr, st, k2);
            lem_run_pcats(v.calls, g_members(s, q, fr, k2, true), s, st, k + 1);
        },
    }
}

/// the machine of from_str_impl's contract is the grammar
//@lemma C01 C19
proof fn machine_is_grammar(s: Seq<u8>)
    ensures document(s).ok == is_json(s),
        document(s).calls == g_value(s, 0, ROOT(), 0).calls,
{
    broadcast use driver_lemmas;
    lem_need(s, 0, ROOT(), Seq::empty(), 0);
    let v = g_value(s, 0, ROOT(), 0);
    match v.end { None => {}, Some(q) => { assert(v.calls + Seq::<Call>::empty() =~= v.calls); } }
}

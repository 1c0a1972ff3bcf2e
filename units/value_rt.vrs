// ---- a dynamic value comes back ------------------------------------------------------------
/// no float in it is NaN or infinite
pub open spec fn vplain(v: Value) -> bool
    decreases v via vplain_owns
{
    match v {
        Value::Number(n) => num_plain(n),
        Value::Array(a) => forall|i: int| 0 <= i < a.inner@.len() ==> vplain(#[trigger] a.inner@[i]),
        Value::Object(o) => forall|k: String| o.inner@.dom().contains(k) ==> vplain(#[trigger] o.inner@[k]),
        _ => true,
    }
}
#[via_fn]
proof fn vplain_owns(v: Value) {
    match v {
        Value::Object(o) => { assert forall|k: String| o.inner@.dom().contains(k) implies decreases_to!(v => #[trigger] o.inner@[k]) by { ax_map_owns(o.inner, k); } },
        _ => {},
    }
}
pub open spec fn num_plain(n: Number) -> bool { n matches Number::F64(f) ==> f_finite(f) }
/// equal; a float is read back from its text
pub open spec fn num_same(n: Number, m: Number) -> bool {
    match (n, m) {
        (Number::U64(a), Number::U64(b)) => a == b,
        (Number::I64(a), Number::I64(b)) => a == b,
        (Number::I64(a), Number::U64(b)) => a == b,
        (Number::F64(a), Number::F64(b)) => b == reread(a),
        _ => false,
    }
}
pub open spec fn vsame(v: Value, w: Value) -> bool
    decreases v via vsame_owns
{
    match (v, w) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(n), Value::Number(m)) => num_same(n, m),
        (Value::String(s), Value::String(t)) => s@ == t@,
        (Value::Array(a), Value::Array(b)) => a.inner@.len() == b.inner@.len()
            && forall|i: int| 0 <= i < a.inner@.len() ==> vsame(#[trigger] a.inner@[i], b.inner@[i]),
        (Value::Object(a), Value::Object(b)) => a.inner@.dom() =~= b.inner@.dom()
            && forall|k: String| a.inner@.dom().contains(k) ==> vsame(#[trigger] a.inner@[k], b.inner@[k]),
        _ => false,
    }
}
#[via_fn]
proof fn vsame_owns(v: Value, w: Value) {
    match v {
        Value::Object(o) => { assert forall|k: String| o.inner@.dom().contains(k) implies decreases_to!(v => #[trigger] o.inner@[k]) by { ax_map_owns(o.inner, k); } },
        _ => {},
    }
}
pub open spec fn values_same(a: Seq<Value>, b: Seq<Value>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> vsame(#[trigger] a[i], b[i]) }
pub open spec fn members_same(a: Map<String, Value>, b: Map<String, Value>) -> bool {
    a.dom() =~= b.dom() && forall|k: String| a.dom().contains(k) ==> vsame(#[trigger] a[k], b[k])
}
proof fn lem_plain_list(v: Value)
    ensures vplain(v) <==> match v {
        Value::Number(n) => num_plain(n),
        Value::Array(a) => forall|i: int| 0 <= i < a.inner@.len() ==> vplain(#[trigger] a.inner@[i]),
        Value::Object(o) => forall|k: String| o.inner@.dom().contains(k) ==> vplain(#[trigger] o.inner@[k]),
        _ => true,
    },
{}
proof fn lem_same_parts(v: Value, w: Value)
    ensures (v matches Value::Array(a) && w matches Value::Array(b) && values_same(a.inner@, b.inner@)) ==> vsame(v, w),
        (v matches Value::Object(a) && w matches Value::Object(b) && members_same(a.inner@, b.inner@)) ==> vsame(v, w),
{}
proof fn lem_jof_kids(kids: Seq<Tree>)
    ensures jof(Tree::Seq(kids)) == J::List(jlist(Tree::Seq(kids))), jlist(Tree::Seq(kids)).len() == kids.len(),
        forall|i: int| 0 <= i < kids.len() ==> #[trigger] jlist(Tree::Seq(kids))[i] == jof(kids[i]),
{}
proof fn lem_jof_named(kids: Seq<(Seq<u8>, Tree)>)
    ensures jof(Tree::Map(kids)) == J::Obj(jobj(Tree::Map(kids))), jobj(Tree::Map(kids)).len() == kids.len(),
        forall|i: int| 0 <= i < kids.len() ==> #[trigger] jobj(Tree::Map(kids))[i] == (kids[i].0, jof(kids[i].1)),
{}
proof fn lem_value_list(w: Value, js: Seq<J>)
    requires value_is(w, J::List(js)),
    ensures w matches Value::Array(b) && values_are(b.inner@, js),
{}
proof fn lem_value_obj(w: Value, ms: Members)
    requires value_is(w, J::Obj(ms)),
    ensures w matches Value::Object(b) && members_are(b.inner@, ms),
{}
/// the keys of a printed map come back, one member each
proof fn lem_names_back(m: BTreeMap<String, Value>, n: Map<String, Value>, ms: Members)
    requires names(n, ms), ms.len() == m.order().len(), forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).0 == text_of(m.order()[i].0),
    ensures m@.dom() =~= n.dom(),
        forall|i: int| 0 <= i < ms.len() ==> #[trigger] last_named(ms, i),
{
    hide(text_of);
    broadcast use ax_tree_order;
    let es = m.order();
    assert forall|k: String| m@.dom().contains(k) <==> n.dom().contains(k) by {
        if m@.dom().contains(k) {
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
            let x = choose|x: String| #[trigger] n.dom().contains(x) && text_of(x) == ms[i].0;
            lem_same_text(x, k);
        }
        if n.dom().contains(k) {
            let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == text_of(k);
            lem_same_text(es[i].0, k);
            assert(es[i].0 == k);
        }
    }
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] last_named(ms, i) by {
        assert forall|n: int| i < n < ms.len() implies (#[trigger] ms[n]).0 != ms[i].0 by {
            assert(es[i].0 != es[n].0);
            if ms[n].0 == ms[i].0 { lem_same_text(es[n].0, es[i].0); }
        }
    }
}
/// whatever the receiver decodes from the document of the printed value is that value
pub proof fn lem_back(v: Value, w: Value)
    requires vplain(v), value_is(w, jof(vtree(v))),
    ensures vsame(v, w),
    decreases v, 1int,
{
    lem_vtree_shape(v);
    match v {
        Value::Null => {},
        Value::Bool(_) => {},
        Value::Number(_) => {},
        Value::String(s) => {
            if let Value::String(t) = w { encode_utf8_decode_utf8(s@); encode_utf8_decode_utf8(t@); }
        },
        Value::Array(a) => { lem_list_same(v, a, w); },
        Value::Object(o) => { lem_obj_same(v, o, w); },
    }
}
proof fn lem_list_same(v: Value, a: Array, w: Value)
    requires v == Value::Array(a), vplain(v), value_is(w, jof(vtree(v))),
    ensures vsame(v, w),
    decreases v, 0int,
{
    hide(value_is); hide(vtree); hide(jof); hide(vsame); hide(jlist); hide(vplain);
    lem_plain_list(v);
    lem_vtree_shape(v);
    lem_jof_kids(vtrees(a.inner@));
    let js = jlist(Tree::Seq(vtrees(a.inner@)));
    lem_value_list(w, js);
    if let Value::Array(b) = w {
        assert(values_same(a.inner@, b.inner@)) by {
            assert forall|i: int| 0 <= i < a.inner@.len() implies vsame(#[trigger] a.inner@[i], b.inner@[i]) by {
                assert(js[i] == jof(vtree(a.inner@[i])));
                assert(value_is(b.inner@[i], js[i]));
                lem_back(a.inner@[i], b.inner@[i]);
            }
        }
        lem_same_parts(v, w);
    }
}
proof fn lem_obj_same(v: Value, a: Object, w: Value)
    requires v == Value::Object(a), vplain(v), value_is(w, jof(vtree(v))),
    ensures vsame(v, w),
    decreases v, 0int,
{
    hide(value_is); hide(vtree); hide(jof); hide(vsame); hide(jobj); hide(vplain); hide(names); hide(text_of);
    lem_plain_list(v);
    lem_vtree_shape(v);
    lem_jof_named(ventries(a.inner.order()));
    let ms = jobj(Tree::Map(ventries(a.inner.order())));
    lem_value_obj(w, ms);
    if let Value::Object(b) = w {
        assert(members_same(a.inner@, b.inner@)) by {
            let es = a.inner.order();
            ax_tree_order(a.inner);
            assert(ms.len() == es.len());
            assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).0 == text_of(es[i].0) by { }
            lem_names_back(a.inner, b.inner@, ms);
            assert forall|k: String| a.inner@.dom().contains(k) implies vsame(#[trigger] a.inner@[k], b.inner@[k]) by {
                let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
                assert(last_named(ms, i));
                assert(ms[i].1 == jof(vtree(a.inner@[k])));
                assert(value_is(b.inner@[k], ms[i].1));
                ax_map_owns(a.inner, k);
                lem_back(a.inner@[k], b.inner@[k]);
            }
        }
        lem_same_parts(v, w);
    }
}
/// serialize, parse
pub fn value_round_trip(v: &Value) -> (r: Result<Value>)
    requires vplain(*v), print(v.tree()).len() < MAX_LEN,
    ensures r matches Ok(w) && vsame(*v, w),
{
    let s = to_string(v);
    let text = s.as_str();
    proof {
        printed_text_reads(v.tree());
        assert(txt(text) == print(v.tree()));
        assert(reads(txt(text), jof(v.tree())));
    }
    let r = from_str::<Value>(text);
    proof { if r is Ok { lem_back(*v, (r->Ok_0)); } }
    r
}
// ---- what is parsed can be printed and parsed again ------------------------------------------
pub open spec fn jfinite(j: J) -> bool
    decreases j,
{
    match j {
        J::Float(f) => f_finite(f),
        J::List(js) => forall|i: int| 0 <= i < js.len() ==> jfinite(#[trigger] js[i]),
        J::Obj(ms) => forall|i: int| 0 <= i < ms.len() ==> jfinite((#[trigger] ms[i]).1),
        _ => true,
    }
}
proof fn lem_scaled_finite(nonneg: bool, sig: int, x: int)
    requires 0 <= sig <= u64::MAX,
    ensures scaled(nonneg, sig, x) matches Some(f) ==> f_finite(f),
{
    let f = f_of_u64(sig as u64);
    ax_float_finite(sig as u64, x, f);
    ax_float_finite(sig as u64, -x, f);
    ax_float_finite(sig as u64, -x - 308, f_div(f, pow10(308)));
    ax_float_finite(sig as u64, 308, f);
    ax_neg_finite(f_zero()); ax_neg_finite(f_mul(f, pow10(x))); ax_neg_finite(f_div(f, pow10(-x))); ax_neg_finite(f_div(f_div(f, pow10(308)), pow10(-x - 308)));
}
proof fn lem_sig_range(s: Seq<u8>, p: int, sig: int)
    requires 0 <= sig <= u64::MAX,
    ensures 0 <= sig_end(s, p, sig).0 <= u64::MAX,
    decreases s.len() - p,
{ if 0 <= p < s.len() && is_digit(s[p]) && sig * 10 + dval(s[p]) <= u64::MAX { lem_sig_range(s, p + 1, sig * 10 + dval(s[p])); } }
proof fn lem_with_exp_finite(s: Seq<u8>, p: int, nonneg: bool, sig: int, x: int)
    requires 0 <= sig <= u64::MAX,
    ensures with_exp(s, p, nonneg, sig, x) matches Some((f, _)) ==> f_finite(f),
{
    hide(scaled);
    match exp_part(s, p) { Some((e, q)) => { lem_scaled_finite(nonneg, sig, x + e); }, None => {} }
    lem_scaled_finite(nonneg, sig, x);
}
proof fn lem_number_finite(s: Seq<u8>, p: int, nonneg: bool)
    ensures number(s, p, nonneg) matches Some((Num::Float(f), _)) ==> f_finite(f),
{
    hide(with_exp); hide(sig_end); hide(digits_end);
    let (sig, q) = sig_end(s, p, 0);
    lem_sig_range(s, p, 0);
    let e = digits_end(s, q);
    let (sig2, q2) = sig_end(s, e + 1, sig);
    lem_sig_range(s, e + 1, sig);
    lem_with_exp_finite(s, digits_end(s, q2), nonneg, sig2, (e - q) - (q2 - (e + 1)));
    lem_with_exp_finite(s, e, nonneg, sig, e - q);
    ax_float_finite(sig as u64, 0, f_zero());
    ax_neg_finite(f_of_u64(sig as u64));
}
proof fn lem_lex_finite(s: Seq<u8>, p: int)
    ensures lex(s, p) matches Some((Ev::Float(f), _)) ==> f_finite(f),
{
    hide(number); hide(str_body); hide(skip_ws);
    let w = skip_ws(s, p);
    lem_number_finite(s, w, true);
    lem_number_finite(s, w + 1, false);
}
proof fn lem_value_finite(s: Seq<u8>, p: int)
    ensures d_value(s, p) matches Some((j, _)) ==> jfinite(j),
    decreases s.len() - p, 0int,
{
    hide(lex);
    lem_lex_finite(s, p);
    match lex(s, p) {
        None => {},
        Some((ev, q)) => if p < q <= s.len() {
            match ev {
                Ev::SeqStart => { lem_elems_finite(s, q, false, Seq::empty()); },
                Ev::MapStart => { lem_members_finite(s, q, false, Seq::empty()); },
                _ => {},
            }
        },
    }
}
pub open spec fn list_finite(js: Seq<J>) -> bool { forall|i: int| 0 <= i < js.len() ==> jfinite(#[trigger] js[i]) }
pub open spec fn mem_finite(ms: Members) -> bool { forall|i: int| 0 <= i < ms.len() ==> jfinite((#[trigger] ms[i]).1) }
proof fn lem_elems_finite(s: Seq<u8>, p: int, more: bool, acc: Seq<J>)
    requires list_finite(acc),
    ensures d_elems(s, p, more, acc) matches Some((js, _)) ==> list_finite(js),
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { lem_elem_finite(s, w, acc); } }
    else if s[w] == 0x5d { }
    else if s[w] == 0x7d { }
    else if more { if s[w] == 0x2c { lem_elem_finite(s, w + 1, acc); } }
    else { lem_elem_finite(s, w, acc); }
}
proof fn lem_elem_finite(s: Seq<u8>, c: int, acc: Seq<J>)
    requires list_finite(acc),
    ensures d_elem(s, c, acc) matches Some((js, _)) ==> list_finite(js),
    decreases s.len() - c, 1int,
{
    lem_value_finite(s, c);
    match d_value(s, c) {
        None => {},
        Some((j, q)) => if c < q <= s.len() { lem_elems_finite(s, q, true, acc.push(j)); },
    }
}
proof fn lem_members_finite(s: Seq<u8>, p: int, more: bool, acc: Members)
    requires mem_finite(acc),
    ensures d_members(s, p, more, acc) matches Some((js, _)) ==> mem_finite(js),
    decreases s.len() - p, 3int,
{
    let w = skip_ws(s, p);
    if !(p <= w < s.len()) { if !more && p <= w && w <= s.len() { lem_member_finite(s, w, acc); } }
    else if s[w] == 0x7d { }
    else if s[w] == 0x5d { }
    else if more { if s[w] == 0x2c { lem_member_finite(s, w + 1, acc); } }
    else { lem_member_finite(s, w, acc); }
}
proof fn lem_member_finite(s: Seq<u8>, p: int, acc: Members)
    requires mem_finite(acc),
    ensures d_member(s, p, acc) matches Some((js, _)) ==> mem_finite(js),
    decreases s.len() - p, 2int,
{
    hide(str_body);
    let w = skip_ws(s, p);
    if at(s, w) == 0x22 {
        if let Some((t, q)) = str_body(s, w + 1) {
            let c = skip_ws(s, q);
            if at(s, c) == 0x3a && p < c < s.len() {
                lem_value_finite(s, c + 1);
                if let Some((j, e)) = d_value(s, c + 1) {
                    if c + 1 < e <= s.len() { lem_members_finite(s, e, true, acc.push((t, j))); }
                }
            }
        }
    }
}
/// the last member of a name that occurs
proof fn lem_some_last(ms: Members, i: int) -> (l: int)
    requires 0 <= i < ms.len(),
    ensures last_named(ms, l), ms[l].0 == ms[i].0,
    decreases ms.len() - i,
{
    if last_named(ms, i) { i } else {
        let n = choose|n: int| i < n < ms.len() && (#[trigger] ms[n]).0 == ms[i].0;
        lem_some_last(ms, n)
    }
}
pub proof fn lem_parsed_is_plain(v: Value, j: J)
    requires jfinite(j), value_is(v, j),
    ensures vplain(v),
    decreases v, 1int,
{
    match v {
        Value::Array(a) => { if let J::List(js) = j { lem_list_plain(v, a, js); } },
        Value::Object(o) => { if let J::Obj(ms) = j { lem_obj_plain(v, o, ms); } },
        _ => {},
    }
}
proof fn lem_finite_parts(j: J)
    ensures jfinite(j) <==> match j { J::Float(f) => f_finite(f), J::List(js) => list_finite(js), J::Obj(ms) => mem_finite(ms), _ => true },
{}
proof fn lem_list_plain(v: Value, a: Array, js: Seq<J>)
    requires v == Value::Array(a), jfinite(J::List(js)), value_is(v, J::List(js)),
    ensures vplain(v),
    decreases v, 0int,
{
    hide(value_is); hide(vplain); hide(jfinite);
    lem_value_list(v, js);
    lem_finite_parts(J::List(js));
    lem_plain_list(v);
    assert forall|i: int| 0 <= i < a.inner@.len() implies vplain(#[trigger] a.inner@[i]) by {
        assert(value_is(a.inner@[i], js[i]) && jfinite(js[i]));
        lem_parsed_is_plain(a.inner@[i], js[i]);
    }
}
proof fn lem_name_of(m: Map<String, Value>, ms: Members, k: String) -> (i: int)
    requires names(m, ms), m.dom().contains(k),
    ensures 0 <= i < ms.len(), ms[i].0 == text_of(k),
{ hide(text_of); choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == text_of(k) }
proof fn lem_last_range(ms: Members, l: int)
    ensures last_named(ms, l) ==> 0 <= l < ms.len(),
{}
proof fn lem_obj_plain(v: Value, o: Object, ms: Members)
    requires v == Value::Object(o), jfinite(J::Obj(ms)), value_is(v, J::Obj(ms)),
    ensures vplain(v),
    decreases v, 0int,
{
    hide(value_is); hide(vplain); hide(jfinite); hide(names); hide(last_named); hide(text_of);
    lem_value_obj(v, ms);
    lem_finite_parts(J::Obj(ms));
    lem_plain_list(v);
    assert forall|k: String| o.inner@.dom().contains(k) implies vplain(#[trigger] o.inner@[k]) by {
        let i = lem_name_of(o.inner@, ms, k);
        let l = lem_some_last(ms, i);
        lem_last_range(ms, l);
        assert(value_is(o.inner@[k], ms[l].1) && jfinite(ms[l].1));
        ax_map_owns(o.inner, k);
        lem_parsed_is_plain(o.inner@[k], ms[l].1);
    }
}
/// parse any text, print the value, parse again (unless the new text is 2 GiB long)
pub fn value_reparse(text: &str) -> (r: Option<(Value, Option<Result<Value>>)>)
    requires txt(text).len() < MAX_LEN,
    ensures
        is_json(txt(text)) <==> r is Some,
        r matches Some((v, again)) ==> vplain(v) && match again {
            Some(x) => x matches Ok(w) && vsame(v, w),
            None => print(v.tree()).len() >= MAX_LEN,
        },
{
    let first = from_str::<Value>(text);
    proof {
        if is_json(txt(text)) {
            lem_text_document(txt(text));
            lem_value_finite(txt(text), 0);
            let j = (d_value(txt(text), 0)->0).0;
            assert(reads(txt(text), j));
            if first is Ok { lem_parsed_is_plain((first->Ok_0), j); }
        }
    }
    match first {
        Err(_) => None,
        Ok(v) => {
            let s = to_string(&v);
            let n = s.as_str().as_bytes().len();
            let again = if n < 0x7fff_0000 { Some(value_round_trip(&v)) } else { None };
            Some((v, again))
        }
    }
}

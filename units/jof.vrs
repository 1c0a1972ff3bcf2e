// ---- what is read back from the text of a tree ------------------------------------------
pub open spec fn jof(t: Tree) -> J
    decreases t,
{
    match t {
        Tree::Null => J::Null,
        Tree::Bool(b) => J::Bool(b),
        Tree::Str(s) => J::Str(s),
        Tree::U64(n) => J::Nonneg(n),
        Tree::I64(n) => if n < 0 { J::Neg(n) } else { J::Nonneg(n as u64) },
        Tree::F64(f) => if f_finite(f) { J::Float(reread(f)) } else { J::Null },
        Tree::Seq(kids) => J::List(Seq::new(kids.len(), |i: int| if 0 <= i < kids.len() { jof(kids[i]) } else { J::Null })),
        Tree::Map(kids) => J::Obj(Seq::new(kids.len(), |i: int| if 0 <= i < kids.len() { (kids[i].0, jof(kids[i].1)) } else { (Seq::empty(), J::Null) })),
    }
}
pub open spec fn jlist(t: Tree) -> Seq<J> { match jof(t) { J::List(js) => js, _ => Seq::empty() } }
pub open spec fn jobj(t: Tree) -> Members { match jof(t) { J::Obj(ms) => ms, _ => Seq::empty() } }
proof fn lem_jof(t: Tree, vis: int, k: int)
    ensures jevs(jof(t), vis, k) == evs(t, vis, k),
    decreases t, 0int,
{
    match t {
        Tree::Seq(kids) => { lem_jof_elems(kids, 0, k, k + 1); },
        Tree::Map(kids) => { lem_jof_members(kids, 0, k, k + 1); },
        _ => {},
    }
}
proof fn lem_jof_elems(kids: Seq<Tree>, i: int, id: int, k: int)
    requires 0 <= i <= kids.len(),
    ensures jevs_elems(jlist(Tree::Seq(kids)), i, id, k) == evs_elems(kids, i, id, k),
    decreases kids, kids.len() - i,
{
    let js = jlist(Tree::Seq(kids));
    if i < kids.len() {
        assert(js[i] == jof(kids[i]));
        lem_jof(kids[i], k, k + 1);
        lem_jof_elems(kids, i + 1, id, k + 1 + evs(kids[i], k, k + 1).len());
    }
}
proof fn lem_jof_members(kids: Seq<(Seq<u8>, Tree)>, i: int, id: int, k: int)
    requires 0 <= i <= kids.len(),
    ensures jevs_members(jobj(Tree::Map(kids)), i, id, k) == evs_members(kids, i, id, k),
    decreases kids, kids.len() - i,
{
    let js = jobj(Tree::Map(kids));
    if i < kids.len() {
        assert(js[i] == (kids[i].0, jof(kids[i].1)));
        lem_jof(kids[i].1, k, k + 1);
        lem_jof_members(kids, i + 1, id, k + 1 + evs(kids[i].1, k, k + 1).len());
    }
}
/// the printed text of a tree denotes that tree's document
pub proof fn printed_text_reads(t: Tree)
    ensures reads(print(t), jof(t)),
{
    printed_text_is_json(t);
    lem_jof(t, ROOT(), 0);
}
/// json::to_string as unit `ser` proves it
#[verifier::external_body]
pub fn to_string<T: Serialize + ?Sized>(value: &T) -> (r: String) ensures encode_utf8(r@) == print(value.tree()) { unimplemented!() }

// ---------------------------------------------------------------------------
// The text of a value, specified over bytes by recursion over what the value
// yields (RFC 8259, without optional whitespace), and the order of the calls a
// printer makes.
// ---------------------------------------------------------------------------
pub enum Tree {
    Null,
    Bool(bool),
    Str(Seq<u8>),
    U64(u64),
    I64(i64),
    F64(f64),
    Seq(Seq<Tree>),
    Map(Seq<(Seq<u8>, Tree)>),
}

pub open spec fn hexdig(n: int) -> u8 { if n < 10 { (0x30 + n) as u8 } else { (0x61 + n - 10) as u8 } }

/// text of one byte of a string
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if b == 0x22 { seq![0x5cu8, 0x22] }
    else if b == 0x5c { seq![0x5cu8, 0x5c] }
    else if b == 0x08 { seq![0x5cu8, 0x62] }
    else if b == 0x09 { seq![0x5cu8, 0x74] }
    else if b == 0x0a { seq![0x5cu8, 0x6e] }
    else if b == 0x0c { seq![0x5cu8, 0x66] }
    else if b == 0x0d { seq![0x5cu8, 0x72] }
    else if b < 0x20 { seq![0x5cu8, 0x75, 0x30, 0x30, hexdig(b as int / 16), hexdig(b as int % 16)] }
    else { seq![b] }
}

pub open spec fn esc_from(s: Seq<u8>, i: int) -> Seq<u8>
    decreases s.len() - i,
{
    if 0 <= i < s.len() { esc1(s[i]) + esc_from(s, i + 1) } else { Seq::empty() }
}

pub open spec fn p_str(s: Seq<u8>) -> Seq<u8> { seq![0x22u8] + esc_from(s, 0) + seq![0x22u8] }

//@include itoa_spec.vrs
//@include ryu_spec.vrs

pub open spec fn b_null() -> Seq<u8> { seq![0x6eu8, 0x75, 0x6c, 0x6c] }
pub open spec fn b_true() -> Seq<u8> { seq![0x74u8, 0x72, 0x75, 0x65] }
pub open spec fn b_false() -> Seq<u8> { seq![0x66u8, 0x61, 0x6c, 0x73, 0x65] }

pub open spec fn p_float(f: f64) -> Seq<u8> { if f_finite(f) { ryu_text(f) } else { b_null() } }

pub open spec fn print(t: Tree) -> Seq<u8>
    decreases t, 0int,
{
    match t {
        Tree::Null => b_null(),
        Tree::Bool(b) => if b { b_true() } else { b_false() },
        Tree::Str(s) => p_str(s),
        Tree::U64(n) => p_int(n as int),
        Tree::I64(n) => p_int(n as int),
        Tree::F64(f) => p_float(f),
        Tree::Seq(kids) => seq![0x5bu8] + p_elems(kids, 0),
        Tree::Map(kids) => seq![0x7bu8] + p_members(kids, 0),
    }
}

/// elements from i on, with the closing bracket
pub open spec fn p_elems(kids: Seq<Tree>, i: int) -> Seq<u8>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() { (if i > 0 { seq![0x2cu8] } else { Seq::empty() }) + print(kids[i]) + p_elems(kids, i + 1) }
    else { seq![0x5du8] }
}

pub open spec fn p_members(kids: Seq<(Seq<u8>, Tree)>, i: int) -> Seq<u8>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() {
        (if i > 0 { seq![0x2cu8] } else { Seq::empty() }) + p_str(kids[i].0) + seq![0x3au8] + print(kids[i].1) + p_members(kids, i + 1)
    } else { seq![0x7du8] }
}

// ---- the order of the printer's calls --------------------------------------
// A value is named by its position: the path of member indices from the root.
pub enum Pull {
    Begin(Seq<int>),   // Serialize::begin on the value at this position
    Next(Seq<int>),    // Seq::next / Map::next on the iterator of the value at this position
}

pub open spec fn pulls(t: Tree, p: Seq<int>) -> Seq<Pull>
    decreases t, 0int,
{
    seq![Pull::Begin(p)] + match t {
        Tree::Seq(kids) => pulls_seq(kids, p, 0),
        Tree::Map(kids) => pulls_map(kids, p, 0),
        _ => Seq::empty(),
    }
}

/// from member i on: one `next` before each member, one more that reports the end
pub open spec fn pulls_seq(kids: Seq<Tree>, p: Seq<int>, i: int) -> Seq<Pull>
    decreases kids, kids.len() - i,
{
    seq![Pull::Next(p)] + if 0 <= i < kids.len() { pulls(kids[i], p.push(i)) + pulls_seq(kids, p, i + 1) } else { Seq::empty() }
}

pub open spec fn pulls_map(kids: Seq<(Seq<u8>, Tree)>, p: Seq<int>, i: int) -> Seq<Pull>
    decreases kids, kids.len() - i,
{
    seq![Pull::Next(p)] + if 0 <= i < kids.len() { pulls(kids[i].1, p.push(i)) + pulls_map(kids, p, i + 1) } else { Seq::empty() }
}

// ---- the same with what follows as an argument --------------------------------
// (opaque concatenation keeps the solver away from element-wise reasoning)
#[verifier::opaque]
pub open spec fn cat<A>(a: Seq<A>, b: Seq<A>) -> Seq<A> { a + b }
#[verifier::opaque]
pub open spec fn one<A>(a: A) -> Seq<A> { seq![a] }

pub open spec fn pr(t: Tree, k: Seq<u8>) -> Seq<u8>
    decreases t, 0int,
{
    match t {
        Tree::Seq(kids) => cat(one(0x5bu8), pr_elems(kids, 0, k)),
        Tree::Map(kids) => cat(one(0x7bu8), pr_members(kids, 0, k)),
        _ => cat(print(t), k),
    }
}
pub open spec fn pr_elems(kids: Seq<Tree>, i: int, k: Seq<u8>) -> Seq<u8>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() {
        let r = pr(kids[i], pr_elems(kids, i + 1, k));
        if i > 0 { cat(one(0x2cu8), r) } else { r }
    } else { cat(one(0x5du8), k) }
}
pub open spec fn pr_members(kids: Seq<(Seq<u8>, Tree)>, i: int, k: Seq<u8>) -> Seq<u8>
    decreases kids, kids.len() - i,
{
    if 0 <= i < kids.len() {
        let r = cat(p_str(kids[i].0), cat(one(0x3au8), pr(kids[i].1, pr_members(kids, i + 1, k))));
        if i > 0 { cat(one(0x2cu8), r) } else { r }
    } else { cat(one(0x7du8), k) }
}
proof fn lem_pr(t: Tree, k: Seq<u8>)
    ensures pr(t, k) == print(t) + k,
    decreases t, 0int,
{
    reveal(cat); reveal(one);
    match t {
        Tree::Seq(kids) => { lem_pr_elems(kids, 0, k); assert(seq![0x5bu8] + (p_elems(kids, 0) + k) =~= (seq![0x5bu8] + p_elems(kids, 0)) + k); },
        Tree::Map(kids) => { lem_pr_members(kids, 0, k); assert(seq![0x7bu8] + (p_members(kids, 0) + k) =~= (seq![0x7bu8] + p_members(kids, 0)) + k); },
        _ => {},
    }
}
proof fn lem_pr_elems(kids: Seq<Tree>, i: int, k: Seq<u8>)
    ensures pr_elems(kids, i, k) == p_elems(kids, i) + k,
    decreases kids, kids.len() - i,
{
    reveal(cat); reveal(one);
    if 0 <= i < kids.len() {
        lem_pr_elems(kids, i + 1, k);
        lem_pr(kids[i], pr_elems(kids, i + 1, k));
        let c = if i > 0 { seq![0x2cu8] } else { Seq::empty() };
        assert(pr_elems(kids, i, k) =~= c + (print(kids[i]) + (p_elems(kids, i + 1) + k)));
        assert(c + (print(kids[i]) + (p_elems(kids, i + 1) + k)) =~= p_elems(kids, i) + k);
    }
}
proof fn lem_sum5(c: Seq<u8>, n: Seq<u8>, q: Seq<u8>, v: Seq<u8>, m: Seq<u8>, k: Seq<u8>)
    ensures c + (n + (q + (v + (m + k)))) == ((((c + n) + q) + v) + m) + k,
{
    assert(c + (n + (q + (v + (m + k)))) =~= ((((c + n) + q) + v) + m) + k);
}
proof fn lem_pr_members(kids: Seq<(Seq<u8>, Tree)>, i: int, k: Seq<u8>)
    ensures pr_members(kids, i, k) == p_members(kids, i) + k,
    decreases kids, kids.len() - i,
{
    reveal(cat); reveal(one);
    if 0 <= i < kids.len() {
        lem_pr_members(kids, i + 1, k);
        lem_pr(kids[i].1, pr_members(kids, i + 1, k));
        let c = if i > 0 { seq![0x2cu8] } else { Seq::empty() };
        let (n, q, v, m) = (p_str(kids[i].0), seq![0x3au8], print(kids[i].1), p_members(kids, i + 1));
        lem_sum5(c, n, q, v, m, k);
        assert(pr_members(kids, i, k) == c + (n + (q + (v + (m + k)))));
    }
}
pub open spec fn pu(t: Tree, p: Seq<int>, k: Seq<Pull>) -> Seq<Pull>
    decreases t, 0int,
{
    cat(one(Pull::Begin(p)), match t {
        Tree::Seq(kids) => pu_seq(kids, p, 0, k),
        Tree::Map(kids) => pu_map(kids, p, 0, k),
        _ => k,
    })
}
pub open spec fn pu_seq(kids: Seq<Tree>, p: Seq<int>, i: int, k: Seq<Pull>) -> Seq<Pull>
    decreases kids, kids.len() - i,
{
    cat(one(Pull::Next(p)), if 0 <= i < kids.len() { pu(kids[i], p.push(i), pu_seq(kids, p, i + 1, k)) } else { k })
}
pub open spec fn pu_map(kids: Seq<(Seq<u8>, Tree)>, p: Seq<int>, i: int, k: Seq<Pull>) -> Seq<Pull>
    decreases kids, kids.len() - i,
{
    cat(one(Pull::Next(p)), if 0 <= i < kids.len() { pu(kids[i].1, p.push(i), pu_map(kids, p, i + 1, k)) } else { k })
}
proof fn lem_pu(t: Tree, p: Seq<int>, k: Seq<Pull>)
    ensures pu(t, p, k) == pulls(t, p) + k,
    decreases t, 0int,
{
    reveal(cat); reveal(one);
    match t {
        Tree::Seq(kids) => { lem_pu_seq(kids, p, 0, k); assert(pu(t, p, k) =~= pulls(t, p) + k); },
        Tree::Map(kids) => { lem_pu_map(kids, p, 0, k); assert(pu(t, p, k) =~= pulls(t, p) + k); },
        _ => { assert(pu(t, p, k) =~= pulls(t, p) + k); },
    }
}
proof fn lem_pu_seq(kids: Seq<Tree>, p: Seq<int>, i: int, k: Seq<Pull>)
    ensures pu_seq(kids, p, i, k) == pulls_seq(kids, p, i) + k,
    decreases kids, kids.len() - i,
{
    reveal(cat); reveal(one);
    if 0 <= i < kids.len() { lem_pu_seq(kids, p, i + 1, k); lem_pu(kids[i], p.push(i), pu_seq(kids, p, i + 1, k)); }
    assert(pu_seq(kids, p, i, k) =~= pulls_seq(kids, p, i) + k);
}
proof fn lem_pu_map(kids: Seq<(Seq<u8>, Tree)>, p: Seq<int>, i: int, k: Seq<Pull>)
    ensures pu_map(kids, p, i, k) == pulls_map(kids, p, i) + k,
    decreases kids, kids.len() - i,
{
    reveal(cat); reveal(one);
    if 0 <= i < kids.len() { lem_pu_map(kids, p, i + 1, k); lem_pu(kids[i].1, p.push(i), pu_map(kids, p, i + 1, k)); }
    assert(pu_map(kids, p, i, k) =~= pulls_map(kids, p, i) + k);
}

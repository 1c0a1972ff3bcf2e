// ---- releasing the pending layers: the newest first ----------------------------------------
/// the layers released so far, in order
pub tracked struct Gone<T> { pub ghost seq: Seq<T> }
pub fn vx_pop_layer<T>(v: &mut Vec<T>, Tracked(g): Tracked<&mut Gone<T>>) -> (r: Option<T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@ && final(g).seq == old(g).seq,
        old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last() && final(g).seq == old(g).seq.push(old(v)@.last()),
{
    let x = v.pop();
    proof { if x is Some { g.seq = g.seq.push((x->0)); } }
    x
}
pub proof fn lem_reverse_step<T>(done: Seq<T>, s: Seq<T>)
    requires s.len() > 0,
    ensures done + s.reverse() == done.push(s.last()) + s.drop_last().reverse(),
{ assert(done + s.reverse() =~= done.push(s.last()) + s.drop_last().reverse()); }

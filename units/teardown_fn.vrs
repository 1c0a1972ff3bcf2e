//@name vx_drop
//@sig fn drop(&mut self, Tracked(__gone): Tracked<&mut Gone<$T>>)
//@subst self . stack . pop ( ) => vx_pop_layer(&mut self.stack, Tracked(__gone))
//@spec
    ensures final(self).stack@.len() == 0, final(__gone).seq == old(__gone).seq + old(self).stack@.reverse(),
//@pre
    let ghost all = __gone.seq + self.stack@.reverse();
//@loop 1
    invariant __gone.seq + self.stack@.reverse() == all,
    decreases self.stack@.len(),
//@in_loop 1
    proof { if self.stack@.len() > 0 { lem_reverse_step(__gone.seq, self.stack@); } }
//@after_loop 1
    proof { assert(self.stack@.reverse() =~= Seq::empty()); assert(__gone.seq + self.stack@.reverse() =~= __gone.seq); }
//@end

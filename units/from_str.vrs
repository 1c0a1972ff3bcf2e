/// the receiving type: `begin` hands out the root visitor
pub trait Deserialize: Sized {
    fn begin<'z>(out: &'z mut Option<Self>) -> (r: &'z mut DynVisitor)
        ensures r.id() == ROOT();
}

//@props C01 C05 C19
//@fn json::de::from_str
//@ret r
//@params j
//@flags trace
//@spec
    requires !old(__tr).failed, old(__tr).calls.len() == 0, txt(j).len() < MAX_LEN,
    ensures
        r is Ok ==> is_json(txt(j)) && !final(__tr).failed && final(__tr).calls == g_value(txt(j), 0, ROOT(), 0).calls,
        outcome(document(txt(j)), *final(__tr), true) || r is Err && outcome(document(txt(j)), *final(__tr), false),
//@pre
    proof { machine_is_grammar(txt(j)); }
//@end

// ---------------------------------------------------------------------------
// Reading back what is printed: the grammar of the parser's contract applied
// to the text of the printer's contract.
// ---------------------------------------------------------------------------
//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include json_spec.vrs
//@include events.vrs
//@include grammar_spec.vrs
//@include print_spec.vrs
//@include rt_lemmas.vrs
}
fn main() {}

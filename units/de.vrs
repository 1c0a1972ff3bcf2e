//@include de_lex.vrs
//@include de_drive.vrs
//@include grammar.vrs
//@include from_str.vrs
}
fn main() {}

//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include json_spec.vrs
//@include events.vrs
//@include grammar_spec.vrs
//@include decode_spec.vrs
//@include doc.vrs
//@include from_str_fits.vrs
}
fn main() {}

//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include impls_scalar.vrs
}
fn main() {}

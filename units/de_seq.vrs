//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include impls_vec.vrs
//@include impls_pair.vrs
//@include impls_option.vrs
}
fn main() {}

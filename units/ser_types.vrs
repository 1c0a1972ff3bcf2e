//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include print_spec.vrs
//@include ser_model.vrs
//@include ser_scalar.vrs
//@include ser_streams.vrs
//@include map_std.vrs
//@include ser_maps.vrs
}
fn main() {}

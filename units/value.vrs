//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include map_std.vrs
//@include value_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@include impls_value.vrs
//@clearmaps
//@include print_spec.vrs
//@include ser_model.vrs
//@include ser_streams.vrs
//@include map_order.vrs
//@include ser_value.vrs
}
fn main() {}

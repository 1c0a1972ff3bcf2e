// ---------------------------------------------------------------------------
// The dynamic value survives serialization and parsing: its Serialize and its
// Deserialize contracts composed; and every accepted text can be reserialized.
// ---------------------------------------------------------------------------
//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include json_spec.vrs
//@include events.vrs
//@include grammar_spec.vrs
//@include decode_spec.vrs
//@include doc.vrs
//@include print_spec.vrs
//@include rt_lemmas.vrs
//@include from_str_fits.vrs
//@include map_std.vrs
//@include value_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@include impls_value.vrs
//@clearmaps
//@include ser_model.vrs
//@include ser_streams.vrs
//@include map_order.vrs
//@include ser_value.vrs
//@props C10
//@include jof.vrs
//@include value_rt.vrs
}
fn main() {}

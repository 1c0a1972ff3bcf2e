// ---------------------------------------------------------------------------
// Values of the standard types survive serialization and parsing: the Serialize
// and the Deserialize contracts of each type, composed.
// ---------------------------------------------------------------------------
//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include json_spec.vrs
//@include events.vrs
//@include grammar_spec.vrs
//@include decode_spec.vrs
//@include doc.vrs
//@include print_spec.vrs
//@include rt_lemmas.vrs
//@include from_str_fits.vrs
//@include impls_scalar.vrs
//@include impls_vec.vrs
//@include impls_pair.vrs
//@include impls_option.vrs
//@include box_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@include ignore_impl.vrs
//@include impls_box.vrs
//@include map_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@include impls_map.vrs
//@include array_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@map [MaybeUninit < T > ; N] => Slots<T, N>
//@include impls_array.vrs
//@clearmaps
//@include ser_model.vrs
//@include ser_scalar.vrs
//@include ser_streams.vrs
//@include ser_maps.vrs
//@include jof.vrs
//@include round_trip.vrs
}
fn main() {}

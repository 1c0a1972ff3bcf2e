//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include array_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@map [MaybeUninit < T > ; N] => Slots<T, N>
//@include impls_array.vrs
}
fn main() {}

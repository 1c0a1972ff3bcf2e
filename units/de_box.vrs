//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include box_model.vrs
//@clearmaps
//@include maps_de.vrs T=T
//@include ignore_impl.vrs
//@include impls_box.vrs
}
fn main() {}

// ---------------------------------------------------------------------------
// Dropping a dynamic value: every nested value is moved onto an explicit stack
// before its container is released, so no container is ever released with
// containers inside it.
// ---------------------------------------------------------------------------
//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include json_doc.vrs
//@include map_std.vrs
//@include value_types.vrs
//@clearmaps
//@include map_order.vrs
//@include container_model.vrs
//@include drop_value.vrs
//@include container_ops.vrs
}
fn main() {}

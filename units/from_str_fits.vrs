/// proved of the real body in unit `de_live`
#[verifier::external_body]
pub fn from_str_impl(j: &str, v: &mut DynVisitor) -> (r: Result<()>)
//@include live_contract.vrs V=v
{ unimplemented!() }
//@props C11 C12 C13 C14 C15 C16
//@fn json::de::from_str
//@ret r
//@params j
//@spec
    requires txt(j).len() < MAX_LEN,
    ensures
        !is_json(txt(j)) ==> r is Err,
        forall|d: J| #[trigger] reads(txt(j), d) ==> (r is Ok <==> T::fits(d)) && (r matches Ok(t) ==> T::holds(Some(t), d)),
//@pre
    broadcast use lem_holds_some;
    proof { if is_json(txt(j)) { every_text_has_a_document(txt(j)); } }
//@end

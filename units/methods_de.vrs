    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn <Deserialize for $T>::begin
//@end
//@fn <Deserialize for $T>::default | de::Deserialize::default
//@end

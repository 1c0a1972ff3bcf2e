//@props C10 C12
impl Visitor for Place<Number> {
    open spec fn takes(&self, j: J) -> bool { Number::fits(j) }
    open spec fn done(&self, j: J) -> bool { Number::holds(self.out, j) }
//@include methods8.vrs T=Number
}
impl Deserialize for Number {
    open spec fn fits(j: J) -> bool { j is Neg || j is Nonneg || j is Float }
    open spec fn holds(o: Option<Self>, j: J) -> bool { o matches Some(n) && number_is(n, j) }
//@include methods_de.vrs T=Number
}
//@props C10 C18
//@map ArrayBuilder => ValueSeq
//@map ObjectBuilder => ValueMap
impl Visitor for Place<Value> {
    open spec fn takes(&self, j: J) -> bool { true }
    open spec fn done(&self, j: J) -> bool { value_slot(self.out, j) }
//@include methods8.vrs T=Value
}
impl Deserialize for Value {
    open spec fn fits(j: J) -> bool { true }
    open spec fn holds(o: Option<Self>, j: J) -> bool { value_slot(o, j) }
//@include methods_de.vrs T=Value
}
//@item json::value::<Deserialize for Value>::begin::ArrayBuilder
impl<'a> ValueSeq<'a> {
//@include value_shift_seq.vrs KEY=json::value::<Deserialize~for~Value>::begin::ArrayBuilder::shift
}
impl<'a> SeqBuilder for ValueSeq<'a> {
    closed spec fn may(&self, js: Seq<J>) -> bool { true }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { value_slot(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { value_slot(*final(self.out), J::List(js)) }
//@include value_seq.vrs KEY=json::value::<Deserialize~for~Value>::begin::<Seq~for~ArrayBuilder<'a>>
}
//@item json::value::<Deserialize for Value>::begin::ObjectBuilder
impl<'a> ValueMap<'a> {
//@include value_shift_map.vrs KEY=json::value::<Deserialize~for~Value>::begin::ObjectBuilder::shift
}
impl<'a> MapBuilderTrait for ValueMap<'a> {
    closed spec fn may(&self, js: Members) -> bool { true }
    closed spec fn wrote(&self, js: Members) -> bool { value_slot(*self.out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { value_slot(*final(self.out), J::Obj(js)) }
//@include value_map.vrs KEY=json::value::<Deserialize~for~Value>::begin::<Map~for~ObjectBuilder<'a>>
}
//@clearmaps
//@include maps_de.vrs T=T
//@map ArrayBuilder => ListSeq
impl Visitor for Place<Array> {
    open spec fn takes(&self, j: J) -> bool { Array::fits(j) }
    open spec fn done(&self, j: J) -> bool { Array::holds(self.out, j) }
//@include methods8.vrs T=Array
}
impl Deserialize for Array {
    open spec fn fits(j: J) -> bool { j is List }
    open spec fn holds(o: Option<Self>, j: J) -> bool { o matches Some(v) && j matches J::List(js) && values_are(v.inner@, js) }
//@include methods_de.vrs T=Array
}
//@item json::array::<Deserialize for Array>::begin::ArrayBuilder
impl<'a> ListSeq<'a> {
//@include value_shift_seq.vrs KEY=json::array::<Deserialize~for~Array>::begin::ArrayBuilder::shift
}
impl<'a> SeqBuilder for ListSeq<'a> {
    closed spec fn may(&self, js: Seq<J>) -> bool { true }
    closed spec fn wrote(&self, js: Seq<J>) -> bool { Array::holds(*self.out, J::List(js)) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Seq<J>) -> bool { Array::holds(*final(self.out), J::List(js)) }
//@include value_seq.vrs KEY=json::array::<Deserialize~for~Array>::begin::<Seq~for~ArrayBuilder<'a>>
}
//@clearmaps
//@include maps_de.vrs T=T
//@map ObjectBuilder => ObjMap
impl Visitor for Place<Object> {
    open spec fn takes(&self, j: J) -> bool { Object::fits(j) }
    open spec fn done(&self, j: J) -> bool { Object::holds(self.out, j) }
//@include methods8.vrs T=Object
}
impl Deserialize for Object {
    open spec fn fits(j: J) -> bool { j is Obj }
    open spec fn holds(o: Option<Self>, j: J) -> bool { o matches Some(v) && j matches J::Obj(js) && members_are(v.inner@, js) }
//@include methods_de.vrs T=Object
}
//@item json::object::<Deserialize for Object>::begin::ObjectBuilder
impl<'a> ObjMap<'a> {
//@include value_shift_map.vrs KEY=json::object::<Deserialize~for~Object>::begin::ObjectBuilder::shift
}
impl<'a> MapBuilderTrait for ObjMap<'a> {
    closed spec fn may(&self, js: Members) -> bool { true }
    closed spec fn wrote(&self, js: Members) -> bool { Object::holds(*self.out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Object::holds(*final(self.out), J::Obj(js)) }
//@include value_map.vrs KEY=json::object::<Deserialize~for~Object>::begin::<Map~for~ObjectBuilder<'a>>
}
//@clearmaps

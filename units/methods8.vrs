//@fn <Visitor for Place<$T>>::null | de::Visitor::null
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::boolean | de::Visitor::boolean
//@params b
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::string | de::Visitor::string
//@params s
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::negative | de::Visitor::negative
//@params n
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::nonnegative | de::Visitor::nonnegative
//@params n
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::float | de::Visitor::float
//@params n
//@flags $FLAGS
//@end
//@fn <Visitor for Place<$T>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn <Visitor for Place<$T>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end

//@props C11 C12 C14
impl<T: Deserialize> Visitor for Place<Option<T>> {
    open spec fn takes(&self, j: J) -> bool { Option::<T>::fits(j) }
    open spec fn done(&self, j: J) -> bool { Option::<T>::holds(self.out, j) }
//@include methods8.vrs T=Option<T>
}
impl<T: Deserialize> Deserialize for Option<T> {
    open spec fn fits(j: J) -> bool { j is Null || T::fits(j) }
    open spec fn holds(o: Option<Self>, j: J) -> bool {
        if j is Null { o == Some(None::<T>) } else { o matches Some(inner) && T::holds(inner, j) }
    }
    open spec fn absent() -> Option<Self> { Some(None) }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn <Deserialize for Option<T>>::begin
//@end
//@fn <Deserialize for Option<T>>::default | de::Deserialize::default
//@end
}

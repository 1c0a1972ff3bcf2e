//@include prelude.vrs
//@props C17
// ---- src/ptr.rs: NonuniqueBox -----------------------------------------------------------
/// The raw pointer to a heap slot (`*mut T`, `NonNull<T>`), with what the compiler does not
/// track about it: whether the slot is allocated, and what it holds.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RawSlot<T> { _p: core::marker::PhantomData<T> }
impl<T> RawSlot<T> {
    pub uninterp spec fn live(&self) -> bool;
    pub uninterp spec fn holds(&self) -> T;
    /// NonNull::as_ptr
    #[verifier::external_body]
    pub fn as_ptr(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    /// NonNull::as_ref, NonNull::as_mut: only while allocated
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &T) requires self.live(), ensures *r == self.holds() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut T) requires old(self).live(), ensures *r == old(self).holds(), final(self).live(), final(self).holds() == *final(r) { unimplemented!() }
}
/// Box::into_raw: the slot stays allocated
#[verifier::external_body]
pub fn vx_into_raw<T>(b: Box<T>) -> (r: RawSlot<T>) ensures r.live(), r.holds() == *b { unimplemented!() }
/// Box::from_raw: takes the slot back, never twice
#[verifier::external_body]
pub fn vx_from_raw<T>(p: &mut RawSlot<T>) -> (r: Box<T>) requires old(p).live(), ensures !final(p).live(), *r == old(p).holds() { unimplemented!() }
/// NonNull::new_unchecked: of a pointer that came from a box
#[verifier::external_body]
pub fn vx_non_null<T>(p: RawSlot<T>) -> (r: RawSlot<T>) requires p.live(), ensures r == p { unimplemented!() }
//@map NonNull < T > => RawSlot<T>
//@map Box :: into_raw => vx_into_raw
//@map Box :: from_raw => vx_from_raw
//@map NonNull :: new_unchecked => vx_non_null
//@map Self :: Target => T
//@map T : ? Sized => T : Sized
//@item ptr::NonuniqueBox
impl<T> NonuniqueBox<T> {
    pub closed spec fn live(&self) -> bool { self.ptr.live() }
    /// (what units `de_box` and `rt_types` call `now`)
    pub closed spec fn now(&self) -> T { self.ptr.holds() }
//@fn ptr::NonuniqueBox::new
//@ret r
        ensures r.live(), r.now() == value
//@end
//@fn ptr::<From<Box<T>> for NonuniqueBox<T>>::from
//@ret r
//@params boxed
        ensures r.live(), r.now() == *boxed
//@end
//@fn ptr::<Deref for NonuniqueBox<T>>::deref
//@ret r
        requires self.live(), ensures *r == self.now()
//@end
//@fn ptr::<DerefMut for NonuniqueBox<T>>::deref_mut
//@ret r
        requires old(self).live(), ensures *r == old(self).now(), final(self).now() == *final(r), final(self).live()
//@end
//@fn ptr::<Drop for NonuniqueBox<T>>::drop
//@name vx_drop
        requires old(self).live(), ensures !final(self).live()
//@end
}
//@props C12 C17
// ---- make_place!: the one-field wrapper a receiver is -------------------------------------
pub struct Place<T> { pub out: Option<T> }
/// `&mut *(out as *mut Option<T> as *mut Place<T>)`: the same memory under a #[repr(C)]
/// wrapper with one field
#[verifier::external_body]
pub fn vx_same_memory<T>(out: &mut Option<T>) -> (r: &mut Place<T>) ensures r.out == *old(out), *final(out) == final(r).out { unimplemented!() }
//@map crate :: __private :: Option => Option
impl<__T> Place<__T> {
//@fn de::impls::<Deserialize for ()>::begin::Place::new
//@ret r
//@name new_0
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for bool>::begin::Place::new
//@ret r
//@name new_1
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for String>::begin::Place::new
//@ret r
//@name new_2
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for u8>::begin::Place::new
//@ret r
//@name new_3
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for u16>::begin::Place::new
//@ret r
//@name new_4
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for u32>::begin::Place::new
//@ret r
//@name new_5
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for u64>::begin::Place::new
//@ret r
//@name new_6
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for usize>::begin::Place::new
//@ret r
//@name new_7
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for i8>::begin::Place::new
//@ret r
//@name new_8
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for i16>::begin::Place::new
//@ret r
//@name new_9
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for i32>::begin::Place::new
//@ret r
//@name new_10
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for i64>::begin::Place::new
//@ret r
//@name new_11
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for isize>::begin::Place::new
//@ret r
//@name new_12
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for f32>::begin::Place::new
//@ret r
//@name new_13
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for f64>::begin::Place::new
//@ret r
//@name new_14
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for Box<T>>::begin::Place::new
//@ret r
//@name new_15
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for Option<T>>::begin::Place::new
//@ret r
//@name new_16
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for (A,B)>::begin::Place::new
//@ret r
//@name new_17
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for Vec<T>>::begin::Place::new
//@ret r
//@name new_18
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for [T;N]>::begin::Place::new
//@ret r
//@name new_19
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for HashMap<K,V,H>>::begin::Place::new
//@ret r
//@name new_20
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn de::impls::<Deserialize for BTreeMap<K,V>>::begin::Place::new
//@ret r
//@name new_21
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn json::array::<Deserialize for Array>::begin::Place::new
//@ret r
//@name new_22
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn json::number::<Deserialize for Number>::begin::Place::new
//@ret r
//@name new_23
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn json::object::<Deserialize for Object>::begin::Place::new
//@ret r
//@name new_24
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
//@fn json::value::<Deserialize for Value>::begin::Place::new
//@ret r
//@name new_25
//@subst * (out as * mut Option < __T > as * mut Place < __T >) => * vx_same_memory(out)
        ensures r.out == *old(out), *final(out) == final(r).out
//@end
}
}
fn main() {}

//@props C09 C11
impl Serialize for () {
    open spec fn tree(&self) -> Tree { Tree::Null }
//@fn <Serialize for ()>::begin
//@end
}
impl Serialize for bool {
    open spec fn tree(&self) -> Tree { Tree::Bool(*self) }
//@fn <Serialize for bool>::begin
//@end
}
//@props C08 C11
impl Serialize for str {
    open spec fn tree(&self) -> Tree { Tree::Str(encode_utf8(self@)) }
//@fn <Serialize for str>::begin
//@end
}
impl Serialize for String {
    open spec fn tree(&self) -> Tree { Tree::Str(encode_utf8(self@)) }
//@fn <Serialize for String>::begin
//@end
}
//@props C09 C11
//@for T u8 u16 u32 u64 usize
impl Serialize for $T {
    open spec fn tree(&self) -> Tree { Tree::U64(*self as u64) }
//@fn <Serialize for $T>::begin
//@end
}
//@endfor
//@for T i8 i16 i32 i64 isize
impl Serialize for $T {
    open spec fn tree(&self) -> Tree { Tree::I64(*self as i64) }
//@fn <Serialize for $T>::begin
//@end
}
//@endfor
//@for T f32 f64
impl Serialize for $T {
    open spec fn tree(&self) -> Tree { Tree::F64(self.s_f64()) }
//@fn <Serialize for $T>::begin
//@flags float
//@end
}
//@endfor
//@props C11
impl<T: ?Sized + Serialize> Serialize for &T {
    open spec fn tree(&self) -> Tree { (**self).tree() }
//@fn <Serialize for &T>::begin
//@end
}
impl<T: ?Sized + Serialize> Serialize for Box<T> {
    open spec fn tree(&self) -> Tree { (**self).tree() }
//@fn <Serialize for Box<T>>::begin
//@end
}
/// std's Cow<'a, T>, read through Deref
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct CowOf<'a, T: ?Sized> { _p: &'a T }
impl<'a, T: ?Sized> CowOf<'a, T> {
    pub uninterp spec fn inner(&self) -> &T;
    /// `Deref::deref` of std's Cow: what it borrows or owns
    #[verifier::external_body] pub fn vx_deref(&self) -> (r: &T) ensures r == self.inner() { unimplemented!() }
}
impl<'a, T: ?Sized + Serialize> Serialize for CowOf<'a, T> {
    open spec fn tree(&self) -> Tree { self.inner().tree() }
//@fn <Serialize for Cow<'a,T>>::begin
//@subst (* * self) => (* self . vx_deref ())
//@end
}
impl<T: Serialize> Serialize for Option<T> {
    open spec fn tree(&self) -> Tree { match self { Some(t) => t.tree(), None => Tree::Null } }
//@fn <Serialize for Option<T>>::begin
//@end
}

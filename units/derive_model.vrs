//@include prelude.vrs
//@include utf8.vrs
//@include float_model.vrs
//@include std_more.vrs
//@include decode_spec.vrs
//@include print_spec.vrs
//@include ser_model.vrs
//@clearmaps
//@map miniserde :: Result => Result
//@map dyn Visitor => DynVisitor
//@map dyn Seq + '_ => DynSeq<'_>
//@map dyn Map + '_ => DynMap<'_>
//@map Cow < str > => Cow<'_>
//@map dyn Serialize => DynSer
// ---- members of an object by name ---------------------------------------------------------
/// the last member of this name
pub open spec fn last_named(ms: Members, n: Seq<u8>) -> Option<J>
    decreases ms.len()
{
    if ms.len() == 0 { None } else if ms.last().0 == n { Some(ms.last().1) } else { last_named(ms.drop_last(), n) }
}
/// every member of this name is a document of the type
pub open spec fn names_fit<T: Deserialize>(ms: Members, n: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == n ==> T::fits(ms[i].1)
}
/// the place of a field: the value of its last member, or of its absence
pub open spec fn slot<T: Deserialize>(o: Option<T>, ms: Members, n: Seq<u8>) -> bool {
    match last_named(ms, n) { Some(j) => T::holds(o, j), None => o == T::absent() }
}
pub broadcast proof fn lem_named_push(ms: Members, s: Seq<u8>, j: J, n: Seq<u8>)
    ensures #[trigger] last_named(ms.push((s, j)), n) == if s == n { Some(j) } else { last_named(ms, n) },
{ assert(ms.push((s, j)).drop_last() =~= ms); }
pub broadcast proof fn lem_fits_push<T: Deserialize>(ms: Members, s: Seq<u8>, j: J, n: Seq<u8>)
    ensures #[trigger] names_fit::<T>(ms.push((s, j)), n) == (names_fit::<T>(ms, n) && (s == n ==> T::fits(j))),
{
    let ns = ms.push((s, j));
    assert(ns[ms.len() as int] == (s, j));
    if names_fit::<T>(ns, n) { assert forall|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == n implies T::fits(ms[i].1) by { assert(ns[i] == ms[i]); } }
}
pub broadcast proof fn lem_no_members<T: Deserialize>(n: Seq<u8>)
    ensures #![trigger names_fit::<T>(Seq::empty(), n)] names_fit::<T>(Seq::empty(), n),
{ }
pub broadcast proof fn lem_slot_some<T: Deserialize>(o: Option<T>, ms: Members, n: Seq<u8>)
    ensures #[trigger] slot(o, ms, n) ==> (o is Some <==> last_named(ms, n) is Some || T::absent() is Some),
{ if slot(o, ms, n) { if let Some(j) = last_named(ms, n) { T::holds_some(o, j); } } }
/// equal bytes, equal text
pub broadcast proof fn lem_same_text(a: &str, b: &str)
    ensures #![trigger txt(a), txt(b)] txt(a) == txt(b) ==> a@ == b@,
{ if txt(a) == txt(b) { encode_utf8_decode_utf8(a@); encode_utf8_decode_utf8(b@); } }
pub broadcast proof fn lem_skip_first<T>(s: Seq<T>, n: int)
    ensures #![trigger s.skip(n)] 0 <= n < s.len() ==> s.skip(n).len() > 0 && s.skip(n)[0] == s[n] && s.skip(n).drop_first() == s.skip(n + 1),
{ if 0 <= n < s.len() { assert(s.skip(n).drop_first() =~= s.skip(n + 1)); } }
pub broadcast proof fn lem_skip_none<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s,
{ assert(s.skip(0) =~= s); }
/// `str` equality
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// the derived visitor: a #[repr(C)] wrapper with one field, seen as a trait object
pub trait OneField: Sized { type T; spec fn make(o: Option<Self::T>) -> Self; }
#[verifier::external_body]
pub fn vx_visitor<'a, V: Visitor + OneField>(out: &'a mut Option<V::T>) -> (r: &'a mut DynVisitor)
    ensures forall|j: J| #[trigger] r.takes(j) == V::make(*old(out)).takes(j),
        forall|j: J| #[trigger] final(r).done(j) == V::make(*final(out)).done(j),
{ unimplemented!() }
impl DynVisitor {
    /// <dyn Visitor>::ignore(): a static zero-sized Ignore (its methods: unit de_th)
    #[verifier::external_body]
    pub fn ignore<'x>() -> (r: &'x mut DynVisitor) ensures forall|j: J| #[trigger] r.takes(j), forall|j: J| #[trigger] final(r).done(j) { unimplemented!() }
}
// ---- types of fields: any documents, any tree (their own contracts: the other units) --------
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { _p: Option<Box<(K, V)>> }
pub uninterp spec fn type_fits<T>(j: J) -> bool;
pub uninterp spec fn type_holds<T>(o: T, j: J) -> bool;
pub uninterp spec fn type_absent<T>() -> Option<T>;
pub uninterp spec fn type_tree<T: ?Sized>(t: &T) -> Tree;
//@include field_de.vrs G= T=bool
//@include field_ser.vrs G= T=bool
//@include field_de.vrs G= T=u8
//@include field_ser.vrs G= T=u8
//@include field_de.vrs G= T=u32
//@include field_ser.vrs G= T=u32
//@include field_de.vrs G= T=i32
//@include field_ser.vrs G= T=i32
//@include field_de.vrs G= T=String
//@include field_ser.vrs G= T=String
//@include field_de.vrs G=<T:Deserialize> T=Box<T>
//@include field_ser.vrs G=<T:Serialize> T=Box<T>
//@include field_de.vrs G=<T:Deserialize> T=Vec<T>
//@include field_ser.vrs G=<T:Serialize> T=Vec<T>
//@include field_ser.vrs G=<T:Serialize> T=Option<T>
//@include field_de.vrs G=<T:Deserialize,const~N:usize> T=[T;N]
//@include field_ser.vrs G=<T:Serialize,const~N:usize> T=[T;N]
//@include field_de.vrs G=<K,V:Deserialize> T=BTreeMap<K,V>
//@include field_ser.vrs G=<K,V:Serialize> T=BTreeMap<K,V>
//@include field_ser.vrs G= T=str
//@include field_ser.vrs G=<T:Serialize> T=[T]
impl<T: Serialize + ?Sized> Serialize for &T {
    open spec fn tree(&self) -> Tree { (**self).tree() }
    #[verifier::external_body] fn begin(&self) -> (r: Fragment) { unimplemented!() }
}
//@include maps_de.vrs
//@include impls_option.vrs
//@clearmaps
//@map miniserde :: Result => Result
//@map dyn Visitor => DynVisitor
//@map dyn Seq + '_ => DynSeq<'_>
//@map dyn Map + '_ => DynMap<'_>
//@map Cow < str > => Cow<'_>
//@map dyn Serialize => DynSer

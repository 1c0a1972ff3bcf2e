// ---- keys and map containers ----------------------------------------------------------
// std's maps as far as this code uses them: `@` is the finite map they hold.  Key equality
// is spec equality (a lawful Eq/Hash/Ord).
pub trait Hash { }
pub trait BuildHasher { }
pub trait FromStr: Sized {
    type Err;
    /// the key a text stands for
    spec fn parses(s: Seq<u8>) -> Option<Self>;
    fn from_str(s: &str) -> (r: core::result::Result<Self, Self::Err>)
        ensures r is Ok <==> Self::parses(txt(s)) is Some, r matches Ok(k) ==> Self::parses(txt(s)) == Some(k);
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] #[verifier::accept_recursive_types(H)]
pub struct HashMap<K, V, H> { _p: Option<Box<(K, V, H)>> }
impl<K, V, H> View for HashMap<K, V, H> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V, H> HashMap<K, V, H> {
    #[verifier::external_body] pub fn with_hasher(h: H) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { _p: Option<Box<(K, V)>> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl<K, V> Default for BTreeMap<K, V> {
    #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}


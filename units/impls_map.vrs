//@props C11 C12 C15
impl<K: FromStr + Hash + Eq, V: Deserialize, H: BuildHasher + Default> Visitor for Place<HashMap<K, V, H>> {
    open spec fn takes(&self, j: J) -> bool { HashMap::<K, V, H>::fits(j) }
    open spec fn done(&self, j: J) -> bool { HashMap::<K, V, H>::holds(self.out, j) }
//@include methods8.vrs T=HashMap<K,V,H>
}
impl<K: FromStr + Hash + Eq, V: Deserialize, H: BuildHasher + Default> Deserialize for HashMap<K, V, H> {
    open spec fn fits(j: J) -> bool { j matches J::Obj(ms) && keys_fit::<K, V>(ms) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(m) && built(m@, ms) }
//@include methods_de.vrs T=HashMap<K,V,H>
}
//@item <Deserialize for HashMap<K,V,H>>::begin::MapBuilder
impl<'a, K: Hash + Eq, V, H: BuildHasher> MapBuilder<'a, K, V, H> {
//@include map_shift.vrs KEY=<Deserialize~for~HashMap<K,V,H>>::begin::MapBuilder::shift
}
impl<'a, K: FromStr + Hash + Eq, V: Deserialize, H: BuildHasher + Default> MapBuilderTrait for MapBuilder<'a, K, V, H> {
//@include map_builder.vrs T=HashMap::<K,V,H> KEY=MapBuilder<'a,K,V,H>
}
//@clearmaps
//@include maps_de.vrs T=T
//@map MapBuilder => TreeBuilder
impl<K: FromStr + Ord, V: Deserialize> Visitor for Place<BTreeMap<K, V>> {
    open spec fn takes(&self, j: J) -> bool { BTreeMap::<K, V>::fits(j) }
    open spec fn done(&self, j: J) -> bool { BTreeMap::<K, V>::holds(self.out, j) }
//@include methods8.vrs T=BTreeMap<K,V>
}
impl<K: FromStr + Ord, V: Deserialize> Deserialize for BTreeMap<K, V> {
    open spec fn fits(j: J) -> bool { j matches J::Obj(ms) && keys_fit::<K, V>(ms) }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(m) && built(m@, ms) }
//@include methods_de.vrs T=BTreeMap<K,V>
}
//@item <Deserialize for BTreeMap<K,V>>::begin::MapBuilder
impl<'a, K: Ord, V> TreeBuilder<'a, K, V> {
//@include map_shift.vrs KEY=<Deserialize~for~BTreeMap<K,V>>::begin::MapBuilder::shift
}
impl<'a, K: FromStr + Ord, V: Deserialize> MapBuilderTrait for TreeBuilder<'a, K, V> {
//@include map_builder.vrs T=BTreeMap::<K,V> KEY=MapBuilder<'a,K,V>
}

    spec fn pairs(&self) -> Map<K, V> { match (self.key, self.value) { (Some(k), Some(v)) => self.map@.insert(k, v), _ => self.map@ } }
//@fn $KEY
        ensures final(self).map@ == old(self).pairs(), final(self).key is None, final(self).value is None, final(self).out == old(self).out
//@end

    spec fn pairs(&self) -> Map<String, Value> { match (self.key, self.value) { (Some(k), Some(v)) => self.object.inner@.insert(k, v), _ => self.object.inner@ } }
//@fn $KEY
        ensures final(self).object.inner@ == old(self).pairs(), final(self).key is None, final(self).value is None, final(self).out == old(self).out
//@end

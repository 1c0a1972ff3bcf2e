    spec fn items(&self) -> Seq<Value> { match self.element { Some(e) => self.array.inner@.push(e), None => self.array.inner@ } }
//@fn $KEY
        ensures final(self).array.inner@ == old(self).items(), final(self).element is None, final(self).out == old(self).out
//@end

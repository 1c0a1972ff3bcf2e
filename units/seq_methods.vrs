    $ATTR fn element(&mut self) -> (r: Result<&mut DynVisitor>)
        requires exists|js: Seq<J>| #[trigger] old(self).rep(js)
        ensures $MORE
            forall|js: Seq<J>| #![trigger final(self).promise(js)] #![trigger old(self).rep(js)] final(self).promise(js) == old(self).promise(js),
            forall|js: Seq<J>| #[trigger] final(self).may(js) == old(self).may(js),
            match r {
                // once the slot of this element holds the decoding of j, one more element is done
                Ok(p) => (forall|js: Seq<J>, j: J| #![trigger old(self).rep(js), final(p).done(j)]
                        old(self).rep(js) && p.takes(j) && final(p).done(j) ==> final(self).rep(js.push(j)))
                    // and only acceptable elements are refused
                    && (forall|js: Seq<J>, all: Seq<J>| #![trigger old(self).rep(js), old(self).may(all)]
                        old(self).rep(js) && js.len() < all.len() && old(self).may(all) ==> p.takes(all[js.len() as int])),
                Err(_) => forall|js: Seq<J>, all: Seq<J>| #![trigger old(self).rep(js), old(self).may(all)]
                    old(self).rep(js) && js.len() < all.len() ==> !old(self).may(all),
            }
    $EBODY
    $ATTR fn finish(&mut self) -> (r: Result<()>)
        requires exists|js: Seq<J>| #[trigger] old(self).rep(js)
        ensures $MORE
            forall|js: Seq<J>| #![trigger final(self).promise(js)] #![trigger old(self).rep(js)] final(self).promise(js) == old(self).promise(js),
            forall|js: Seq<J>| #[trigger] old(self).rep(js) ==> (r is Ok <==> old(self).may(js)),
            forall|js: Seq<J>| #[trigger] old(self).rep(js) && r is Ok ==> final(self).wrote(js)
    $FBODY

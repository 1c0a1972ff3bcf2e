    $ATTR fn key(&mut self, k: &str) -> (r: Result<&mut DynVisitor>)
        requires exists|js: Members| #[trigger] old(self).rep(js)
        ensures $MORE
            forall|js: Members| #![trigger final(self).promise(js)] #![trigger old(self).rep(js)] final(self).promise(js) == old(self).promise(js),
            forall|js: Members| #[trigger] final(self).may(js) == old(self).may(js),
            match r {
                Ok(p) => (forall|js: Members, j: J| #![trigger old(self).rep(js), final(p).done(j)]
                        old(self).rep(js) && p.takes(j) && final(p).done(j) ==> final(self).rep(js.push((txt(k), j))))
                    && (forall|js: Members, all: Members| #![trigger old(self).rep(js), old(self).may(all)]
                        old(self).rep(js) && js.len() < all.len() && all[js.len() as int].0 == txt(k) && old(self).may(all)
                            ==> p.takes(all[js.len() as int].1)),
                Err(_) => forall|js: Members, all: Members| #![trigger old(self).rep(js), old(self).may(all)]
                    old(self).rep(js) && js.len() < all.len() && all[js.len() as int].0 == txt(k) ==> !old(self).may(all),
            }
    $EBODY
    $ATTR fn finish(&mut self) -> (r: Result<()>)
        requires exists|js: Members| #[trigger] old(self).rep(js)
        ensures $MORE
            forall|js: Members| #![trigger final(self).promise(js)] #![trigger old(self).rep(js)] final(self).promise(js) == old(self).promise(js),
            forall|js: Members| #[trigger] old(self).rep(js) ==> (r is Ok <==> old(self).may(js)),
            forall|js: Members| #[trigger] old(self).rep(js) && r is Ok ==> final(self).wrote(js)
    $FBODY

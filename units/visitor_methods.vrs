    $ATTR fn null(&mut self) -> (r: Result<()>)
        ensures r is Ok <==> old(self).takes(J::Null), r is Ok ==> final(self).done(J::Null)
    $BODY
    $ATTR fn boolean(&mut self, b: bool) -> (r: Result<()>)
        ensures r is Ok <==> old(self).takes(J::Bool(b)), r is Ok ==> final(self).done(J::Bool(b))
    $BODY
    $ATTR fn string(&mut self, s: &str) -> (r: Result<()>)
        ensures r is Ok <==> old(self).takes(J::Str(txt(s))), r is Ok ==> final(self).done(J::Str(txt(s)))
    $BODY
    $ATTR fn negative(&mut self, n: i64) -> (r: Result<()>)
        requires n <= 0
        ensures r is Ok <==> old(self).takes(J::Neg(n)), r is Ok ==> final(self).done(J::Neg(n))
    $BODY
    $ATTR fn nonnegative(&mut self, n: u64) -> (r: Result<()>)
        ensures r is Ok <==> old(self).takes(J::Nonneg(n)), r is Ok ==> final(self).done(J::Nonneg(n))
    $BODY
    $ATTR fn float(&mut self, n: f64) -> (r: Result<()>)
        ensures r is Ok <==> old(self).takes(J::Float(n)), r is Ok ==> final(self).done(J::Float(n))
    $BODY
    $ATTR fn seq(&mut self) -> (r: Result<Box<DynSeq<'_>>>)
        ensures match r {
            Ok(b) => b.rep(Seq::empty())
                && (forall|js: Seq<J>| #[trigger] b.may(js) == old(self).takes(J::List(js)))
                && (forall|js: Seq<J>| b.promise(js) ==> #[trigger] final(self).done(J::List(js))),
            Err(_) => forall|js: Seq<J>| !#[trigger] old(self).takes(J::List(js)),
        }
    $BODY
    $ATTR fn map(&mut self) -> (r: Result<Box<DynMap<'_>>>)
        ensures match r {
            Ok(b) => b.rep(Seq::empty())
                && (forall|js: Members| #[trigger] b.may(js) == old(self).takes(J::Obj(js)))
                && (forall|js: Members| b.promise(js) ==> #[trigger] final(self).done(J::Obj(js))),
            Err(_) => forall|js: Members| !#[trigger] old(self).takes(J::Obj(js)),
        }
    $BODY

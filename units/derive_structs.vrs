// written by tools/gen_derive.py
//@include derive_model.vrs
//@props C14 C12
pub mod deco_s {
use super::*;
//@item deco_s::Deco | pub
//@item deco_s::__Visitor
impl OneField for __Visitor { type T = Deco; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Deco::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Deco::holds(self.__out, j) }
//@fn deco_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn deco_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Deco {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u8>(ms, txt("n \"0\\"))
        && names_fit::<Option<u8>>(ms, txt("m1"))
        && names_fit::<u8>(ms, txt("n \"2\\"))
        && names_fit::<u8>(ms, txt("m3"))
        && names_fit::<u8>(ms, txt("n \"4\\"))
        && names_fit::<Option<u8>>(ms, txt("m5"))
        && names_fit::<u8>(ms, txt("n \"6\\"))
        && names_fit::<u8>(ms, txt("m7"))
        && names_fit::<u8>(ms, txt("n \"8\\"))
        && names_fit::<Option<u8>>(ms, txt("m9"))
        && names_fit::<u8>(ms, txt("n \"10\\"))
        && names_fit::<u8>(ms, txt("m11"))
        && names_fit::<u8>(ms, txt("n \"12\\"))
        && names_fit::<Option<u8>>(ms, txt("m13"))
        && (last_named(ms, txt("n \"0\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m1")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"2\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m3")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"4\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m5")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"6\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m7")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"8\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m9")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"10\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m11")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n \"12\\")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m13")) is Some || <Option<u8> as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u8>(Some(s.m0), ms, txt("n \"0\\"))
        && slot::<Option<u8>>(Some(s.m1), ms, txt("m1"))
        && slot::<u8>(Some(s.m2), ms, txt("n \"2\\"))
        && slot::<u8>(Some(s.m3), ms, txt("m3"))
        && slot::<u8>(Some(s.m4), ms, txt("n \"4\\"))
        && slot::<Option<u8>>(Some(s.m5), ms, txt("m5"))
        && slot::<u8>(Some(s.m6), ms, txt("n \"6\\"))
        && slot::<u8>(Some(s.m7), ms, txt("m7"))
        && slot::<u8>(Some(s.m8), ms, txt("n \"8\\"))
        && slot::<Option<u8>>(Some(s.m9), ms, txt("m9"))
        && slot::<u8>(Some(s.m10), ms, txt("n \"10\\"))
        && slot::<u8>(Some(s.m11), ms, txt("m11"))
        && slot::<u8>(Some(s.m12), ms, txt("n \"12\\"))
        && slot::<Option<u8>>(Some(s.m13), ms, txt("m13")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn deco_s::<Deserialize for Deco>::begin
//@end
//@fn deco_s::<Deserialize for Deco>::default | de::Deserialize::default
//@end
}
//@item deco_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u8>(js, txt("n \"0\\"))
        && names_fit::<Option<u8>>(js, txt("m1"))
        && names_fit::<u8>(js, txt("n \"2\\"))
        && names_fit::<u8>(js, txt("m3"))
        && names_fit::<u8>(js, txt("n \"4\\"))
        && names_fit::<Option<u8>>(js, txt("m5"))
        && names_fit::<u8>(js, txt("n \"6\\"))
        && names_fit::<u8>(js, txt("m7"))
        && names_fit::<u8>(js, txt("n \"8\\"))
        && names_fit::<Option<u8>>(js, txt("m9"))
        && names_fit::<u8>(js, txt("n \"10\\"))
        && names_fit::<u8>(js, txt("m11"))
        && names_fit::<u8>(js, txt("n \"12\\"))
        && names_fit::<Option<u8>>(js, txt("m13"))
        && slot::<u8>(self.m0, js, txt("n \"0\\"))
        && slot::<Option<u8>>(self.m1, js, txt("m1"))
        && slot::<u8>(self.m2, js, txt("n \"2\\"))
        && slot::<u8>(self.m3, js, txt("m3"))
        && slot::<u8>(self.m4, js, txt("n \"4\\"))
        && slot::<Option<u8>>(self.m5, js, txt("m5"))
        && slot::<u8>(self.m6, js, txt("n \"6\\"))
        && slot::<u8>(self.m7, js, txt("m7"))
        && slot::<u8>(self.m8, js, txt("n \"8\\"))
        && slot::<Option<u8>>(self.m9, js, txt("m9"))
        && slot::<u8>(self.m10, js, txt("n \"10\\"))
        && slot::<u8>(self.m11, js, txt("m11"))
        && slot::<u8>(self.m12, js, txt("n \"12\\"))
        && slot::<Option<u8>>(self.m13, js, txt("m13")) }
    closed spec fn may(&self, js: Members) -> bool { Deco::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Deco::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Deco::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn deco_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("n \"0\\");
        reveal_strlit("m1");
        reveal_strlit("n \"2\\");
        reveal_strlit("m3");
        reveal_strlit("n \"4\\");
        reveal_strlit("m5");
        reveal_strlit("n \"6\\");
        reveal_strlit("m7");
        reveal_strlit("n \"8\\");
        reveal_strlit("m9");
        reveal_strlit("n \"10\\");
        reveal_strlit("m11");
        reveal_strlit("n \"12\\");
        reveal_strlit("m13");
        assert("m1"@.len() != "n \"0\\"@.len());
        assert("n \"2\\"@[3] != "n \"0\\"@[3]);
        assert("n \"2\\"@.len() != "m1"@.len());
        assert("m3"@.len() != "n \"0\\"@.len());
        assert("m3"@[1] != "m1"@[1]);
        assert("m3"@.len() != "n \"2\\"@.len());
        assert("n \"4\\"@[3] != "n \"0\\"@[3]);
        assert("n \"4\\"@.len() != "m1"@.len());
        assert("n \"4\\"@[3] != "n \"2\\"@[3]);
        assert("n \"4\\"@.len() != "m3"@.len());
        assert("m5"@.len() != "n \"0\\"@.len());
        assert("m5"@[1] != "m1"@[1]);
        assert("m5"@.len() != "n \"2\\"@.len());
        assert("m5"@[1] != "m3"@[1]);
        assert("m5"@.len() != "n \"4\\"@.len());
        assert("n \"6\\"@[3] != "n \"0\\"@[3]);
        assert("n \"6\\"@.len() != "m1"@.len());
        assert("n \"6\\"@[3] != "n \"2\\"@[3]);
        assert("n \"6\\"@.len() != "m3"@.len());
        assert("n \"6\\"@[3] != "n \"4\\"@[3]);
        assert("n \"6\\"@.len() != "m5"@.len());
        assert("m7"@.len() != "n \"0\\"@.len());
        assert("m7"@[1] != "m1"@[1]);
        assert("m7"@.len() != "n \"2\\"@.len());
        assert("m7"@[1] != "m3"@[1]);
        assert("m7"@.len() != "n \"4\\"@.len());
        assert("m7"@[1] != "m5"@[1]);
        assert("m7"@.len() != "n \"6\\"@.len());
        assert("n \"8\\"@[3] != "n \"0\\"@[3]);
        assert("n \"8\\"@.len() != "m1"@.len());
        assert("n \"8\\"@[3] != "n \"2\\"@[3]);
        assert("n \"8\\"@.len() != "m3"@.len());
        assert("n \"8\\"@[3] != "n \"4\\"@[3]);
        assert("n \"8\\"@.len() != "m5"@.len());
        assert("n \"8\\"@[3] != "n \"6\\"@[3]);
        assert("n \"8\\"@.len() != "m7"@.len());
        assert("m9"@.len() != "n \"0\\"@.len());
        assert("m9"@[1] != "m1"@[1]);
        assert("m9"@.len() != "n \"2\\"@.len());
        assert("m9"@[1] != "m3"@[1]);
        assert("m9"@.len() != "n \"4\\"@.len());
        assert("m9"@[1] != "m5"@[1]);
        assert("m9"@.len() != "n \"6\\"@.len());
        assert("m9"@[1] != "m7"@[1]);
        assert("m9"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "n \"0\\"@.len());
        assert("n \"10\\"@.len() != "m1"@.len());
        assert("n \"10\\"@.len() != "n \"2\\"@.len());
        assert("n \"10\\"@.len() != "m3"@.len());
        assert("n \"10\\"@.len() != "n \"4\\"@.len());
        assert("n \"10\\"@.len() != "m5"@.len());
        assert("n \"10\\"@.len() != "n \"6\\"@.len());
        assert("n \"10\\"@.len() != "m7"@.len());
        assert("n \"10\\"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "m9"@.len());
        assert("m11"@.len() != "n \"0\\"@.len());
        assert("m11"@.len() != "m1"@.len());
        assert("m11"@.len() != "n \"2\\"@.len());
        assert("m11"@.len() != "m3"@.len());
        assert("m11"@.len() != "n \"4\\"@.len());
        assert("m11"@.len() != "m5"@.len());
        assert("m11"@.len() != "n \"6\\"@.len());
        assert("m11"@.len() != "m7"@.len());
        assert("m11"@.len() != "n \"8\\"@.len());
        assert("m11"@.len() != "m9"@.len());
        assert("m11"@.len() != "n \"10\\"@.len());
        assert("n \"12\\"@.len() != "n \"0\\"@.len());
        assert("n \"12\\"@.len() != "m1"@.len());
        assert("n \"12\\"@.len() != "n \"2\\"@.len());
        assert("n \"12\\"@.len() != "m3"@.len());
        assert("n \"12\\"@.len() != "n \"4\\"@.len());
        assert("n \"12\\"@.len() != "m5"@.len());
        assert("n \"12\\"@.len() != "n \"6\\"@.len());
        assert("n \"12\\"@.len() != "m7"@.len());
        assert("n \"12\\"@.len() != "n \"8\\"@.len());
        assert("n \"12\\"@.len() != "m9"@.len());
        assert("n \"12\\"@[4] != "n \"10\\"@[4]);
        assert("n \"12\\"@.len() != "m11"@.len());
        assert("m13"@.len() != "n \"0\\"@.len());
        assert("m13"@.len() != "m1"@.len());
        assert("m13"@.len() != "n \"2\\"@.len());
        assert("m13"@.len() != "m3"@.len());
        assert("m13"@.len() != "n \"4\\"@.len());
        assert("m13"@.len() != "m5"@.len());
        assert("m13"@.len() != "n \"6\\"@.len());
        assert("m13"@.len() != "m7"@.len());
        assert("m13"@.len() != "n \"8\\"@.len());
        assert("m13"@.len() != "m9"@.len());
        assert("m13"@.len() != "n \"10\\"@.len());
        assert("m13"@[2] != "m11"@[2]);
        assert("m13"@.len() != "n \"12\\"@.len());
    }
//@end
//@fn deco_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item deco_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 14 }
//@fn deco_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Deco {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("n \"0\\"), <u8 as Serialize>::tree(&self.m0)), (txt("m1"), <Option<u8> as Serialize>::tree(&self.m1)), (txt("n \"2\\"), <u8 as Serialize>::tree(&self.m2)), (txt("m3"), <u8 as Serialize>::tree(&self.m3)), (txt("n \"4\\"), <u8 as Serialize>::tree(&self.m4)), (txt("m5"), <Option<u8> as Serialize>::tree(&self.m5)), (txt("n \"6\\"), <u8 as Serialize>::tree(&self.m6)), (txt("m7"), <u8 as Serialize>::tree(&self.m7)), (txt("n \"8\\"), <u8 as Serialize>::tree(&self.m8)), (txt("m9"), <Option<u8> as Serialize>::tree(&self.m9)), (txt("n \"10\\"), <u8 as Serialize>::tree(&self.m10)), (txt("m11"), <u8 as Serialize>::tree(&self.m11)), (txt("n \"12\\"), <u8 as Serialize>::tree(&self.m12)), (txt("m13"), <Option<u8> as Serialize>::tree(&self.m13))]) }
//@fn deco_s::<Serialize for Deco>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod zero_s {
use super::*;
//@item zero_s::Zero | pub
//@item zero_s::__Visitor
impl OneField for __Visitor { type T = Zero; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Zero::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Zero::holds(self.__out, j) }
//@fn zero_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn zero_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Zero {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms)  }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s)  }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn zero_s::<Deserialize for Zero>::begin
//@end
//@fn zero_s::<Deserialize for Zero>::default | de::Deserialize::default
//@end
}
//@item zero_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true  }
    closed spec fn may(&self, js: Members) -> bool { Zero::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Zero::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Zero::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn zero_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
    }
//@end
//@fn zero_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item zero_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 0 }
//@fn zero_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Zero {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![]) }
//@fn zero_s::<Serialize for Zero>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod one_s {
use super::*;
//@item one_s::One | pub
//@item one_s::__Visitor
impl<A: Deserialize> OneField for __Visitor<A> { type T = One<A>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<A: Deserialize> Visitor for __Visitor<A> {
    closed spec fn takes(&self, j: J) -> bool { One::<A>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { One::<A>::holds(self.__out, j) }
//@fn one_s::<Visitor for __Visitor<A>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn one_s::<Visitor for __Visitor<A>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<A: Deserialize> Deserialize for One<A> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<A>(ms, txt("a"))
        && (last_named(ms, txt("a")) is Some || <A as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<A>(Some(s.a), ms, txt("a")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn one_s::<Deserialize for One<A>>::begin
//@end
//@fn one_s::<Deserialize for One<A>>::default | de::Deserialize::default
//@end
}
//@item one_s::__State
impl<'__a, A: Deserialize + '__a> MapBuilderTrait for __State<'__a, A> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<A>(js, txt("a"))
        && slot::<A>(self.a, js, txt("a")) }
    closed spec fn may(&self, js: Members) -> bool { One::<A>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { One::<A>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { One::<A>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn one_s::<Map for __State<'__a,A>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("a");
    }
//@end
//@fn one_s::<Map for __State<'__a,A>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item one_s::__Map
impl<'__a, A: Serialize + '__a> SerMap for __Map<'__a, A> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 1 }
//@fn one_s::<Map for __Map<'__a,A>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<A: Serialize> Serialize for One<A> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("a"), <A as Serialize>::tree(&self.a))]) }
//@fn one_s::<Serialize for One<A>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod plain_s {
use super::*;
//@item plain_s::Plain | pub
//@item plain_s::__Visitor
impl OneField for __Visitor { type T = Plain; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Plain::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Plain::holds(self.__out, j) }
//@fn plain_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn plain_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Plain {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u32>(ms, txt("id"))
        && names_fit::<String>(ms, txt("name"))
        && names_fit::<Vec<String>>(ms, txt("tags"))
        && names_fit::<Option<Box<u8>>>(ms, txt("extra"))
        && names_fit::<bool>(ms, txt("ok"))
        && (last_named(ms, txt("id")) is Some || <u32 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("name")) is Some || <String as Deserialize>::absent() is Some)
        && (last_named(ms, txt("tags")) is Some || <Vec<String> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("extra")) is Some || <Option<Box<u8>> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("ok")) is Some || <bool as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u32>(Some(s.id), ms, txt("id"))
        && slot::<String>(Some(s.name), ms, txt("name"))
        && slot::<Vec<String>>(Some(s.tags), ms, txt("tags"))
        && slot::<Option<Box<u8>>>(Some(s.extra), ms, txt("extra"))
        && slot::<bool>(Some(s.ok), ms, txt("ok")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn plain_s::<Deserialize for Plain>::begin
//@end
//@fn plain_s::<Deserialize for Plain>::default | de::Deserialize::default
//@end
}
//@item plain_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u32>(js, txt("id"))
        && names_fit::<String>(js, txt("name"))
        && names_fit::<Vec<String>>(js, txt("tags"))
        && names_fit::<Option<Box<u8>>>(js, txt("extra"))
        && names_fit::<bool>(js, txt("ok"))
        && slot::<u32>(self.id, js, txt("id"))
        && slot::<String>(self.name, js, txt("name"))
        && slot::<Vec<String>>(self.tags, js, txt("tags"))
        && slot::<Option<Box<u8>>>(self.extra, js, txt("extra"))
        && slot::<bool>(self.ok, js, txt("ok")) }
    closed spec fn may(&self, js: Members) -> bool { Plain::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Plain::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Plain::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn plain_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("id");
        reveal_strlit("name");
        reveal_strlit("tags");
        reveal_strlit("extra");
        reveal_strlit("ok");
        assert("name"@.len() != "id"@.len());
        assert("tags"@.len() != "id"@.len());
        assert("tags"@[0] != "name"@[0]);
        assert("extra"@.len() != "id"@.len());
        assert("extra"@.len() != "name"@.len());
        assert("extra"@.len() != "tags"@.len());
        assert("ok"@[0] != "id"@[0]);
        assert("ok"@.len() != "name"@.len());
        assert("ok"@.len() != "tags"@.len());
        assert("ok"@.len() != "extra"@.len());
    }
//@end
//@fn plain_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item plain_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn plain_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Plain {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("id"), <u32 as Serialize>::tree(&self.id)), (txt("name"), <String as Serialize>::tree(&self.name)), (txt("tags"), <Vec<String> as Serialize>::tree(&self.tags)), (txt("extra"), <Option<Box<u8>> as Serialize>::tree(&self.extra)), (txt("ok"), <bool as Serialize>::tree(&self.ok))]) }
//@fn plain_s::<Serialize for Plain>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod three_s {
use super::*;
//@item three_s::Three | pub
//@item three_s::__Visitor
impl<A: Deserialize, B: Deserialize, C: Deserialize> OneField for __Visitor<A, B, C> { type T = Three<A, B, C>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<A: Deserialize, B: Deserialize, C: Deserialize> Visitor for __Visitor<A, B, C> {
    closed spec fn takes(&self, j: J) -> bool { Three::<A, B, C>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Three::<A, B, C>::holds(self.__out, j) }
//@fn three_s::<Visitor for __Visitor<A,B,C>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn three_s::<Visitor for __Visitor<A,B,C>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<A: Deserialize, B: Deserialize, C: Deserialize> Deserialize for Three<A, B, C> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<A>(ms, txt("first"))
        && names_fit::<B>(ms, txt("second"))
        && names_fit::<C>(ms, txt("third"))
        && (last_named(ms, txt("first")) is Some || <A as Deserialize>::absent() is Some)
        && (last_named(ms, txt("second")) is Some || <B as Deserialize>::absent() is Some)
        && (last_named(ms, txt("third")) is Some || <C as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<A>(Some(s.first), ms, txt("first"))
        && slot::<B>(Some(s.second), ms, txt("second"))
        && slot::<C>(Some(s.third), ms, txt("third")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn three_s::<Deserialize for Three<A,B,C>>::begin
//@end
//@fn three_s::<Deserialize for Three<A,B,C>>::default | de::Deserialize::default
//@end
}
//@item three_s::__State
impl<'__a, A: Deserialize + '__a, B: Deserialize + '__a, C: Deserialize + '__a> MapBuilderTrait for __State<'__a, A, B, C> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<A>(js, txt("first"))
        && names_fit::<B>(js, txt("second"))
        && names_fit::<C>(js, txt("third"))
        && slot::<A>(self.first, js, txt("first"))
        && slot::<B>(self.second, js, txt("second"))
        && slot::<C>(self.third, js, txt("third")) }
    closed spec fn may(&self, js: Members) -> bool { Three::<A, B, C>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Three::<A, B, C>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Three::<A, B, C>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn three_s::<Map for __State<'__a,A,B,C>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("first");
        reveal_strlit("second");
        reveal_strlit("third");
        assert("second"@.len() != "first"@.len());
        assert("third"@[0] != "first"@[0]);
        assert("third"@.len() != "second"@.len());
    }
//@end
//@fn three_s::<Map for __State<'__a,A,B,C>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item three_s::__Map
impl<'__a, A: Serialize + '__a, B: Serialize + '__a, C: Serialize + '__a> SerMap for __Map<'__a, A, B, C> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn three_s::<Map for __Map<'__a,A,B,C>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<A: Serialize, B: Serialize, C: Serialize> Serialize for Three<A, B, C> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("first"), <A as Serialize>::tree(&self.first)), (txt("second"), <B as Serialize>::tree(&self.second)), (txt("third"), <C as Serialize>::tree(&self.third))]) }
//@fn three_s::<Serialize for Three<A,B,C>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod opt_s {
use super::*;
//@item opt_s::Opt | pub
//@item opt_s::__Visitor
impl<A: Deserialize, B: Deserialize, C: Deserialize> OneField for __Visitor<A, B, C> { type T = Opt<A, B, C>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<A: Deserialize, B: Deserialize, C: Deserialize> Visitor for __Visitor<A, B, C> {
    closed spec fn takes(&self, j: J) -> bool { Opt::<A, B, C>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Opt::<A, B, C>::holds(self.__out, j) }
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn opt_s::<Visitor for __Visitor<A,B,C>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<A: Deserialize, B: Deserialize, C: Deserialize> Deserialize for Opt<A, B, C> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<Option<A>>(ms, txt("x"))
        && names_fit::<Option<Option<B>>>(ms, txt("y"))
        && names_fit::<C>(ms, txt("z"))
        && (last_named(ms, txt("x")) is Some || <Option<A> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("y")) is Some || <Option<Option<B>> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("z")) is Some || <C as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<Option<A>>(Some(s.x), ms, txt("x"))
        && slot::<Option<Option<B>>>(Some(s.y), ms, txt("y"))
        && slot::<C>(Some(s.z), ms, txt("z")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn opt_s::<Deserialize for Opt<A,B,C>>::begin
//@end
//@fn opt_s::<Deserialize for Opt<A,B,C>>::default | de::Deserialize::default
//@end
}
//@item opt_s::__State
impl<'__a, A: Deserialize + '__a, B: Deserialize + '__a, C: Deserialize + '__a> MapBuilderTrait for __State<'__a, A, B, C> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<Option<A>>(js, txt("x"))
        && names_fit::<Option<Option<B>>>(js, txt("y"))
        && names_fit::<C>(js, txt("z"))
        && slot::<Option<A>>(self.x, js, txt("x"))
        && slot::<Option<Option<B>>>(self.y, js, txt("y"))
        && slot::<C>(self.z, js, txt("z")) }
    closed spec fn may(&self, js: Members) -> bool { Opt::<A, B, C>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Opt::<A, B, C>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Opt::<A, B, C>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn opt_s::<Map for __State<'__a,A,B,C>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("x");
        reveal_strlit("y");
        reveal_strlit("z");
        assert("y"@[0] != "x"@[0]);
        assert("z"@[0] != "x"@[0]);
        assert("z"@[0] != "y"@[0]);
    }
//@end
//@fn opt_s::<Map for __State<'__a,A,B,C>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item opt_s::__Map
impl<'__a, A: Serialize + '__a, B: Serialize + '__a, C: Serialize + '__a> SerMap for __Map<'__a, A, B, C> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn opt_s::<Map for __Map<'__a,A,B,C>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<A: Serialize, B: Serialize, C: Serialize> Serialize for Opt<A, B, C> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("x"), <Option<A> as Serialize>::tree(&self.x)), (txt("y"), <Option<Option<B>> as Serialize>::tree(&self.y)), (txt("z"), <C as Serialize>::tree(&self.z))]) }
//@fn opt_s::<Serialize for Opt<A,B,C>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod ren_s {
use super::*;
//@item ren_s::Ren | pub
//@item ren_s::__Visitor
impl OneField for __Visitor { type T = Ren; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Ren::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Ren::holds(self.__out, j) }
//@fn ren_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn ren_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Ren {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<String>(ms, txt("type"))
        && names_fit::<u8>(ms, txt(""))
        && names_fit::<u8>(ms, txt("q\"u\\o\nte"))
        && names_fit::<Option<bool>>(ms, txt("émoji 😀"))
        && names_fit::<i32>(ms, txt("ty"))
        && (last_named(ms, txt("type")) is Some || <String as Deserialize>::absent() is Some)
        && (last_named(ms, txt("")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("q\"u\\o\nte")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("émoji 😀")) is Some || <Option<bool> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("ty")) is Some || <i32 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<String>(Some(s.ty), ms, txt("type"))
        && slot::<u8>(Some(s.empty), ms, txt(""))
        && slot::<u8>(Some(s.quote), ms, txt("q\"u\\o\nte"))
        && slot::<Option<bool>>(Some(s.uni), ms, txt("émoji 😀"))
        && slot::<i32>(Some(s.other), ms, txt("ty")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn ren_s::<Deserialize for Ren>::begin
//@end
//@fn ren_s::<Deserialize for Ren>::default | de::Deserialize::default
//@end
}
//@item ren_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<String>(js, txt("type"))
        && names_fit::<u8>(js, txt(""))
        && names_fit::<u8>(js, txt("q\"u\\o\nte"))
        && names_fit::<Option<bool>>(js, txt("émoji 😀"))
        && names_fit::<i32>(js, txt("ty"))
        && slot::<String>(self.ty, js, txt("type"))
        && slot::<u8>(self.empty, js, txt(""))
        && slot::<u8>(self.quote, js, txt("q\"u\\o\nte"))
        && slot::<Option<bool>>(self.uni, js, txt("émoji 😀"))
        && slot::<i32>(self.other, js, txt("ty")) }
    closed spec fn may(&self, js: Members) -> bool { Ren::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Ren::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Ren::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn ren_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("type");
        reveal_strlit("");
        reveal_strlit("q\"u\\o\nte");
        reveal_strlit("émoji 😀");
        reveal_strlit("ty");
        assert(""@.len() != "type"@.len());
        assert("q\"u\\o\nte"@.len() != "type"@.len());
        assert("q\"u\\o\nte"@.len() != ""@.len());
        assert("émoji 😀"@.len() != "type"@.len());
        assert("émoji 😀"@.len() != ""@.len());
        assert("émoji 😀"@.len() != "q\"u\\o\nte"@.len());
        assert("ty"@.len() != "type"@.len());
        assert("ty"@.len() != ""@.len());
        assert("ty"@.len() != "q\"u\\o\nte"@.len());
        assert("ty"@.len() != "émoji 😀"@.len());
    }
//@end
//@fn ren_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item ren_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn ren_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Ren {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("type"), <String as Serialize>::tree(&self.ty)), (txt(""), <u8 as Serialize>::tree(&self.empty)), (txt("q\"u\\o\nte"), <u8 as Serialize>::tree(&self.quote)), (txt("émoji 😀"), <Option<bool> as Serialize>::tree(&self.uni)), (txt("ty"), <i32 as Serialize>::tree(&self.other))]) }
//@fn ren_s::<Serialize for Ren>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod raw_s {
use super::*;
//@item raw_s::Raw | pub
//@item raw_s::__Visitor
impl<A: Deserialize> OneField for __Visitor<A> { type T = Raw<A>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<A: Deserialize> Visitor for __Visitor<A> {
    closed spec fn takes(&self, j: J) -> bool { Raw::<A>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Raw::<A>::holds(self.__out, j) }
//@fn raw_s::<Visitor for __Visitor<A>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn raw_s::<Visitor for __Visitor<A>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<A: Deserialize> Deserialize for Raw<A> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u8>(ms, txt("type"))
        && names_fit::<A>(ms, txt("match"))
        && names_fit::<Option<u8>>(ms, txt("fn"))
        && names_fit::<u8>(ms, txt("r"))
        && names_fit::<u8>(ms, txt("r#x"))
        && (last_named(ms, txt("type")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("match")) is Some || <A as Deserialize>::absent() is Some)
        && (last_named(ms, txt("fn")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("r")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("r#x")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u8>(Some(s.raw_type), ms, txt("type"))
        && slot::<A>(Some(s.raw_match), ms, txt("match"))
        && slot::<Option<u8>>(Some(s.raw_fn), ms, txt("fn"))
        && slot::<u8>(Some(s.r), ms, txt("r"))
        && slot::<u8>(Some(s.x), ms, txt("r#x")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn raw_s::<Deserialize for Raw<A>>::begin
//@end
//@fn raw_s::<Deserialize for Raw<A>>::default | de::Deserialize::default
//@end
}
//@item raw_s::__State
impl<'__a, A: Deserialize + '__a> MapBuilderTrait for __State<'__a, A> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u8>(js, txt("type"))
        && names_fit::<A>(js, txt("match"))
        && names_fit::<Option<u8>>(js, txt("fn"))
        && names_fit::<u8>(js, txt("r"))
        && names_fit::<u8>(js, txt("r#x"))
        && slot::<u8>(self.raw_type, js, txt("type"))
        && slot::<A>(self.raw_match, js, txt("match"))
        && slot::<Option<u8>>(self.raw_fn, js, txt("fn"))
        && slot::<u8>(self.r, js, txt("r"))
        && slot::<u8>(self.x, js, txt("r#x")) }
    closed spec fn may(&self, js: Members) -> bool { Raw::<A>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Raw::<A>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Raw::<A>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn raw_s::<Map for __State<'__a,A>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("type");
        reveal_strlit("match");
        reveal_strlit("fn");
        reveal_strlit("r");
        reveal_strlit("r#x");
        assert("match"@.len() != "type"@.len());
        assert("fn"@.len() != "type"@.len());
        assert("fn"@.len() != "match"@.len());
        assert("r"@.len() != "type"@.len());
        assert("r"@.len() != "match"@.len());
        assert("r"@.len() != "fn"@.len());
        assert("r#x"@.len() != "type"@.len());
        assert("r#x"@.len() != "match"@.len());
        assert("r#x"@.len() != "fn"@.len());
        assert("r#x"@.len() != "r"@.len());
    }
//@end
//@fn raw_s::<Map for __State<'__a,A>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item raw_s::__Map
impl<'__a, A: Serialize + '__a> SerMap for __Map<'__a, A> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn raw_s::<Map for __Map<'__a,A>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<A: Serialize> Serialize for Raw<A> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("type"), <u8 as Serialize>::tree(&self.raw_type)), (txt("match"), <A as Serialize>::tree(&self.raw_match)), (txt("fn"), <Option<u8> as Serialize>::tree(&self.raw_fn)), (txt("r"), <u8 as Serialize>::tree(&self.r)), (txt("r#x"), <u8 as Serialize>::tree(&self.x))]) }
//@fn raw_s::<Serialize for Raw<A>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod cross_s {
use super::*;
//@item cross_s::Cross | pub
//@item cross_s::__Visitor
impl OneField for __Visitor { type T = Cross; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Cross::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Cross::holds(self.__out, j) }
//@fn cross_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn cross_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Cross {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u8>(ms, txt("b"))
        && names_fit::<u8>(ms, txt("c"))
        && names_fit::<u8>(ms, txt("a"))
        && (last_named(ms, txt("b")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("c")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("a")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u8>(Some(s.a), ms, txt("b"))
        && slot::<u8>(Some(s.b), ms, txt("c"))
        && slot::<u8>(Some(s.c), ms, txt("a")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn cross_s::<Deserialize for Cross>::begin
//@end
//@fn cross_s::<Deserialize for Cross>::default | de::Deserialize::default
//@end
}
//@item cross_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u8>(js, txt("b"))
        && names_fit::<u8>(js, txt("c"))
        && names_fit::<u8>(js, txt("a"))
        && slot::<u8>(self.a, js, txt("b"))
        && slot::<u8>(self.b, js, txt("c"))
        && slot::<u8>(self.c, js, txt("a")) }
    closed spec fn may(&self, js: Members) -> bool { Cross::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Cross::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Cross::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn cross_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("b");
        reveal_strlit("c");
        reveal_strlit("a");
        assert("c"@[0] != "b"@[0]);
        assert("a"@[0] != "b"@[0]);
        assert("a"@[0] != "c"@[0]);
    }
//@end
//@fn cross_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item cross_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn cross_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Cross {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("b"), <u8 as Serialize>::tree(&self.a)), (txt("c"), <u8 as Serialize>::tree(&self.b)), (txt("a"), <u8 as Serialize>::tree(&self.c))]) }
//@fn cross_s::<Serialize for Cross>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod near_s {
use super::*;
//@item near_s::Near | pub
//@item near_s::__Visitor
impl OneField for __Visitor { type T = Near; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Near::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Near::holds(self.__out, j) }
//@fn near_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn near_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Near {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u8>(ms, txt("ab"))
        && names_fit::<u8>(ms, txt("a"))
        && names_fit::<u8>(ms, txt("abc"))
        && names_fit::<u8>(ms, txt("Ab"))
        && names_fit::<u8>(ms, txt("ab "))
        && (last_named(ms, txt("ab")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("a")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("abc")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("Ab")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("ab ")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u8>(Some(s.ab), ms, txt("ab"))
        && slot::<u8>(Some(s.a), ms, txt("a"))
        && slot::<u8>(Some(s.abc), ms, txt("abc"))
        && slot::<u8>(Some(s.Ab), ms, txt("Ab"))
        && slot::<u8>(Some(s.b), ms, txt("ab ")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn near_s::<Deserialize for Near>::begin
//@end
//@fn near_s::<Deserialize for Near>::default | de::Deserialize::default
//@end
}
//@item near_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u8>(js, txt("ab"))
        && names_fit::<u8>(js, txt("a"))
        && names_fit::<u8>(js, txt("abc"))
        && names_fit::<u8>(js, txt("Ab"))
        && names_fit::<u8>(js, txt("ab "))
        && slot::<u8>(self.ab, js, txt("ab"))
        && slot::<u8>(self.a, js, txt("a"))
        && slot::<u8>(self.abc, js, txt("abc"))
        && slot::<u8>(self.Ab, js, txt("Ab"))
        && slot::<u8>(self.b, js, txt("ab ")) }
    closed spec fn may(&self, js: Members) -> bool { Near::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Near::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Near::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn near_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("ab");
        reveal_strlit("a");
        reveal_strlit("abc");
        reveal_strlit("Ab");
        reveal_strlit("ab ");
        assert("a"@.len() != "ab"@.len());
        assert("abc"@.len() != "ab"@.len());
        assert("abc"@.len() != "a"@.len());
        assert("Ab"@[0] != "ab"@[0]);
        assert("Ab"@.len() != "a"@.len());
        assert("Ab"@.len() != "abc"@.len());
        assert("ab "@.len() != "ab"@.len());
        assert("ab "@.len() != "a"@.len());
        assert("ab "@[2] != "abc"@[2]);
        assert("ab "@.len() != "Ab"@.len());
    }
//@end
//@fn near_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item near_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn near_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Near {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("ab"), <u8 as Serialize>::tree(&self.ab)), (txt("a"), <u8 as Serialize>::tree(&self.a)), (txt("abc"), <u8 as Serialize>::tree(&self.abc)), (txt("Ab"), <u8 as Serialize>::tree(&self.Ab)), (txt("ab "), <u8 as Serialize>::tree(&self.b))]) }
//@fn near_s::<Serialize for Near>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod gen_s {
use super::*;
//@item gen_s::Gen | pub
//@item gen_s::__Visitor
impl<T: Deserialize, U: Deserialize> OneField for __Visitor<T, U> where U: Clone { type T = Gen<T, U>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T: Deserialize, U: Deserialize> Visitor for __Visitor<T, U> where U: Clone {
    closed spec fn takes(&self, j: J) -> bool { Gen::<T, U>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Gen::<T, U>::holds(self.__out, j) }
//@fn gen_s::<Visitor for __Visitor<T,U>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn gen_s::<Visitor for __Visitor<T,U>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T: Deserialize, U: Deserialize> Deserialize for Gen<T, U> where U: Clone {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<T>(ms, txt("t"))
        && names_fit::<Vec<U>>(ms, txt("us"))
        && names_fit::<BTreeMap<String, T>>(ms, txt("m"))
        && (last_named(ms, txt("t")) is Some || <T as Deserialize>::absent() is Some)
        && (last_named(ms, txt("us")) is Some || <Vec<U> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("m")) is Some || <BTreeMap<String, T> as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<T>(Some(s.t), ms, txt("t"))
        && slot::<Vec<U>>(Some(s.us), ms, txt("us"))
        && slot::<BTreeMap<String, T>>(Some(s.m), ms, txt("m")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn gen_s::<Deserialize for Gen<T,U>>::begin
//@end
//@fn gen_s::<Deserialize for Gen<T,U>>::default | de::Deserialize::default
//@end
}
//@item gen_s::__State
impl<'__a, T: Deserialize + '__a, U: Deserialize + '__a> MapBuilderTrait for __State<'__a, T, U> where U: Clone {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<T>(js, txt("t"))
        && names_fit::<Vec<U>>(js, txt("us"))
        && names_fit::<BTreeMap<String, T>>(js, txt("m"))
        && slot::<T>(self.t, js, txt("t"))
        && slot::<Vec<U>>(self.us, js, txt("us"))
        && slot::<BTreeMap<String, T>>(self.m, js, txt("m")) }
    closed spec fn may(&self, js: Members) -> bool { Gen::<T, U>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Gen::<T, U>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Gen::<T, U>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn gen_s::<Map for __State<'__a,T,U>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("t");
        reveal_strlit("us");
        reveal_strlit("m");
        assert("us"@.len() != "t"@.len());
        assert("m"@[0] != "t"@[0]);
        assert("m"@.len() != "us"@.len());
    }
//@end
//@fn gen_s::<Map for __State<'__a,T,U>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item gen_s::__Map
impl<'__a, T: Serialize + '__a, U: Serialize + '__a> SerMap for __Map<'__a, T, U> where U: Clone {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn gen_s::<Map for __Map<'__a,T,U>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T: Serialize, U: Serialize> Serialize for Gen<T, U> where U: Clone {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("t"), <T as Serialize>::tree(&self.t)), (txt("us"), <Vec<U> as Serialize>::tree(&self.us)), (txt("m"), <BTreeMap<String, T> as Serialize>::tree(&self.m))]) }
//@fn gen_s::<Serialize for Gen<T,U>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod constn_s {
use super::*;
//@item constn_s::ConstN | pub
//@item constn_s::__Visitor
impl<T: Clone + Deserialize, const N: usize> OneField for __Visitor<T, N> { type T = ConstN<T, N>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T: Clone + Deserialize, const N: usize> Visitor for __Visitor<T, N> {
    closed spec fn takes(&self, j: J) -> bool { ConstN::<T, N>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { ConstN::<T, N>::holds(self.__out, j) }
//@fn constn_s::<Visitor for __Visitor<T,N>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn constn_s::<Visitor for __Visitor<T,N>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T: Clone + Deserialize, const N: usize> Deserialize for ConstN<T, N> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<[T; N]>(ms, txt("arr"))
        && names_fit::<u8>(ms, txt("n"))
        && (last_named(ms, txt("arr")) is Some || <[T; N] as Deserialize>::absent() is Some)
        && (last_named(ms, txt("n")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<[T; N]>(Some(s.arr), ms, txt("arr"))
        && slot::<u8>(Some(s.n), ms, txt("n")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn constn_s::<Deserialize for ConstN<T,N>>::begin
//@end
//@fn constn_s::<Deserialize for ConstN<T,N>>::default | de::Deserialize::default
//@end
}
//@item constn_s::__State
impl<'__a, T: Clone + Deserialize + '__a, const N: usize> MapBuilderTrait for __State<'__a, T, N> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<[T; N]>(js, txt("arr"))
        && names_fit::<u8>(js, txt("n"))
        && slot::<[T; N]>(self.arr, js, txt("arr"))
        && slot::<u8>(self.n, js, txt("n")) }
    closed spec fn may(&self, js: Members) -> bool { ConstN::<T, N>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { ConstN::<T, N>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { ConstN::<T, N>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn constn_s::<Map for __State<'__a,T,N>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("arr");
        reveal_strlit("n");
        assert("n"@.len() != "arr"@.len());
    }
//@end
//@fn constn_s::<Map for __State<'__a,T,N>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item constn_s::__Map
impl<'__a, T: Clone + Serialize + '__a, const N: usize> SerMap for __Map<'__a, T, N> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 2 }
//@fn constn_s::<Map for __Map<'__a,T,N>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T: Clone + Serialize, const N: usize> Serialize for ConstN<T, N> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("arr"), <[T; N] as Serialize>::tree(&self.arr)), (txt("n"), <u8 as Serialize>::tree(&self.n))]) }
//@fn constn_s::<Serialize for ConstN<T,N>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod odd_s {
use super::*;
//@item odd_s::__Odd | pub
//@item odd_s::__Visitor
impl OneField for __Visitor { type T = __Odd; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { __Odd::fits(j) }
    closed spec fn done(&self, j: J) -> bool { __Odd::holds(self.__out, j) }
//@fn odd_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn odd_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for __Odd {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u8>(ms, txt("state"))
        && names_fit::<u8>(ms, txt("data"))
        && names_fit::<Option<u8>>(ms, txt("out"))
        && names_fit::<u8>(ms, txt("value"))
        && names_fit::<u8>(ms, txt("s"))
        && names_fit::<u8>(ms, txt("k"))
        && names_fit::<u8>(ms, txt("key"))
        && names_fit::<u8>(ms, txt("finish"))
        && (last_named(ms, txt("state")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("data")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("out")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("value")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("s")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("k")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("key")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("finish")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u8>(Some(s.state), ms, txt("state"))
        && slot::<u8>(Some(s.data), ms, txt("data"))
        && slot::<Option<u8>>(Some(s.out), ms, txt("out"))
        && slot::<u8>(Some(s.value), ms, txt("value"))
        && slot::<u8>(Some(s.s), ms, txt("s"))
        && slot::<u8>(Some(s.k), ms, txt("k"))
        && slot::<u8>(Some(s.key), ms, txt("key"))
        && slot::<u8>(Some(s.finish), ms, txt("finish")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn odd_s::<Deserialize for __Odd>::begin
//@end
//@fn odd_s::<Deserialize for __Odd>::default | de::Deserialize::default
//@end
}
//@item odd_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u8>(js, txt("state"))
        && names_fit::<u8>(js, txt("data"))
        && names_fit::<Option<u8>>(js, txt("out"))
        && names_fit::<u8>(js, txt("value"))
        && names_fit::<u8>(js, txt("s"))
        && names_fit::<u8>(js, txt("k"))
        && names_fit::<u8>(js, txt("key"))
        && names_fit::<u8>(js, txt("finish"))
        && slot::<u8>(self.state, js, txt("state"))
        && slot::<u8>(self.data, js, txt("data"))
        && slot::<Option<u8>>(self.out, js, txt("out"))
        && slot::<u8>(self.value, js, txt("value"))
        && slot::<u8>(self.s, js, txt("s"))
        && slot::<u8>(self.k, js, txt("k"))
        && slot::<u8>(self.key, js, txt("key"))
        && slot::<u8>(self.finish, js, txt("finish")) }
    closed spec fn may(&self, js: Members) -> bool { __Odd::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { __Odd::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { __Odd::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn odd_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("state");
        reveal_strlit("data");
        reveal_strlit("out");
        reveal_strlit("value");
        reveal_strlit("s");
        reveal_strlit("k");
        reveal_strlit("key");
        reveal_strlit("finish");
        assert("data"@.len() != "state"@.len());
        assert("out"@.len() != "state"@.len());
        assert("out"@.len() != "data"@.len());
        assert("value"@[0] != "state"@[0]);
        assert("value"@.len() != "data"@.len());
        assert("value"@.len() != "out"@.len());
        assert("s"@.len() != "state"@.len());
        assert("s"@.len() != "data"@.len());
        assert("s"@.len() != "out"@.len());
        assert("s"@.len() != "value"@.len());
        assert("k"@.len() != "state"@.len());
        assert("k"@.len() != "data"@.len());
        assert("k"@.len() != "out"@.len());
        assert("k"@.len() != "value"@.len());
        assert("k"@[0] != "s"@[0]);
        assert("key"@.len() != "state"@.len());
        assert("key"@.len() != "data"@.len());
        assert("key"@[0] != "out"@[0]);
        assert("key"@.len() != "value"@.len());
        assert("key"@.len() != "s"@.len());
        assert("key"@.len() != "k"@.len());
        assert("finish"@.len() != "state"@.len());
        assert("finish"@.len() != "data"@.len());
        assert("finish"@.len() != "out"@.len());
        assert("finish"@.len() != "value"@.len());
        assert("finish"@.len() != "s"@.len());
        assert("finish"@.len() != "k"@.len());
        assert("finish"@.len() != "key"@.len());
    }
//@end
//@fn odd_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item odd_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 8 }
//@fn odd_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for __Odd {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("state"), <u8 as Serialize>::tree(&self.state)), (txt("data"), <u8 as Serialize>::tree(&self.data)), (txt("out"), <Option<u8> as Serialize>::tree(&self.out)), (txt("value"), <u8 as Serialize>::tree(&self.value)), (txt("s"), <u8 as Serialize>::tree(&self.s)), (txt("k"), <u8 as Serialize>::tree(&self.k)), (txt("key"), <u8 as Serialize>::tree(&self.key)), (txt("finish"), <u8 as Serialize>::tree(&self.finish))]) }
//@fn odd_s::<Serialize for __Odd>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod many_s {
use super::*;
//@item many_s::Many | pub
//@item many_s::__Visitor
impl OneField for __Visitor { type T = Many; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Many::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Many::holds(self.__out, j) }
//@fn many_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn many_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for Many {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<Option<u8>>(ms, txt("f0"))
        && names_fit::<u8>(ms, txt("f1"))
        && names_fit::<u8>(ms, txt("f2"))
        && names_fit::<Option<u8>>(ms, txt("f3"))
        && names_fit::<u8>(ms, txt("f4"))
        && names_fit::<u8>(ms, txt("f5"))
        && names_fit::<Option<u8>>(ms, txt("f6"))
        && names_fit::<u8>(ms, txt("f7"))
        && names_fit::<u8>(ms, txt("f8"))
        && names_fit::<Option<u8>>(ms, txt("f9"))
        && names_fit::<u8>(ms, txt("f10"))
        && names_fit::<u8>(ms, txt("f11"))
        && (last_named(ms, txt("f0")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f1")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f2")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f3")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f4")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f5")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f6")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f7")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f8")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f9")) is Some || <Option<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f10")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("f11")) is Some || <u8 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<Option<u8>>(Some(s.f0), ms, txt("f0"))
        && slot::<u8>(Some(s.f1), ms, txt("f1"))
        && slot::<u8>(Some(s.f2), ms, txt("f2"))
        && slot::<Option<u8>>(Some(s.f3), ms, txt("f3"))
        && slot::<u8>(Some(s.f4), ms, txt("f4"))
        && slot::<u8>(Some(s.f5), ms, txt("f5"))
        && slot::<Option<u8>>(Some(s.f6), ms, txt("f6"))
        && slot::<u8>(Some(s.f7), ms, txt("f7"))
        && slot::<u8>(Some(s.f8), ms, txt("f8"))
        && slot::<Option<u8>>(Some(s.f9), ms, txt("f9"))
        && slot::<u8>(Some(s.f10), ms, txt("f10"))
        && slot::<u8>(Some(s.f11), ms, txt("f11")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn many_s::<Deserialize for Many>::begin
//@end
//@fn many_s::<Deserialize for Many>::default | de::Deserialize::default
//@end
}
//@item many_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<Option<u8>>(js, txt("f0"))
        && names_fit::<u8>(js, txt("f1"))
        && names_fit::<u8>(js, txt("f2"))
        && names_fit::<Option<u8>>(js, txt("f3"))
        && names_fit::<u8>(js, txt("f4"))
        && names_fit::<u8>(js, txt("f5"))
        && names_fit::<Option<u8>>(js, txt("f6"))
        && names_fit::<u8>(js, txt("f7"))
        && names_fit::<u8>(js, txt("f8"))
        && names_fit::<Option<u8>>(js, txt("f9"))
        && names_fit::<u8>(js, txt("f10"))
        && names_fit::<u8>(js, txt("f11"))
        && slot::<Option<u8>>(self.f0, js, txt("f0"))
        && slot::<u8>(self.f1, js, txt("f1"))
        && slot::<u8>(self.f2, js, txt("f2"))
        && slot::<Option<u8>>(self.f3, js, txt("f3"))
        && slot::<u8>(self.f4, js, txt("f4"))
        && slot::<u8>(self.f5, js, txt("f5"))
        && slot::<Option<u8>>(self.f6, js, txt("f6"))
        && slot::<u8>(self.f7, js, txt("f7"))
        && slot::<u8>(self.f8, js, txt("f8"))
        && slot::<Option<u8>>(self.f9, js, txt("f9"))
        && slot::<u8>(self.f10, js, txt("f10"))
        && slot::<u8>(self.f11, js, txt("f11")) }
    closed spec fn may(&self, js: Members) -> bool { Many::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { Many::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { Many::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn many_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("f0");
        reveal_strlit("f1");
        reveal_strlit("f2");
        reveal_strlit("f3");
        reveal_strlit("f4");
        reveal_strlit("f5");
        reveal_strlit("f6");
        reveal_strlit("f7");
        reveal_strlit("f8");
        reveal_strlit("f9");
        reveal_strlit("f10");
        reveal_strlit("f11");
        assert("f1"@[1] != "f0"@[1]);
        assert("f2"@[1] != "f0"@[1]);
        assert("f2"@[1] != "f1"@[1]);
        assert("f3"@[1] != "f0"@[1]);
        assert("f3"@[1] != "f1"@[1]);
        assert("f3"@[1] != "f2"@[1]);
        assert("f4"@[1] != "f0"@[1]);
        assert("f4"@[1] != "f1"@[1]);
        assert("f4"@[1] != "f2"@[1]);
        assert("f4"@[1] != "f3"@[1]);
        assert("f5"@[1] != "f0"@[1]);
        assert("f5"@[1] != "f1"@[1]);
        assert("f5"@[1] != "f2"@[1]);
        assert("f5"@[1] != "f3"@[1]);
        assert("f5"@[1] != "f4"@[1]);
        assert("f6"@[1] != "f0"@[1]);
        assert("f6"@[1] != "f1"@[1]);
        assert("f6"@[1] != "f2"@[1]);
        assert("f6"@[1] != "f3"@[1]);
        assert("f6"@[1] != "f4"@[1]);
        assert("f6"@[1] != "f5"@[1]);
        assert("f7"@[1] != "f0"@[1]);
        assert("f7"@[1] != "f1"@[1]);
        assert("f7"@[1] != "f2"@[1]);
        assert("f7"@[1] != "f3"@[1]);
        assert("f7"@[1] != "f4"@[1]);
        assert("f7"@[1] != "f5"@[1]);
        assert("f7"@[1] != "f6"@[1]);
        assert("f8"@[1] != "f0"@[1]);
        assert("f8"@[1] != "f1"@[1]);
        assert("f8"@[1] != "f2"@[1]);
        assert("f8"@[1] != "f3"@[1]);
        assert("f8"@[1] != "f4"@[1]);
        assert("f8"@[1] != "f5"@[1]);
        assert("f8"@[1] != "f6"@[1]);
        assert("f8"@[1] != "f7"@[1]);
        assert("f9"@[1] != "f0"@[1]);
        assert("f9"@[1] != "f1"@[1]);
        assert("f9"@[1] != "f2"@[1]);
        assert("f9"@[1] != "f3"@[1]);
        assert("f9"@[1] != "f4"@[1]);
        assert("f9"@[1] != "f5"@[1]);
        assert("f9"@[1] != "f6"@[1]);
        assert("f9"@[1] != "f7"@[1]);
        assert("f9"@[1] != "f8"@[1]);
        assert("f10"@.len() != "f0"@.len());
        assert("f10"@.len() != "f1"@.len());
        assert("f10"@.len() != "f2"@.len());
        assert("f10"@.len() != "f3"@.len());
        assert("f10"@.len() != "f4"@.len());
        assert("f10"@.len() != "f5"@.len());
        assert("f10"@.len() != "f6"@.len());
        assert("f10"@.len() != "f7"@.len());
        assert("f10"@.len() != "f8"@.len());
        assert("f10"@.len() != "f9"@.len());
        assert("f11"@.len() != "f0"@.len());
        assert("f11"@.len() != "f1"@.len());
        assert("f11"@.len() != "f2"@.len());
        assert("f11"@.len() != "f3"@.len());
        assert("f11"@.len() != "f4"@.len());
        assert("f11"@.len() != "f5"@.len());
        assert("f11"@.len() != "f6"@.len());
        assert("f11"@.len() != "f7"@.len());
        assert("f11"@.len() != "f8"@.len());
        assert("f11"@.len() != "f9"@.len());
        assert("f11"@[2] != "f10"@[2]);
    }
//@end
//@fn many_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item many_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 12 }
//@fn many_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for Many {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("f0"), <Option<u8> as Serialize>::tree(&self.f0)), (txt("f1"), <u8 as Serialize>::tree(&self.f1)), (txt("f2"), <u8 as Serialize>::tree(&self.f2)), (txt("f3"), <Option<u8> as Serialize>::tree(&self.f3)), (txt("f4"), <u8 as Serialize>::tree(&self.f4)), (txt("f5"), <u8 as Serialize>::tree(&self.f5)), (txt("f6"), <Option<u8> as Serialize>::tree(&self.f6)), (txt("f7"), <u8 as Serialize>::tree(&self.f7)), (txt("f8"), <u8 as Serialize>::tree(&self.f8)), (txt("f9"), <Option<u8> as Serialize>::tree(&self.f9)), (txt("f10"), <u8 as Serialize>::tree(&self.f10)), (txt("f11"), <u8 as Serialize>::tree(&self.f11))]) }
//@fn many_s::<Serialize for Many>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod borrowed_s {
use super::*;
//@item borrowed_s::Borrowed | pub
//@item borrowed_s::__Map
impl<'__a, 'a: '__a, T: Serialize + '__a> SerMap for __Map<'__a, 'a, T> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn borrowed_s::<Map for __Map<'__a,'a,T>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<'a, T: Serialize> Serialize for Borrowed<'a, T> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("s"), <&'a str as Serialize>::tree(&self.s)), (txt("t"), <&'a T as Serialize>::tree(&self.t)), (txt("the slice"), <&'a [u8] as Serialize>::tree(&self.sl))]) }
//@fn borrowed_s::<Serialize for Borrowed<'a,T>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r0_s {
use super::*;
//@item r0_s::R0 | pub
//@item r0_s::__Visitor
impl<T0: Clone + Deserialize> OneField for __Visitor<T0> { type T = R0<T0>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T0: Clone + Deserialize> Visitor for __Visitor<T0> {
    closed spec fn takes(&self, j: J) -> bool { R0::<T0>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R0::<T0>::holds(self.__out, j) }
//@fn r0_s::<Visitor for __Visitor<T0>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r0_s::<Visitor for __Visitor<T0>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T0: Clone + Deserialize> Deserialize for R0<T0> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<i32>(ms, txt("r#$."))
        && names_fit::<Option<i32>>(ms, txt("self15"))
        && names_fit::<T0>(ms, txt("Name16"))
        && (last_named(ms, txt("r#$.")) is Some || <i32 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("self15")) is Some || <Option<i32> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("Name16")) is Some || <T0 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<i32>(Some(s.Option), ms, txt("r#$."))
        && slot::<Option<i32>>(Some(s.self15), ms, txt("self15"))
        && slot::<T0>(Some(s.Name16), ms, txt("Name16")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r0_s::<Deserialize for R0<T0>>::begin
//@end
//@fn r0_s::<Deserialize for R0<T0>>::default | de::Deserialize::default
//@end
}
//@item r0_s::__State
impl<'__a, T0: Clone + Deserialize + '__a> MapBuilderTrait for __State<'__a, T0> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<i32>(js, txt("r#$."))
        && names_fit::<Option<i32>>(js, txt("self15"))
        && names_fit::<T0>(js, txt("Name16"))
        && slot::<i32>(self.Option, js, txt("r#$."))
        && slot::<Option<i32>>(self.self15, js, txt("self15"))
        && slot::<T0>(self.Name16, js, txt("Name16")) }
    closed spec fn may(&self, js: Members) -> bool { R0::<T0>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R0::<T0>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R0::<T0>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r0_s::<Map for __State<'__a,T0>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("r#$.");
        reveal_strlit("self15");
        reveal_strlit("Name16");
        assert("self15"@.len() != "r#$."@.len());
        assert("Name16"@.len() != "r#$."@.len());
        assert("Name16"@[0] != "self15"@[0]);
    }
//@end
//@fn r0_s::<Map for __State<'__a,T0>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r0_s::__Map
impl<'__a, T0: Clone + Serialize + '__a> SerMap for __Map<'__a, T0> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn r0_s::<Map for __Map<'__a,T0>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T0: Clone + Serialize> Serialize for R0<T0> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("r#$."), <i32 as Serialize>::tree(&self.Option)), (txt("self15"), <Option<i32> as Serialize>::tree(&self.self15)), (txt("Name16"), <T0 as Serialize>::tree(&self.Name16))]) }
//@fn r0_s::<Serialize for R0<T0>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r1_s {
use super::*;
//@item r1_s::R1 | pub
//@item r1_s::__Visitor
impl OneField for __Visitor { type T = R1; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R1::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R1::holds(self.__out, j) }
//@fn r1_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r1_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for R1 {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<u32>(ms, txt("Name17"))
        && names_fit::<u8>(ms, txt("\nß\u{1f}$́"))
        && names_fit::<Vec<bool>>(ms, txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\."))
        && (last_named(ms, txt("Name17")) is Some || <u32 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("\nß\u{1f}$́")) is Some || <u8 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\.")) is Some || <Vec<bool> as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<u32>(Some(s.Name17), ms, txt("Name17"))
        && slot::<u8>(Some(s.str8), ms, txt("\nß\u{1f}$́"))
        && slot::<Vec<bool>>(Some(s.raw_move), ms, txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\.")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r1_s::<Deserialize for R1>::begin
//@end
//@fn r1_s::<Deserialize for R1>::default | de::Deserialize::default
//@end
}
//@item r1_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<u32>(js, txt("Name17"))
        && names_fit::<u8>(js, txt("\nß\u{1f}$́"))
        && names_fit::<Vec<bool>>(js, txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\."))
        && slot::<u32>(self.Name17, js, txt("Name17"))
        && slot::<u8>(self.str8, js, txt("\nß\u{1f}$́"))
        && slot::<Vec<bool>>(self.raw_move, js, txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\.")) }
    closed spec fn may(&self, js: Members) -> bool { R1::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R1::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R1::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r1_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("Name17");
        reveal_strlit("\nß\u{1f}$́");
        reveal_strlit("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\.");
        assert("\nß\u{1f}$́"@.len() != "Name17"@.len());
        assert("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\."@.len() != "Name17"@.len());
        assert("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\."@.len() != "\nß\u{1f}$́"@.len());
    }
//@end
//@fn r1_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r1_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 3 }
//@fn r1_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for R1 {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("Name17"), <u32 as Serialize>::tree(&self.Name17)), (txt("\nß\u{1f}$́"), <u8 as Serialize>::tree(&self.str8)), (txt("ZZ\u{1f}#}0\u{0}r#\u{0}$0r#\u{1f}-r#\\."), <Vec<bool> as Serialize>::tree(&self.raw_move))]) }
//@fn r1_s::<Serialize for R1>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r2_s {
use super::*;
//@item r2_s::R2 | pub
//@item r2_s::__Visitor
impl<T0: Copy + Deserialize, T1: Copy + Deserialize, T2: Clone + Deserialize> OneField for __Visitor<T0, T1, T2> { type T = R2<T0, T1, T2>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T0: Copy + Deserialize, T1: Copy + Deserialize, T2: Clone + Deserialize> Visitor for __Visitor<T0, T1, T2> {
    closed spec fn takes(&self, j: J) -> bool { R2::<T0, T1, T2>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R2::<T0, T1, T2>::holds(self.__out, j) }
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r2_s::<Visitor for __Visitor<T0,T1,T2>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T0: Copy + Deserialize, T1: Copy + Deserialize, T2: Clone + Deserialize> Deserialize for R2<T0, T1, T2> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<i32>(ms, txt("in"))
        && names_fit::<T0>(ms, txt("value9"))
        && names_fit::<T1>(ms, txt("if"))
        && names_fit::<T0>(ms, txt("ref"))
        && names_fit::<T2>(ms, txt("r21"))
        && (last_named(ms, txt("in")) is Some || <i32 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("value9")) is Some || <T0 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("if")) is Some || <T1 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("ref")) is Some || <T0 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("r21")) is Some || <T2 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<i32>(Some(s.raw_in), ms, txt("in"))
        && slot::<T0>(Some(s.value9), ms, txt("value9"))
        && slot::<T1>(Some(s.raw_if), ms, txt("if"))
        && slot::<T0>(Some(s.raw_ref), ms, txt("ref"))
        && slot::<T2>(Some(s.r21), ms, txt("r21")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r2_s::<Deserialize for R2<T0,T1,T2>>::begin
//@end
//@fn r2_s::<Deserialize for R2<T0,T1,T2>>::default | de::Deserialize::default
//@end
}
//@item r2_s::__State
impl<'__a, T0: Copy + Deserialize + '__a, T1: Copy + Deserialize + '__a, T2: Clone + Deserialize + '__a> MapBuilderTrait for __State<'__a, T0, T1, T2> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<i32>(js, txt("in"))
        && names_fit::<T0>(js, txt("value9"))
        && names_fit::<T1>(js, txt("if"))
        && names_fit::<T0>(js, txt("ref"))
        && names_fit::<T2>(js, txt("r21"))
        && slot::<i32>(self.raw_in, js, txt("in"))
        && slot::<T0>(self.value9, js, txt("value9"))
        && slot::<T1>(self.raw_if, js, txt("if"))
        && slot::<T0>(self.raw_ref, js, txt("ref"))
        && slot::<T2>(self.r21, js, txt("r21")) }
    closed spec fn may(&self, js: Members) -> bool { R2::<T0, T1, T2>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R2::<T0, T1, T2>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R2::<T0, T1, T2>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r2_s::<Map for __State<'__a,T0,T1,T2>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("in");
        reveal_strlit("value9");
        reveal_strlit("if");
        reveal_strlit("ref");
        reveal_strlit("r21");
        assert("value9"@.len() != "in"@.len());
        assert("if"@[1] != "in"@[1]);
        assert("if"@.len() != "value9"@.len());
        assert("ref"@.len() != "in"@.len());
        assert("ref"@.len() != "value9"@.len());
        assert("ref"@.len() != "if"@.len());
        assert("r21"@.len() != "in"@.len());
        assert("r21"@.len() != "value9"@.len());
        assert("r21"@.len() != "if"@.len());
        assert("r21"@[1] != "ref"@[1]);
    }
//@end
//@fn r2_s::<Map for __State<'__a,T0,T1,T2>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r2_s::__Map
impl<'__a, T0: Copy + Serialize + '__a, T1: Copy + Serialize + '__a, T2: Clone + Serialize + '__a> SerMap for __Map<'__a, T0, T1, T2> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn r2_s::<Map for __Map<'__a,T0,T1,T2>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T0: Copy + Serialize, T1: Copy + Serialize, T2: Clone + Serialize> Serialize for R2<T0, T1, T2> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("in"), <i32 as Serialize>::tree(&self.raw_in)), (txt("value9"), <T0 as Serialize>::tree(&self.value9)), (txt("if"), <T1 as Serialize>::tree(&self.raw_if)), (txt("ref"), <T0 as Serialize>::tree(&self.raw_ref)), (txt("r21"), <T2 as Serialize>::tree(&self.r21))]) }
//@fn r2_s::<Serialize for R2<T0,T1,T2>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r3_s {
use super::*;
//@item r3_s::R3 | pub
//@item r3_s::__Visitor
impl<T0: Copy + Deserialize, T1: Clone + Deserialize> OneField for __Visitor<T0, T1> { type T = R3<T0, T1>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T0: Copy + Deserialize, T1: Clone + Deserialize> Visitor for __Visitor<T0, T1> {
    closed spec fn takes(&self, j: J) -> bool { R3::<T0, T1>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R3::<T0, T1>::holds(self.__out, j) }
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r3_s::<Visitor for __Visitor<T0,T1>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T0: Copy + Deserialize, T1: Clone + Deserialize> Deserialize for R3<T0, T1> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<T0>(ms, txt("next2"))
        && names_fit::<Vec<u8>>(ms, txt("b-"))
        && names_fit::<T1>(ms, txt("true27"))
        && names_fit::<u32>(ms, txt("/"))
        && names_fit::<Vec<Option<u32>>>(ms, txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"))
        && (last_named(ms, txt("next2")) is Some || <T0 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("b-")) is Some || <Vec<u8> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("true27")) is Some || <T1 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("/")) is Some || <u32 as Deserialize>::absent() is Some)
        && (last_named(ms, txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}")) is Some || <Vec<Option<u32>> as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<T0>(Some(s.next2), ms, txt("next2"))
        && slot::<Vec<u8>>(Some(s.rx15), ms, txt("b-"))
        && slot::<T1>(Some(s.true27), ms, txt("true27"))
        && slot::<u32>(Some(s.raw_type), ms, txt("/"))
        && slot::<Vec<Option<u32>>>(Some(s.rx), ms, txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r3_s::<Deserialize for R3<T0,T1>>::begin
//@end
//@fn r3_s::<Deserialize for R3<T0,T1>>::default | de::Deserialize::default
//@end
}
//@item r3_s::__State
impl<'__a, T0: Copy + Deserialize + '__a, T1: Clone + Deserialize + '__a> MapBuilderTrait for __State<'__a, T0, T1> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<T0>(js, txt("next2"))
        && names_fit::<Vec<u8>>(js, txt("b-"))
        && names_fit::<T1>(js, txt("true27"))
        && names_fit::<u32>(js, txt("/"))
        && names_fit::<Vec<Option<u32>>>(js, txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"))
        && slot::<T0>(self.next2, js, txt("next2"))
        && slot::<Vec<u8>>(self.rx15, js, txt("b-"))
        && slot::<T1>(self.true27, js, txt("true27"))
        && slot::<u32>(self.raw_type, js, txt("/"))
        && slot::<Vec<Option<u32>>>(self.rx, js, txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}")) }
    closed spec fn may(&self, js: Members) -> bool { R3::<T0, T1>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R3::<T0, T1>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R3::<T0, T1>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r3_s::<Map for __State<'__a,T0,T1>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("next2");
        reveal_strlit("b-");
        reveal_strlit("true27");
        reveal_strlit("/");
        reveal_strlit("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}");
        assert("b-"@.len() != "next2"@.len());
        assert("true27"@.len() != "next2"@.len());
        assert("true27"@.len() != "b-"@.len());
        assert("/"@.len() != "next2"@.len());
        assert("/"@.len() != "b-"@.len());
        assert("/"@.len() != "true27"@.len());
        assert("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"@.len() != "next2"@.len());
        assert("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"@.len() != "b-"@.len());
        assert("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"@.len() != "true27"@.len());
        assert("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"@.len() != "/"@.len());
    }
//@end
//@fn r3_s::<Map for __State<'__a,T0,T1>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r3_s::__Map
impl<'__a, T0: Copy + Serialize + '__a, T1: Clone + Serialize + '__a> SerMap for __Map<'__a, T0, T1> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 5 }
//@fn r3_s::<Map for __Map<'__a,T0,T1>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T0: Copy + Serialize, T1: Clone + Serialize> Serialize for R3<T0, T1> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("next2"), <T0 as Serialize>::tree(&self.next2)), (txt("b-"), <Vec<u8> as Serialize>::tree(&self.rx15)), (txt("true27"), <T1 as Serialize>::tree(&self.true27)), (txt("/"), <u32 as Serialize>::tree(&self.raw_type)), (txt("\\ß.b﻿ar#'😀0-\tZ\nZ \u{0}"), <Vec<Option<u32>> as Serialize>::tree(&self.rx))]) }
//@fn r3_s::<Serialize for R3<T0,T1>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r4_s {
use super::*;
//@item r4_s::R4 | pub
//@item r4_s::__Visitor
impl<T0: Clone + Deserialize> OneField for __Visitor<T0> { type T = R4<T0>; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl<T0: Clone + Deserialize> Visitor for __Visitor<T0> {
    closed spec fn takes(&self, j: J) -> bool { R4::<T0>::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R4::<T0>::holds(self.__out, j) }
//@fn r4_s::<Visitor for __Visitor<T0>>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r4_s::<Visitor for __Visitor<T0>>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl<T0: Clone + Deserialize> Deserialize for R4<T0> {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<Box<T0>>(ms, txt("loop"))
        && names_fit::<i32>(ms, txt("match"))
        && (last_named(ms, txt("loop")) is Some || <Box<T0> as Deserialize>::absent() is Some)
        && (last_named(ms, txt("match")) is Some || <i32 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<Box<T0>>(Some(s.raw_loop), ms, txt("loop"))
        && slot::<i32>(Some(s.raw_match), ms, txt("match")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r4_s::<Deserialize for R4<T0>>::begin
//@end
//@fn r4_s::<Deserialize for R4<T0>>::default | de::Deserialize::default
//@end
}
//@item r4_s::__State
impl<'__a, T0: Clone + Deserialize + '__a> MapBuilderTrait for __State<'__a, T0> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<Box<T0>>(js, txt("loop"))
        && names_fit::<i32>(js, txt("match"))
        && slot::<Box<T0>>(self.raw_loop, js, txt("loop"))
        && slot::<i32>(self.raw_match, js, txt("match")) }
    closed spec fn may(&self, js: Members) -> bool { R4::<T0>::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R4::<T0>::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R4::<T0>::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r4_s::<Map for __State<'__a,T0>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("loop");
        reveal_strlit("match");
        assert("match"@.len() != "loop"@.len());
    }
//@end
//@fn r4_s::<Map for __State<'__a,T0>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r4_s::__Map
impl<'__a, T0: Clone + Serialize + '__a> SerMap for __Map<'__a, T0> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 2 }
//@fn r4_s::<Map for __Map<'__a,T0>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl<T0: Clone + Serialize> Serialize for R4<T0> {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("loop"), <Box<T0> as Serialize>::tree(&self.raw_loop)), (txt("match"), <i32 as Serialize>::tree(&self.raw_match))]) }
//@fn r4_s::<Serialize for R4<T0>>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
pub mod r5_s {
use super::*;
//@item r5_s::R5 | pub
//@item r5_s::__Visitor
impl OneField for __Visitor { type T = R5; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R5::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R5::holds(self.__out, j) }
//@fn r5_s::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r5_s::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@pre
    broadcast use lem_no_members;
//@end
}
impl Deserialize for R5 {
    closed spec fn fits(j: J) -> bool { j matches J::Obj(ms) 
        && names_fit::<i32>(ms, txt("b"))
        && (last_named(ms, txt("b")) is Some || <i32 as Deserialize>::absent() is Some) }
    closed spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Obj(ms) && o matches Some(s) 
        && slot::<i32>(Some(s.b), ms, txt("b")) }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r5_s::<Deserialize for R5>::begin
//@end
//@fn r5_s::<Deserialize for R5>::default | de::Deserialize::default
//@end
}
//@item r5_s::__State
impl<'__a> MapBuilderTrait for __State<'__a> {
    #[verifier::prophetic] closed spec fn rep(&self, js: Members) -> bool { true 
        && names_fit::<i32>(js, txt("b"))
        && slot::<i32>(self.b, js, txt("b")) }
    closed spec fn may(&self, js: Members) -> bool { R5::fits(J::Obj(js)) }
    closed spec fn wrote(&self, js: Members) -> bool { R5::holds(*self.__out, J::Obj(js)) }
    #[verifier::prophetic] closed spec fn gone(&self) -> bool { has_resolved(*self) }
    #[verifier::prophetic] closed spec fn promise(&self, js: Members) -> bool { R5::holds(*final(self.__out), J::Obj(js)) }
    proof fn resolves(tracked &self, js: Members) { }
//@fn r5_s::<Map for __State<'__a>>::key
//@params k
//@pre
    broadcast use {lem_named_push, lem_fits_push, lem_same_text};
    proof {
        reveal_strlit("b");
    }
//@end
//@fn r5_s::<Map for __State<'__a>>::finish
//@pre
    broadcast use {lem_slot_some};
//@end
}
//@item r5_s::__Map
impl<'__a> SerMap for __Map<'__a> {
    closed spec fn rest(&self) -> Seq<(Seq<u8>, Tree)> { self.data.tree()->Map_0.skip(self.state as int) }
    closed spec fn live(&self) -> bool { self.state <= 1 }
//@fn r5_s::<Map for __Map<'__a>>::next
//@flags ser
//@pre
    broadcast use lem_skip_first;
//@end
}
impl Serialize for R5 {
    closed spec fn tree(&self) -> Tree { Tree::Map(seq![(txt("b"), <i32 as Serialize>::tree(&self.b))]) }
//@fn r5_s::<Serialize for R5>::begin
//@flags ser
//@pre
    broadcast use lem_skip_none;
//@end
}
}
}
fn main() {}

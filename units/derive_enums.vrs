// written by tools/gen_derive.py
//@include derive_model.vrs
//@props C16 C12
pub mod deco_e {
use super::*;
//@item deco_e::Deco | pub
//@item deco_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Deco) -> Seq<u8> {
    match __v { Deco::V0 => txt("n \"0\\"), Deco::V1 => txt("V1"), Deco::V2 => txt("n \"2\\"), Deco::V3 => txt("V3"), Deco::V4 => txt("n \"4\\"), Deco::V5 => txt("V5"), Deco::V6 => txt("n \"6\\"), Deco::V7 => txt("V7"), Deco::V8 => txt("n \"8\\"), Deco::V9 => txt("V9"), Deco::V10 => txt("n \"10\\"), Deco::V11 => txt("V11"), Deco::V12 => txt("n \"12\\"), Deco::V13 => txt("V13") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Deco, __b: Deco)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("n \"0\\");
        reveal_strlit("V1");
        reveal_strlit("n \"2\\");
        reveal_strlit("V3");
        reveal_strlit("n \"4\\");
        reveal_strlit("V5");
        reveal_strlit("n \"6\\");
        reveal_strlit("V7");
        reveal_strlit("n \"8\\");
        reveal_strlit("V9");
        reveal_strlit("n \"10\\");
        reveal_strlit("V11");
        reveal_strlit("n \"12\\");
        reveal_strlit("V13");
        assert("V1"@.len() != "n \"0\\"@.len());
        assert("n \"2\\"@[3] != "n \"0\\"@[3]);
        assert("n \"2\\"@.len() != "V1"@.len());
        assert("V3"@.len() != "n \"0\\"@.len());
        assert("V3"@[1] != "V1"@[1]);
        assert("V3"@.len() != "n \"2\\"@.len());
        assert("n \"4\\"@[3] != "n \"0\\"@[3]);
        assert("n \"4\\"@.len() != "V1"@.len());
        assert("n \"4\\"@[3] != "n \"2\\"@[3]);
        assert("n \"4\\"@.len() != "V3"@.len());
        assert("V5"@.len() != "n \"0\\"@.len());
        assert("V5"@[1] != "V1"@[1]);
        assert("V5"@.len() != "n \"2\\"@.len());
        assert("V5"@[1] != "V3"@[1]);
        assert("V5"@.len() != "n \"4\\"@.len());
        assert("n \"6\\"@[3] != "n \"0\\"@[3]);
        assert("n \"6\\"@.len() != "V1"@.len());
        assert("n \"6\\"@[3] != "n \"2\\"@[3]);
        assert("n \"6\\"@.len() != "V3"@.len());
        assert("n \"6\\"@[3] != "n \"4\\"@[3]);
        assert("n \"6\\"@.len() != "V5"@.len());
        assert("V7"@.len() != "n \"0\\"@.len());
        assert("V7"@[1] != "V1"@[1]);
        assert("V7"@.len() != "n \"2\\"@.len());
        assert("V7"@[1] != "V3"@[1]);
        assert("V7"@.len() != "n \"4\\"@.len());
        assert("V7"@[1] != "V5"@[1]);
        assert("V7"@.len() != "n \"6\\"@.len());
        assert("n \"8\\"@[3] != "n \"0\\"@[3]);
        assert("n \"8\\"@.len() != "V1"@.len());
        assert("n \"8\\"@[3] != "n \"2\\"@[3]);
        assert("n \"8\\"@.len() != "V3"@.len());
        assert("n \"8\\"@[3] != "n \"4\\"@[3]);
        assert("n \"8\\"@.len() != "V5"@.len());
        assert("n \"8\\"@[3] != "n \"6\\"@[3]);
        assert("n \"8\\"@.len() != "V7"@.len());
        assert("V9"@.len() != "n \"0\\"@.len());
        assert("V9"@[1] != "V1"@[1]);
        assert("V9"@.len() != "n \"2\\"@.len());
        assert("V9"@[1] != "V3"@[1]);
        assert("V9"@.len() != "n \"4\\"@.len());
        assert("V9"@[1] != "V5"@[1]);
        assert("V9"@.len() != "n \"6\\"@.len());
        assert("V9"@[1] != "V7"@[1]);
        assert("V9"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "n \"0\\"@.len());
        assert("n \"10\\"@.len() != "V1"@.len());
        assert("n \"10\\"@.len() != "n \"2\\"@.len());
        assert("n \"10\\"@.len() != "V3"@.len());
        assert("n \"10\\"@.len() != "n \"4\\"@.len());
        assert("n \"10\\"@.len() != "V5"@.len());
        assert("n \"10\\"@.len() != "n \"6\\"@.len());
        assert("n \"10\\"@.len() != "V7"@.len());
        assert("n \"10\\"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "V9"@.len());
        assert("V11"@.len() != "n \"0\\"@.len());
        assert("V11"@.len() != "V1"@.len());
        assert("V11"@.len() != "n \"2\\"@.len());
        assert("V11"@.len() != "V3"@.len());
        assert("V11"@.len() != "n \"4\\"@.len());
        assert("V11"@.len() != "V5"@.len());
        assert("V11"@.len() != "n \"6\\"@.len());
        assert("V11"@.len() != "V7"@.len());
        assert("V11"@.len() != "n \"8\\"@.len());
        assert("V11"@.len() != "V9"@.len());
        assert("V11"@.len() != "n \"10\\"@.len());
        assert("n \"12\\"@.len() != "n \"0\\"@.len());
        assert("n \"12\\"@.len() != "V1"@.len());
        assert("n \"12\\"@.len() != "n \"2\\"@.len());
        assert("n \"12\\"@.len() != "V3"@.len());
        assert("n \"12\\"@.len() != "n \"4\\"@.len());
        assert("n \"12\\"@.len() != "V5"@.len());
        assert("n \"12\\"@.len() != "n \"6\\"@.len());
        assert("n \"12\\"@.len() != "V7"@.len());
        assert("n \"12\\"@.len() != "n \"8\\"@.len());
        assert("n \"12\\"@.len() != "V9"@.len());
        assert("n \"12\\"@[4] != "n \"10\\"@[4]);
        assert("n \"12\\"@.len() != "V11"@.len());
        assert("V13"@.len() != "n \"0\\"@.len());
        assert("V13"@.len() != "V1"@.len());
        assert("V13"@.len() != "n \"2\\"@.len());
        assert("V13"@.len() != "V3"@.len());
        assert("V13"@.len() != "n \"4\\"@.len());
        assert("V13"@.len() != "V5"@.len());
        assert("V13"@.len() != "n \"6\\"@.len());
        assert("V13"@.len() != "V7"@.len());
        assert("V13"@.len() != "n \"8\\"@.len());
        assert("V13"@.len() != "V9"@.len());
        assert("V13"@.len() != "n \"10\\"@.len());
        assert("V13"@[2] != "V11"@[2]);
        assert("V13"@.len() != "n \"12\\"@.len());
}
impl OneField for __Visitor { type T = Deco; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Deco::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Deco::holds(self.__out, j) }
//@fn deco_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("n \"0\\");
        reveal_strlit("V1");
        reveal_strlit("n \"2\\");
        reveal_strlit("V3");
        reveal_strlit("n \"4\\");
        reveal_strlit("V5");
        reveal_strlit("n \"6\\");
        reveal_strlit("V7");
        reveal_strlit("n \"8\\");
        reveal_strlit("V9");
        reveal_strlit("n \"10\\");
        reveal_strlit("V11");
        reveal_strlit("n \"12\\");
        reveal_strlit("V13");
        assert("V1"@.len() != "n \"0\\"@.len());
        assert("n \"2\\"@[3] != "n \"0\\"@[3]);
        assert("n \"2\\"@.len() != "V1"@.len());
        assert("V3"@.len() != "n \"0\\"@.len());
        assert("V3"@[1] != "V1"@[1]);
        assert("V3"@.len() != "n \"2\\"@.len());
        assert("n \"4\\"@[3] != "n \"0\\"@[3]);
        assert("n \"4\\"@.len() != "V1"@.len());
        assert("n \"4\\"@[3] != "n \"2\\"@[3]);
        assert("n \"4\\"@.len() != "V3"@.len());
        assert("V5"@.len() != "n \"0\\"@.len());
        assert("V5"@[1] != "V1"@[1]);
        assert("V5"@.len() != "n \"2\\"@.len());
        assert("V5"@[1] != "V3"@[1]);
        assert("V5"@.len() != "n \"4\\"@.len());
        assert("n \"6\\"@[3] != "n \"0\\"@[3]);
        assert("n \"6\\"@.len() != "V1"@.len());
        assert("n \"6\\"@[3] != "n \"2\\"@[3]);
        assert("n \"6\\"@.len() != "V3"@.len());
        assert("n \"6\\"@[3] != "n \"4\\"@[3]);
        assert("n \"6\\"@.len() != "V5"@.len());
        assert("V7"@.len() != "n \"0\\"@.len());
        assert("V7"@[1] != "V1"@[1]);
        assert("V7"@.len() != "n \"2\\"@.len());
        assert("V7"@[1] != "V3"@[1]);
        assert("V7"@.len() != "n \"4\\"@.len());
        assert("V7"@[1] != "V5"@[1]);
        assert("V7"@.len() != "n \"6\\"@.len());
        assert("n \"8\\"@[3] != "n \"0\\"@[3]);
        assert("n \"8\\"@.len() != "V1"@.len());
        assert("n \"8\\"@[3] != "n \"2\\"@[3]);
        assert("n \"8\\"@.len() != "V3"@.len());
        assert("n \"8\\"@[3] != "n \"4\\"@[3]);
        assert("n \"8\\"@.len() != "V5"@.len());
        assert("n \"8\\"@[3] != "n \"6\\"@[3]);
        assert("n \"8\\"@.len() != "V7"@.len());
        assert("V9"@.len() != "n \"0\\"@.len());
        assert("V9"@[1] != "V1"@[1]);
        assert("V9"@.len() != "n \"2\\"@.len());
        assert("V9"@[1] != "V3"@[1]);
        assert("V9"@.len() != "n \"4\\"@.len());
        assert("V9"@[1] != "V5"@[1]);
        assert("V9"@.len() != "n \"6\\"@.len());
        assert("V9"@[1] != "V7"@[1]);
        assert("V9"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "n \"0\\"@.len());
        assert("n \"10\\"@.len() != "V1"@.len());
        assert("n \"10\\"@.len() != "n \"2\\"@.len());
        assert("n \"10\\"@.len() != "V3"@.len());
        assert("n \"10\\"@.len() != "n \"4\\"@.len());
        assert("n \"10\\"@.len() != "V5"@.len());
        assert("n \"10\\"@.len() != "n \"6\\"@.len());
        assert("n \"10\\"@.len() != "V7"@.len());
        assert("n \"10\\"@.len() != "n \"8\\"@.len());
        assert("n \"10\\"@.len() != "V9"@.len());
        assert("V11"@.len() != "n \"0\\"@.len());
        assert("V11"@.len() != "V1"@.len());
        assert("V11"@.len() != "n \"2\\"@.len());
        assert("V11"@.len() != "V3"@.len());
        assert("V11"@.len() != "n \"4\\"@.len());
        assert("V11"@.len() != "V5"@.len());
        assert("V11"@.len() != "n \"6\\"@.len());
        assert("V11"@.len() != "V7"@.len());
        assert("V11"@.len() != "n \"8\\"@.len());
        assert("V11"@.len() != "V9"@.len());
        assert("V11"@.len() != "n \"10\\"@.len());
        assert("n \"12\\"@.len() != "n \"0\\"@.len());
        assert("n \"12\\"@.len() != "V1"@.len());
        assert("n \"12\\"@.len() != "n \"2\\"@.len());
        assert("n \"12\\"@.len() != "V3"@.len());
        assert("n \"12\\"@.len() != "n \"4\\"@.len());
        assert("n \"12\\"@.len() != "V5"@.len());
        assert("n \"12\\"@.len() != "n \"6\\"@.len());
        assert("n \"12\\"@.len() != "V7"@.len());
        assert("n \"12\\"@.len() != "n \"8\\"@.len());
        assert("n \"12\\"@.len() != "V9"@.len());
        assert("n \"12\\"@[4] != "n \"10\\"@[4]);
        assert("n \"12\\"@.len() != "V11"@.len());
        assert("V13"@.len() != "n \"0\\"@.len());
        assert("V13"@.len() != "V1"@.len());
        assert("V13"@.len() != "n \"2\\"@.len());
        assert("V13"@.len() != "V3"@.len());
        assert("V13"@.len() != "n \"4\\"@.len());
        assert("V13"@.len() != "V5"@.len());
        assert("V13"@.len() != "n \"6\\"@.len());
        assert("V13"@.len() != "V7"@.len());
        assert("V13"@.len() != "n \"8\\"@.len());
        assert("V13"@.len() != "V9"@.len());
        assert("V13"@.len() != "n \"10\\"@.len());
        assert("V13"@[2] != "V11"@[2]);
        assert("V13"@.len() != "n \"12\\"@.len());
        assert(name_of(Deco::V0) == txt("n \"0\\"));
        assert(name_of(Deco::V1) == txt("V1"));
        assert(name_of(Deco::V2) == txt("n \"2\\"));
        assert(name_of(Deco::V3) == txt("V3"));
        assert(name_of(Deco::V4) == txt("n \"4\\"));
        assert(name_of(Deco::V5) == txt("V5"));
        assert(name_of(Deco::V6) == txt("n \"6\\"));
        assert(name_of(Deco::V7) == txt("V7"));
        assert(name_of(Deco::V8) == txt("n \"8\\"));
        assert(name_of(Deco::V9) == txt("V9"));
        assert(name_of(Deco::V10) == txt("n \"10\\"));
        assert(name_of(Deco::V11) == txt("V11"));
        assert(name_of(Deco::V12) == txt("n \"12\\"));
        assert(name_of(Deco::V13) == txt("V13"));
    }
//@end
//@fn deco_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn deco_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Deco {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Deco| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn deco_e::<Deserialize for Deco>::begin
//@end
//@fn deco_e::<Deserialize for Deco>::default | de::Deserialize::default
//@end
}
impl Serialize for Deco {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn deco_e::<Serialize for Deco>::begin
//@end
}
}
pub mod color_e {
use super::*;
//@item color_e::Color | pub
//@item color_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Color) -> Seq<u8> {
    match __v { Color::Red => txt("Red"), Color::Green => txt("green"), Color::Blue => txt("Blue") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Color, __b: Color)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("Red");
        reveal_strlit("green");
        reveal_strlit("Blue");
        assert("green"@.len() != "Red"@.len());
        assert("Blue"@.len() != "Red"@.len());
        assert("Blue"@.len() != "green"@.len());
}
impl OneField for __Visitor { type T = Color; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Color::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Color::holds(self.__out, j) }
//@fn color_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("Red");
        reveal_strlit("green");
        reveal_strlit("Blue");
        assert("green"@.len() != "Red"@.len());
        assert("Blue"@.len() != "Red"@.len());
        assert("Blue"@.len() != "green"@.len());
        assert(name_of(Color::Red) == txt("Red"));
        assert(name_of(Color::Green) == txt("green"));
        assert(name_of(Color::Blue) == txt("Blue"));
    }
//@end
//@fn color_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn color_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Color {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Color| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn color_e::<Deserialize for Color>::begin
//@end
//@fn color_e::<Deserialize for Color>::default | de::Deserialize::default
//@end
}
impl Serialize for Color {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn color_e::<Serialize for Color>::begin
//@end
}
}
pub mod single_e {
use super::*;
//@item single_e::Single | pub
//@item single_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Single) -> Seq<u8> {
    match __v { Single::Only => txt("Only") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Single, __b: Single)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("Only");
}
impl OneField for __Visitor { type T = Single; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Single::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Single::holds(self.__out, j) }
//@fn single_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("Only");
        assert(name_of(Single::Only) == txt("Only"));
    }
//@end
//@fn single_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn single_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Single {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Single| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn single_e::<Deserialize for Single>::begin
//@end
//@fn single_e::<Deserialize for Single>::default | de::Deserialize::default
//@end
}
impl Serialize for Single {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn single_e::<Serialize for Single>::begin
//@end
}
}
pub mod odd_e {
use super::*;
//@item odd_e::Odd | pub
//@item odd_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Odd) -> Seq<u8> {
    match __v { Odd::raw_type => txt("type"), Odd::Empty => txt(""), Odd::Esc => txt("a\"\\\u{1}é😀"), Odd::First => txt("Second"), Odd::Second => txt("First"), Odd::None => txt("None"), Odd::Some => txt("Some") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Odd, __b: Odd)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("type");
        reveal_strlit("");
        reveal_strlit("a\"\\\u{1}é😀");
        reveal_strlit("Second");
        reveal_strlit("First");
        reveal_strlit("None");
        reveal_strlit("Some");
        assert(""@.len() != "type"@.len());
        assert("a\"\\\u{1}é😀"@.len() != "type"@.len());
        assert("a\"\\\u{1}é😀"@.len() != ""@.len());
        assert("Second"@.len() != "type"@.len());
        assert("Second"@.len() != ""@.len());
        assert("Second"@[0] != "a\"\\\u{1}é😀"@[0]);
        assert("First"@.len() != "type"@.len());
        assert("First"@.len() != ""@.len());
        assert("First"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("First"@.len() != "Second"@.len());
        assert("None"@[0] != "type"@[0]);
        assert("None"@.len() != ""@.len());
        assert("None"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("None"@.len() != "Second"@.len());
        assert("None"@.len() != "First"@.len());
        assert("Some"@[0] != "type"@[0]);
        assert("Some"@.len() != ""@.len());
        assert("Some"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("Some"@.len() != "Second"@.len());
        assert("Some"@.len() != "First"@.len());
        assert("Some"@[0] != "None"@[0]);
}
impl OneField for __Visitor { type T = Odd; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Odd::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Odd::holds(self.__out, j) }
//@fn odd_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("type");
        reveal_strlit("");
        reveal_strlit("a\"\\\u{1}é😀");
        reveal_strlit("Second");
        reveal_strlit("First");
        reveal_strlit("None");
        reveal_strlit("Some");
        assert(""@.len() != "type"@.len());
        assert("a\"\\\u{1}é😀"@.len() != "type"@.len());
        assert("a\"\\\u{1}é😀"@.len() != ""@.len());
        assert("Second"@.len() != "type"@.len());
        assert("Second"@.len() != ""@.len());
        assert("Second"@[0] != "a\"\\\u{1}é😀"@[0]);
        assert("First"@.len() != "type"@.len());
        assert("First"@.len() != ""@.len());
        assert("First"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("First"@.len() != "Second"@.len());
        assert("None"@[0] != "type"@[0]);
        assert("None"@.len() != ""@.len());
        assert("None"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("None"@.len() != "Second"@.len());
        assert("None"@.len() != "First"@.len());
        assert("Some"@[0] != "type"@[0]);
        assert("Some"@.len() != ""@.len());
        assert("Some"@.len() != "a\"\\\u{1}é😀"@.len());
        assert("Some"@.len() != "Second"@.len());
        assert("Some"@.len() != "First"@.len());
        assert("Some"@[0] != "None"@[0]);
        assert(name_of(Odd::raw_type) == txt("type"));
        assert(name_of(Odd::Empty) == txt(""));
        assert(name_of(Odd::Esc) == txt("a\"\\\u{1}é😀"));
        assert(name_of(Odd::First) == txt("Second"));
        assert(name_of(Odd::Second) == txt("First"));
        assert(name_of(Odd::None) == txt("None"));
        assert(name_of(Odd::Some) == txt("Some"));
    }
//@end
//@fn odd_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn odd_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Odd {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Odd| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn odd_e::<Deserialize for Odd>::begin
//@end
//@fn odd_e::<Deserialize for Odd>::default | de::Deserialize::default
//@end
}
impl Serialize for Odd {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn odd_e::<Serialize for Odd>::begin
//@end
}
}
pub mod disc_e {
use super::*;
//@item disc_e::Disc | pub
//@item disc_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Disc) -> Seq<u8> {
    match __v { Disc::A => txt("A"), Disc::B => txt("B"), Disc::C => txt("C") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Disc, __b: Disc)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("A");
        reveal_strlit("B");
        reveal_strlit("C");
        assert("B"@[0] != "A"@[0]);
        assert("C"@[0] != "A"@[0]);
        assert("C"@[0] != "B"@[0]);
}
impl OneField for __Visitor { type T = Disc; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Disc::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Disc::holds(self.__out, j) }
//@fn disc_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("A");
        reveal_strlit("B");
        reveal_strlit("C");
        assert("B"@[0] != "A"@[0]);
        assert("C"@[0] != "A"@[0]);
        assert("C"@[0] != "B"@[0]);
        assert(name_of(Disc::A) == txt("A"));
        assert(name_of(Disc::B) == txt("B"));
        assert(name_of(Disc::C) == txt("C"));
    }
//@end
//@fn disc_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn disc_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Disc {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Disc| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn disc_e::<Deserialize for Disc>::begin
//@end
//@fn disc_e::<Deserialize for Disc>::default | de::Deserialize::default
//@end
}
impl Serialize for Disc {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn disc_e::<Serialize for Disc>::begin
//@end
}
}
pub mod near_e {
use super::*;
//@item near_e::Near | pub
//@item near_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Near) -> Seq<u8> {
    match __v { Near::Ab => txt("Ab"), Near::AB => txt("AB"), Near::Abc => txt("Abc"), Near::Lower => txt("ab"), Near::Space => txt("Ab "), Near::Raw => txt("r#Ab") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Near, __b: Near)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("Ab");
        reveal_strlit("AB");
        reveal_strlit("Abc");
        reveal_strlit("ab");
        reveal_strlit("Ab ");
        reveal_strlit("r#Ab");
        assert("AB"@[1] != "Ab"@[1]);
        assert("Abc"@.len() != "Ab"@.len());
        assert("Abc"@.len() != "AB"@.len());
        assert("ab"@[0] != "Ab"@[0]);
        assert("ab"@[0] != "AB"@[0]);
        assert("ab"@.len() != "Abc"@.len());
        assert("Ab "@.len() != "Ab"@.len());
        assert("Ab "@.len() != "AB"@.len());
        assert("Ab "@[2] != "Abc"@[2]);
        assert("Ab "@.len() != "ab"@.len());
        assert("r#Ab"@.len() != "Ab"@.len());
        assert("r#Ab"@.len() != "AB"@.len());
        assert("r#Ab"@.len() != "Abc"@.len());
        assert("r#Ab"@.len() != "ab"@.len());
        assert("r#Ab"@.len() != "Ab "@.len());
}
impl OneField for __Visitor { type T = Near; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Near::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Near::holds(self.__out, j) }
//@fn near_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("Ab");
        reveal_strlit("AB");
        reveal_strlit("Abc");
        reveal_strlit("ab");
        reveal_strlit("Ab ");
        reveal_strlit("r#Ab");
        assert("AB"@[1] != "Ab"@[1]);
        assert("Abc"@.len() != "Ab"@.len());
        assert("Abc"@.len() != "AB"@.len());
        assert("ab"@[0] != "Ab"@[0]);
        assert("ab"@[0] != "AB"@[0]);
        assert("ab"@.len() != "Abc"@.len());
        assert("Ab "@.len() != "Ab"@.len());
        assert("Ab "@.len() != "AB"@.len());
        assert("Ab "@[2] != "Abc"@[2]);
        assert("Ab "@.len() != "ab"@.len());
        assert("r#Ab"@.len() != "Ab"@.len());
        assert("r#Ab"@.len() != "AB"@.len());
        assert("r#Ab"@.len() != "Abc"@.len());
        assert("r#Ab"@.len() != "ab"@.len());
        assert("r#Ab"@.len() != "Ab "@.len());
        assert(name_of(Near::Ab) == txt("Ab"));
        assert(name_of(Near::AB) == txt("AB"));
        assert(name_of(Near::Abc) == txt("Abc"));
        assert(name_of(Near::Lower) == txt("ab"));
        assert(name_of(Near::Space) == txt("Ab "));
        assert(name_of(Near::Raw) == txt("r#Ab"));
    }
//@end
//@fn near_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn near_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Near {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Near| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn near_e::<Deserialize for Near>::begin
//@end
//@fn near_e::<Deserialize for Near>::default | de::Deserialize::default
//@end
}
impl Serialize for Near {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn near_e::<Serialize for Near>::begin
//@end
}
}
pub mod big_e {
use super::*;
//@item big_e::Big | pub
//@item big_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: Big) -> Seq<u8> {
    match __v { Big::V0 => txt("V0"), Big::V1 => txt("V1"), Big::V2 => txt("V2"), Big::V3 => txt("V3"), Big::V4 => txt("V4"), Big::V5 => txt("V5"), Big::V6 => txt("V6"), Big::V7 => txt("V7"), Big::V8 => txt("V8"), Big::V9 => txt("V9") }
}
/// no two variants share a name
pub proof fn names_differ(__a: Big, __b: Big)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("V0");
        reveal_strlit("V1");
        reveal_strlit("V2");
        reveal_strlit("V3");
        reveal_strlit("V4");
        reveal_strlit("V5");
        reveal_strlit("V6");
        reveal_strlit("V7");
        reveal_strlit("V8");
        reveal_strlit("V9");
        assert("V1"@[1] != "V0"@[1]);
        assert("V2"@[1] != "V0"@[1]);
        assert("V2"@[1] != "V1"@[1]);
        assert("V3"@[1] != "V0"@[1]);
        assert("V3"@[1] != "V1"@[1]);
        assert("V3"@[1] != "V2"@[1]);
        assert("V4"@[1] != "V0"@[1]);
        assert("V4"@[1] != "V1"@[1]);
        assert("V4"@[1] != "V2"@[1]);
        assert("V4"@[1] != "V3"@[1]);
        assert("V5"@[1] != "V0"@[1]);
        assert("V5"@[1] != "V1"@[1]);
        assert("V5"@[1] != "V2"@[1]);
        assert("V5"@[1] != "V3"@[1]);
        assert("V5"@[1] != "V4"@[1]);
        assert("V6"@[1] != "V0"@[1]);
        assert("V6"@[1] != "V1"@[1]);
        assert("V6"@[1] != "V2"@[1]);
        assert("V6"@[1] != "V3"@[1]);
        assert("V6"@[1] != "V4"@[1]);
        assert("V6"@[1] != "V5"@[1]);
        assert("V7"@[1] != "V0"@[1]);
        assert("V7"@[1] != "V1"@[1]);
        assert("V7"@[1] != "V2"@[1]);
        assert("V7"@[1] != "V3"@[1]);
        assert("V7"@[1] != "V4"@[1]);
        assert("V7"@[1] != "V5"@[1]);
        assert("V7"@[1] != "V6"@[1]);
        assert("V8"@[1] != "V0"@[1]);
        assert("V8"@[1] != "V1"@[1]);
        assert("V8"@[1] != "V2"@[1]);
        assert("V8"@[1] != "V3"@[1]);
        assert("V8"@[1] != "V4"@[1]);
        assert("V8"@[1] != "V5"@[1]);
        assert("V8"@[1] != "V6"@[1]);
        assert("V8"@[1] != "V7"@[1]);
        assert("V9"@[1] != "V0"@[1]);
        assert("V9"@[1] != "V1"@[1]);
        assert("V9"@[1] != "V2"@[1]);
        assert("V9"@[1] != "V3"@[1]);
        assert("V9"@[1] != "V4"@[1]);
        assert("V9"@[1] != "V5"@[1]);
        assert("V9"@[1] != "V6"@[1]);
        assert("V9"@[1] != "V7"@[1]);
        assert("V9"@[1] != "V8"@[1]);
}
impl OneField for __Visitor { type T = Big; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { Big::fits(j) }
    closed spec fn done(&self, j: J) -> bool { Big::holds(self.__out, j) }
//@fn big_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("V0");
        reveal_strlit("V1");
        reveal_strlit("V2");
        reveal_strlit("V3");
        reveal_strlit("V4");
        reveal_strlit("V5");
        reveal_strlit("V6");
        reveal_strlit("V7");
        reveal_strlit("V8");
        reveal_strlit("V9");
        assert("V1"@[1] != "V0"@[1]);
        assert("V2"@[1] != "V0"@[1]);
        assert("V2"@[1] != "V1"@[1]);
        assert("V3"@[1] != "V0"@[1]);
        assert("V3"@[1] != "V1"@[1]);
        assert("V3"@[1] != "V2"@[1]);
        assert("V4"@[1] != "V0"@[1]);
        assert("V4"@[1] != "V1"@[1]);
        assert("V4"@[1] != "V2"@[1]);
        assert("V4"@[1] != "V3"@[1]);
        assert("V5"@[1] != "V0"@[1]);
        assert("V5"@[1] != "V1"@[1]);
        assert("V5"@[1] != "V2"@[1]);
        assert("V5"@[1] != "V3"@[1]);
        assert("V5"@[1] != "V4"@[1]);
        assert("V6"@[1] != "V0"@[1]);
        assert("V6"@[1] != "V1"@[1]);
        assert("V6"@[1] != "V2"@[1]);
        assert("V6"@[1] != "V3"@[1]);
        assert("V6"@[1] != "V4"@[1]);
        assert("V6"@[1] != "V5"@[1]);
        assert("V7"@[1] != "V0"@[1]);
        assert("V7"@[1] != "V1"@[1]);
        assert("V7"@[1] != "V2"@[1]);
        assert("V7"@[1] != "V3"@[1]);
        assert("V7"@[1] != "V4"@[1]);
        assert("V7"@[1] != "V5"@[1]);
        assert("V7"@[1] != "V6"@[1]);
        assert("V8"@[1] != "V0"@[1]);
        assert("V8"@[1] != "V1"@[1]);
        assert("V8"@[1] != "V2"@[1]);
        assert("V8"@[1] != "V3"@[1]);
        assert("V8"@[1] != "V4"@[1]);
        assert("V8"@[1] != "V5"@[1]);
        assert("V8"@[1] != "V6"@[1]);
        assert("V8"@[1] != "V7"@[1]);
        assert("V9"@[1] != "V0"@[1]);
        assert("V9"@[1] != "V1"@[1]);
        assert("V9"@[1] != "V2"@[1]);
        assert("V9"@[1] != "V3"@[1]);
        assert("V9"@[1] != "V4"@[1]);
        assert("V9"@[1] != "V5"@[1]);
        assert("V9"@[1] != "V6"@[1]);
        assert("V9"@[1] != "V7"@[1]);
        assert("V9"@[1] != "V8"@[1]);
        assert(name_of(Big::V0) == txt("V0"));
        assert(name_of(Big::V1) == txt("V1"));
        assert(name_of(Big::V2) == txt("V2"));
        assert(name_of(Big::V3) == txt("V3"));
        assert(name_of(Big::V4) == txt("V4"));
        assert(name_of(Big::V5) == txt("V5"));
        assert(name_of(Big::V6) == txt("V6"));
        assert(name_of(Big::V7) == txt("V7"));
        assert(name_of(Big::V8) == txt("V8"));
        assert(name_of(Big::V9) == txt("V9"));
    }
//@end
//@fn big_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn big_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for Big {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: Big| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn big_e::<Deserialize for Big>::begin
//@end
//@fn big_e::<Deserialize for Big>::default | de::Deserialize::default
//@end
}
impl Serialize for Big {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn big_e::<Serialize for Big>::begin
//@end
}
}
pub mod r0_e {
use super::*;
//@item r0_e::R0 | pub
//@item r0_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: R0) -> Seq<u8> {
    match __v { R0::seq21 => txt("﻿'é́#\u{0} \u{7f}/-﻿\t r#$a{") }
}
/// no two variants share a name
pub proof fn names_differ(__a: R0, __b: R0)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("﻿'é́#\u{0} \u{7f}/-﻿\t r#$a{");
}
impl OneField for __Visitor { type T = R0; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R0::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R0::holds(self.__out, j) }
//@fn r0_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("﻿'é́#\u{0} \u{7f}/-﻿\t r#$a{");
        assert(name_of(R0::seq21) == txt("﻿'é́#\u{0} \u{7f}/-﻿\t r#$a{"));
    }
//@end
//@fn r0_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r0_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for R0 {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: R0| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r0_e::<Deserialize for R0>::begin
//@end
//@fn r0_e::<Deserialize for R0>::default | de::Deserialize::default
//@end
}
impl Serialize for R0 {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn r0_e::<Serialize for R0>::begin
//@end
}
}
pub mod r1_e {
use super::*;
//@item r1_e::R1 | pub
//@item r1_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: R1) -> Seq<u8> {
    match __v { R1::__both__17 => txt("ｘ}") }
}
/// no two variants share a name
pub proof fn names_differ(__a: R1, __b: R1)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("ｘ}");
}
impl OneField for __Visitor { type T = R1; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R1::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R1::holds(self.__out, j) }
//@fn r1_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("ｘ}");
        assert(name_of(R1::__both__17) == txt("ｘ}"));
    }
//@end
//@fn r1_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r1_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for R1 {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: R1| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r1_e::<Deserialize for R1>::begin
//@end
//@fn r1_e::<Deserialize for R1>::default | de::Deserialize::default
//@end
}
impl Serialize for R1 {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn r1_e::<Serialize for R1>::begin
//@end
}
}
pub mod r2_e {
use super::*;
//@item r2_e::R2 | pub
//@item r2_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: R2) -> Seq<u8> {
    match __v { R2::next18 => txt("next18"), R2::a_b_c => txt("a_b_c"), R2::err => txt("$\u{1f}") }
}
/// no two variants share a name
pub proof fn names_differ(__a: R2, __b: R2)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("next18");
        reveal_strlit("a_b_c");
        reveal_strlit("$\u{1f}");
        assert("a_b_c"@.len() != "next18"@.len());
        assert("$\u{1f}"@.len() != "next18"@.len());
        assert("$\u{1f}"@.len() != "a_b_c"@.len());
}
impl OneField for __Visitor { type T = R2; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R2::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R2::holds(self.__out, j) }
//@fn r2_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("next18");
        reveal_strlit("a_b_c");
        reveal_strlit("$\u{1f}");
        assert("a_b_c"@.len() != "next18"@.len());
        assert("$\u{1f}"@.len() != "next18"@.len());
        assert("$\u{1f}"@.len() != "a_b_c"@.len());
        assert(name_of(R2::next18) == txt("next18"));
        assert(name_of(R2::a_b_c) == txt("a_b_c"));
        assert(name_of(R2::err) == txt("$\u{1f}"));
    }
//@end
//@fn r2_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r2_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for R2 {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: R2| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r2_e::<Deserialize for R2>::begin
//@end
//@fn r2_e::<Deserialize for R2>::default | de::Deserialize::default
//@end
}
impl Serialize for R2 {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn r2_e::<Serialize for R2>::begin
//@end
}
}
pub mod r3_e {
use super::*;
//@item r3_e::R3 | pub
//@item r3_e::__Visitor
/// the name of a variant
pub open spec fn name_of(__v: R3) -> Seq<u8> {
    match __v { R3::seq12 => txt("ｘ﻿$b\"{Z\t$"), R3::begin => txt("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\") }
}
/// no two variants share a name
pub proof fn names_differ(__a: R3, __b: R3)
    ensures name_of(__a) == name_of(__b) ==> __a == __b
{
    broadcast use lem_same_text;
        reveal_strlit("ｘ﻿$b\"{Z\t$");
        reveal_strlit("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\");
        assert("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\"@.len() != "ｘ﻿$b\"{Z\t$"@.len());
}
impl OneField for __Visitor { type T = R3; closed spec fn make(o: Option<Self::T>) -> Self { __Visitor { __out: o } } }
impl Visitor for __Visitor {
    closed spec fn takes(&self, j: J) -> bool { R3::fits(j) }
    closed spec fn done(&self, j: J) -> bool { R3::holds(self.__out, j) }
//@fn r3_e::<Visitor for __Visitor>::null | de::Visitor::null
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::boolean | de::Visitor::boolean
//@params b
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::string | de::Visitor::string
//@params s
//@subst Box :: new => vx_seq
//@pre
    broadcast use lem_same_text;
    proof {
        reveal_strlit("ｘ﻿$b\"{Z\t$");
        reveal_strlit("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\");
        assert("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\"@.len() != "ｘ﻿$b\"{Z\t$"@.len());
        assert(name_of(R3::seq12) == txt("ｘ﻿$b\"{Z\t$"));
        assert(name_of(R3::begin) == txt("}r#😀ｘab}\u{1f}\u{0}-{b.-.'\\r# Z-ß a/﻿'\u{1f}a\\a$ｘa-﻿#😀0\\"));
    }
//@end
//@fn r3_e::<Visitor for __Visitor>::negative | de::Visitor::negative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::nonnegative | de::Visitor::nonnegative
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::float | de::Visitor::float
//@params n
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::seq | de::Visitor::seq
//@subst Box :: new => vx_seq
//@end
//@fn r3_e::<Visitor for __Visitor>::map | de::Visitor::map
//@subst Box :: new => vx_map
//@end
}
impl Deserialize for R3 {
    open spec fn fits(j: J) -> bool { j matches J::Str(__s) && exists|__v: R3| #[trigger] name_of(__v) == __s }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(__s) && o matches Some(__v) && name_of(__v) == __s }
    open spec fn absent() -> Option<Self> { None }
    proof fn holds_some(o: Option<Self>, j: J) { }
//@fn r3_e::<Deserialize for R3>::begin
//@end
//@fn r3_e::<Deserialize for R3>::default | de::Deserialize::default
//@end
}
impl Serialize for R3 {
    open spec fn tree(&self) -> Tree { Tree::Str(name_of(*self)) }
//@fn r3_e::<Serialize for R3>::begin
//@end
}
}
}
fn main() {}

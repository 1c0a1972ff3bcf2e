//@clearmaps
//@include maps_de.vrs T=T
//@props C12
impl Visitor for Place<()> {
    open spec fn takes(&self, j: J) -> bool { <()>::fits(j) }
    open spec fn done(&self, j: J) -> bool { <()>::holds(self.out, j) }
//@include methods8.vrs T=()
}
impl Deserialize for () {
    open spec fn fits(j: J) -> bool { j is Null }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j is Null && o is Some }
//@include methods_de.vrs T=()
}
impl Visitor for Place<bool> {
    open spec fn takes(&self, j: J) -> bool { bool::fits(j) }
    open spec fn done(&self, j: J) -> bool { bool::holds(self.out, j) }
//@include methods8.vrs T=bool
}
impl Deserialize for bool {
    open spec fn fits(j: J) -> bool { j is Bool }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Bool(b) && o == Some(b) }
//@include methods_de.vrs T=bool
}
impl Visitor for Place<String> {
    open spec fn takes(&self, j: J) -> bool { String::fits(j) }
    open spec fn done(&self, j: J) -> bool { String::holds(self.out, j) }
//@include methods8.vrs T=String
}
impl Deserialize for String {
    open spec fn fits(j: J) -> bool { j is Str }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Str(b) && o matches Some(s) && encode_utf8(s@) == b }
//@include methods_de.vrs T=String
}
//@props C03 C12
//@for T i8 i16 i32 i64 isize
impl Visitor for Place<$T> {
    open spec fn takes(&self, j: J) -> bool { $T::fits(j) }
    open spec fn done(&self, j: J) -> bool { $T::holds(self.out, j) }
//@include methods8.vrs T=$T
}
impl Deserialize for $T {
    open spec fn fits(j: J) -> bool { match j { J::Neg(n) => $T::MIN <= n <= $T::MAX, J::Nonneg(n) => n <= $T::MAX, _ => false } }
    open spec fn holds(o: Option<Self>, j: J) -> bool {
        match j { J::Neg(n) => o matches Some(v) && v as int == n as int, J::Nonneg(n) => o matches Some(v) && v as int == n as int, _ => false }
    }
//@include methods_de.vrs T=$T
}
//@endfor
//@for T u8 u16 u32 u64 usize
impl Visitor for Place<$T> {
    open spec fn takes(&self, j: J) -> bool { $T::fits(j) }
    open spec fn done(&self, j: J) -> bool { $T::holds(self.out, j) }
//@include methods8.vrs T=$T
}
impl Deserialize for $T {
    open spec fn fits(j: J) -> bool { j matches J::Nonneg(n) && n <= $T::MAX }
    open spec fn holds(o: Option<Self>, j: J) -> bool { j matches J::Nonneg(n) && o matches Some(v) && v as int == n as int }
//@include methods_de.vrs T=$T
}
//@endfor
//@props C04 C12
//@for T f32 f64
impl Visitor for Place<$T> {
    open spec fn takes(&self, j: J) -> bool { $T::fits(j) }
    open spec fn done(&self, j: J) -> bool { $T::holds(self.out, j) }
//@include methods8.vrs T=$T FLAGS=float
}
impl Deserialize for $T {
    open spec fn fits(j: J) -> bool { j is Neg || j is Nonneg || j is Float }
    open spec fn holds(o: Option<Self>, j: J) -> bool {
        match j { J::Neg(n) => o == Some(n.s_$T()), J::Nonneg(n) => o == Some(n.s_$T()), J::Float(n) => o == Some(n.s_$T()), _ => false }
    }
//@include methods_de.vrs T=$T
}
//@endfor

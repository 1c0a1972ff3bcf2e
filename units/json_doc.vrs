/// a JSON document as the parser reports it
pub enum J {
    Null,
    Bool(bool),
    Str(Seq<u8>),
    Neg(i64),
    Nonneg(u64),
    Float(f64),
    List(Seq<J>),
    Obj(Seq<(Seq<u8>, J)>),
}
pub type Members = Seq<(Seq<u8>, J)>;

pub enum Call {
    Val(int, Ev),            // a value call on visitor `0`
    Elem(int),               // Seq::element on sequence builder `0`
    Key(int, Seq<u8>),       // Map::key on map builder `0`
    End(int, bool),          // finish on builder `0`; true: a map
}

pub struct Frame { pub map: bool, pub id: int }

/// objects are named by the index of the call that created them; the root visitor is -1
pub open spec fn ROOT() -> int { -1 }


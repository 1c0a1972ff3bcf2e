//@map dyn Visitor => DynVisitor
//@map dyn Seq + '_ => DynSeq<'_>
//@map dyn Map + '_ => DynMap<'_>
//@map dyn Seq + 'a => DynSeq<'a>
//@map dyn Map + 'a => DynMap<'a>
//@map Place :: new => vx_place

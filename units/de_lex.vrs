//@include prelude.vrs
//@include utf8.vrs
//@include std_specs.vrs
//@include float_model.vrs
//@include json_spec.vrs

// ---------------------------------------------------------------------------
// models of what the lexer only carries around
// ---------------------------------------------------------------------------
//@map dyn Visitor => DynVisitor
//@map dyn Seq + 'a => DynSeq<'a>
//@map dyn Map + 'a => DynMap<'a>
//@map :: alloc :: => ::std::
use Event::*;

#[verifier::external_body] pub struct DynVisitor { _p: () }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonNull<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonuniqueBox<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct DynSeq<'a> { _p: &'a () }
#[verifier::external_body] pub struct DynMap<'a> { _p: &'a () }

//@item error::Error | #[derive(Clone, Copy)] pub
pub type Result<T> = core::result::Result<T, Error>;
//@include de_lex_fns.vrs

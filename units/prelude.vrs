#![verifier::allow_complex_invariants]
#![verifier::loop_isolation(false)]
#![allow(bindings_with_variant_name, unused, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::utf8::*;
use core::mem;
verus! {
//@clearmaps

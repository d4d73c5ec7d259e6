// ---- base.rs: the names the extraction rules rewrite to. ----
#![allow(warnings)]
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

verus! {

/// R2: `assert!(b)`, `panic!`, `todo!()`, `unreachable!()` of the source become obligations.
fn vx_assert(b: bool) requires b { }
fn vx_unreachable() -> ! requires false { loop invariant false, decreases 0nat, { } }
/// R3: the text of a formatted message is not modelled (nothing claimed depends on it).
#[verifier::external_body]
fn vx_format() -> (r: String) { String::new() }

}

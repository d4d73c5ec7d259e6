// ---- tokenset.rs: TokenSet with its contracts ----
//@file ts crates/parser/src/token_set.rs
//@strip crate token_set
verus! {
//@include tokensetspec.rs
}
//@include tokensetapi.rs

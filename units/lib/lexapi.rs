// ---- lexapi.rs: the contract of find_token, proved in unit `lexer` ----
//@file lx crates/parser/src/lexer.rs
//@strip lexer
verus! {
//@proved_in lexer
//@fn lx::find_token ret=r
    ensures find_token_ok(text@, r)
//@endfn
//@endproved
}

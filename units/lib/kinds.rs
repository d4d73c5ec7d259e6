// ---- kinds.rs: the real SyntaxKind and its classification ----
//@file gen crates/parser/src/syntax_kind/generated.rs
//@file sk crates/parser/src/syntax_kind.rs
//@tmacro crates/parser/src/syntax_kind/generated.rs
//@strip crate syntax_kind
verus! {
//@type gen::SyntaxKind derive=Clone,Copy,PartialEq,Eq,Structural
use SyntaxKind::*;
pub open spec fn trivia(k: SyntaxKind) -> bool { k == WHITESPACE || k == COMMENT }
//@fn sk::SyntaxKind::is_trivia ret=r
    ensures r == trivia(self)
//@endfn
}

// ---- lineendings.rs ----
//@file sli crates/move_language_server/src/line_index.rs
verus! {
//@type sli::LineEndings derive=Clone,Copy,PartialEq,Eq,Structural
}

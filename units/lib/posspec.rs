// ---- posspec.rs: what protocol positions stand for in a text ----
verus! {
//@type sli::OffsetEncoding derive=Clone,Copy,PartialEq,Eq,Structural
/// the column of a boundary, as the client counts
pub open spec fn ccol(e: OffsetEncoding, s: Seq<char>, k: int) -> int { match e { OffsetEncoding::Utf8 => col8(s, k), OffsetEncoding::Utf16 => col16(s, k) } }
/// the protocol position of a boundary
pub open spec fn pos_of(e: OffsetEncoding, s: Seq<char>, k: int, p: lsp_types::Position) -> bool { p.line == line_no(s, k) && p.character == ccol(e, s, k) }
}

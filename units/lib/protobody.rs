// ---- protobody.rs: the line index behind the protocol's positions ----
mod ide_db {
use super::*;
//@include lineindexspec.rs
verus! {
//@proved_in lineindex
//@fn li::LineIndex::new ret=r
    requires blen(text@) <= u32::MAX,
    ensures r.of(text@),
//@endfn
//@fn li::LineIndex::line_col ret=r
    requires self.wf(),
    ensures self.line_col_ok(offset, r),
//@endfn
//@fn li::LineIndex::offset ret=r
    requires self.wf(), line_col.line < self.newlines@.len(), self.newlines@[line_col.line as int] + line_col.col <= u32::MAX,
    ensures r == self.newlines@[line_col.line as int] + line_col.col,
//@endfn
//@fn li::LineIndex::to_utf16 ret=r
    requires self.wf(), line_col.line < self.newlines@.len(),
    ensures r.line == line_col.line, self.to_utf16_ok(line_col.line, line_col.col, r.col as int),
//@endfn
//@fn li::LineIndex::to_utf8 ret=r
    requires self.wf(), line_col.line < self.newlines@.len(), self.to_utf8_pre(line_col.line, line_col.col),
    ensures r.line == line_col.line, self.to_utf8_ok(line_col.line, line_col.col, r.col as int),
//@endfn
//@endproved
}
}
use ide_db::{LineCol, LineColUtf16};
use ide_db::starts_props;
//@file fp crates/move_language_server/src/from_proto.rs
verus! {
//@type sli::LineIndex derive=

impl LineIndex {
    pub open spec fn of(&self, s: Seq<char>) -> bool { self.index.of(s) }
    /// the position of some boundary of the text
    pub open spec fn known(&self, p: lsp_types::Position) -> bool { exists|s: Seq<char>, k: int| #[trigger] self.index.of(s) && 0 <= k <= s.len() && #[trigger] pos_of(self.encoding, s, k, p) }
    /// P08: the position of an offset
    pub open spec fn position_ok(&self, offset: u32, p: lsp_types::Position) -> bool {
        forall|s: Seq<char>, k: int| #[trigger] self.index.of(s) && 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == offset ==> pos_of(self.encoding, s, k, p)
    }
    /// P08: the offset of a position
    pub open spec fn offset_ok(&self, p: lsp_types::Position, offset: u32) -> bool {
        forall|s: Seq<char>, k: int| #[trigger] self.index.of(s) && 0 <= k <= s.len() && #[trigger] pos_of(self.encoding, s, k, p) ==> blen(s.take(k)) == offset
    }
}
}

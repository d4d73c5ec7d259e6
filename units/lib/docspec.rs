// ---- docspec.rs: what a list of content changes makes of a text ----
verus! {
// ---- P09 ----
pub type Text = Seq<char>;
pub type ContentChange = lsp_types::TextDocumentContentChangeEvent;
/// characters a..b are what the range names, counting UTF-16 units
pub open spec fn span(s: Text, r: lsp_types::Range, a: int, b: int) -> bool {
    0 <= a <= b <= s.len() && pos_of(OffsetEncoding::Utf16, s, a, r.start) && pos_of(OffsetEncoding::Utf16, s, b, r.end)
}
/// the edit lies in the text
pub open spec fn fits(s: Text, c: ContentChange) -> bool { match c.range { Some(r) => exists|a: int, b: int| #[trigger] span(s, r, a, b), None => true } }
pub open spec fn from_of(s: Text, r: lsp_types::Range) -> int { span_of(s, r).0 }
pub open spec fn to_of(s: Text, r: lsp_types::Range) -> int { span_of(s, r).1 }
pub open spec fn span_of(s: Text, r: lsp_types::Range) -> (int, int) { choose|ab: (int, int)| #[trigger] span(s, r, ab.0, ab.1) }
/// the text one change makes of a text
pub open spec fn edited(s: Text, c: ContentChange) -> Text {
    match c.range { Some(r) => s.take(from_of(s, r)) + c.text@ + s.skip(to_of(s, r)), None => c.text@ }
}
/// the text after the first n changes, each applied to what the one before left
pub open spec fn run(s: Text, cs: Seq<ContentChange>, n: int) -> Text decreases n { if n <= 0 { s } else { edited(run(s, cs, n - 1), cs[n - 1]) } }
/// every change lies in the text it is applied to, and no text outgrows text-size
pub open spec fn all_fit(s: Text, cs: Seq<ContentChange>) -> bool {
    forall|n: int| 0 <= n <= cs.len() ==> blen(#[trigger] run(s, cs, n)) <= u32::MAX && (n < cs.len() ==> fits(run(s, cs, n), cs[n]))
}
}

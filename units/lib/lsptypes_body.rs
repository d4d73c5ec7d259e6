// the lsp_types structures used, with the fields the code reads (TRUSTED dependency; derived orders are lexicographic)
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position {
    pub fn new(line: u32, character: u32) -> (r: Position) ensures r == (Position { line, character }) { Position { line, character } }
    pub open spec fn spec_lt(self, o: Position) -> bool { plt(self, o) }
    pub open spec fn spec_le(self, o: Position) -> bool { ple(self, o) }
    pub open spec fn spec_gt(self, o: Position) -> bool { plt(o, self) }
    pub open spec fn spec_ge(self, o: Position) -> bool { ple(o, self) }
}
pub open spec fn plt(a: Position, b: Position) -> bool { a.line < b.line || a.line == b.line && a.character < b.character }
pub open spec fn ple(a: Position, b: Position) -> bool { plt(a, b) || a == b }
impl PartialOrdSpecImpl for Position {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Position) -> Option<Ordering> {
        Some(if plt(*self, *o) { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater })
    }
}
impl PartialOrd for Position {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Position) -> (r: Option<Ordering>) { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum DiagnosticSeverity { Error, Warning, Information, Hint }
#[verifier::external_body]
pub struct Url { u: usize }
impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum NumberOrString { Number(i32), String(String) }
pub struct CodeDescription { pub href: Url }
#[derive(Clone, Copy)]
pub enum DiagnosticTag { Unnecessary, Deprecated }
pub struct Location { pub uri: Url, pub range: Range }
pub struct DiagnosticRelatedInformation { pub location: Location, pub message: String }
/// a JSON value
#[verifier::external_body]
pub struct Json { v: usize }
pub struct Diagnostic { pub range: Range, pub severity: Option<DiagnosticSeverity>, pub code: Option<NumberOrString>, pub code_description: Option<CodeDescription>, pub source: Option<String>, pub message: String,
    pub related_information: Option<Vec<DiagnosticRelatedInformation>>, pub tags: Option<Vec<DiagnosticTag>>, pub data: Option<Json> }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Range { pub start: Position, pub end: Position }
impl Range {
    pub fn new(start: Position, end: Position) -> (r: Range) ensures r == (Range { start, end }) { Range { start, end } }
}
pub struct TextEdit { pub range: Range, pub new_text: String }
pub struct InsertReplaceEdit { pub new_text: String, pub insert: Range, pub replace: Range }
pub enum CompletionTextEdit { Edit(TextEdit), InsertAndReplace(InsertReplaceEdit) }
pub struct CompletionItem { pub text_edit: Option<CompletionTextEdit>, pub additional_text_edits: Option<Vec<TextEdit>> }
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
}

// ---- publishspec.rs: what the client is told of a file's syntax errors ----
verus! {
/// an error of a text: from, to, message
pub struct TextError { pub start: u32, pub end: u32, pub message: Seq<char> }
/// the errors SourceFile::parse finds in a text, which are inside it (units sink, tree).
/// TRUSTED: they are a function of the text (safe code with no state outside the call)
pub uninterp spec fn syntax_errors(s: Seq<char>) -> Seq<TextError>;
/// character k is where the offset is
pub open spec fn boundary_of(s: Seq<char>, k: int, offset: u32) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == offset }
/// P08: the client's position of an offset
pub open spec fn placed(e: OffsetEncoding, s: Seq<char>, offset: u32, p: lsp_types::Position) -> bool { forall|k: int| #[trigger] boundary_of(s, k, offset) ==> pos_of(e, s, k, p) }
pub open spec fn tells(e: OffsetEncoding, s: Seq<char>, x: TextError, d: Diagnostic) -> bool {
    &&& d.message@ == "Syntax Error: "@ + x.message && d.severity == Some(lsp_types::DiagnosticSeverity::Error)
    &&& placed(e, s, x.start, d.range.start) && placed(e, s, x.end, d.range.end)
}
/// P06, P08: the first 128 errors, in order, where the client has them
pub open spec fn report_of(e: OffsetEncoding, s: Seq<char>, d: Seq<Diagnostic>) -> bool {
    let x = syntax_errors(s);
    &&& d.len() == if x.len() <= 128 { x.len() } else { 128 }
    &&& forall|i: int| 0 <= i < d.len() ==> tells(e, s, x[i], #[trigger] d[i])
}
/// a change to the inputs cancels some computation of the run
pub uninterp spec fn interrupted() -> bool;
pub open spec fn reported_on(v: Seq<(FileId, Vec<Diagnostic>)>, f: FileId) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == f }
/// the open documents as the store has them, and as analysis has them
impl GlobalState {
    pub open spec fn encoding(&self) -> OffsetEncoding { encoding_of(*self.config) }
    /// what analysis is to see of an open document
    pub open spec fn doc_text(&self, p: VfsPath) -> Seq<char> { seen(self.store().file(p)) }
    pub open spec fn jobs(&self) -> Seq<spec_fn(Task) -> bool> { self.task_pool.handle.inner.given@ }
    /// no open document is beyond text-size
    pub open spec fn docs_small(&self) -> bool { forall|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) ==> blen(self.doc_text(p)) <= u32::MAX }
    /// P06, P08, P15: a report on the documents open now, each once, and on each of them unless a computation is cancelled
    pub open spec fn diagnosed(&self, t: Task) -> bool {
        t is Diagnostics && {
            let v = t->Diagnostics_0@;
            &&& forall|i: int| 0 <= i < v.len() ==> self.doc_report((#[trigger] v[i]).0, v[i].1@)
            &&& !interrupted() ==> forall|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) ==> reported_on(v, self.store().id(p))
            &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
        }
    }
    pub open spec fn doc_file(&self, f: FileId) -> bool { exists|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) && self.store().id(p) == f }
    pub open spec fn doc_report(&self, f: FileId, d: Seq<Diagnostic>) -> bool {
        exists|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) && self.store().id(p) == f && report_of(self.encoding(), self.doc_text(p), d)
    }
}
}

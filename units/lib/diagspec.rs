// ---- diagspec.rs: the collection of diagnostics, as its property sees it ----
//@file dg crates/move_language_server/src/diagnostics.rs
//@retype FxHashMap<FileId, Vec<lsp_types::Diagnostic>> => VxMap<FileId, Vec<lsp_types::Diagnostic>>
//@retype FxHashSet<FileId> => VxSet<FileId>
//@retype CheckFixes => VxFixes
//@retype Vec<lsp_ext::CodeAction> => VxActions
//@retype impl Iterator<Item = &lsp_types::Diagnostic> => VxDiags<'_>
use lsp_types::Diagnostic;
verus! {
/// The table of quick fixes, which is not part of what is shown (DROPPED: its contents).
#[verifier::external_body]
pub struct VxFixes { f: usize }
#[verifier::external_body]
pub struct VxActions { f: usize }
#[verifier::external_body]
pub fn vx_fixes_clear(f: &mut VxFixes) { }
#[verifier::external_body]
pub fn vx_fixes_add(f: &mut VxFixes, a: VxActions) { }
/// an iterator over diagnostics: those still to come
#[verifier::external_body]
pub struct VxDiags<'a> { d: &'a Diagnostic }
impl<'a> VxDiags<'a> { pub uninterp spec fn rest(&self) -> Seq<Diagnostic>; }
/// map.get(k).into_iter().flatten()
#[verifier::external_body]
pub fn vx_flat<'a>(m: &'a VxMap<FileId, Vec<Diagnostic>>, k: &FileId) -> (r: VxDiags<'a>) ensures r.rest() == got_diags(m@, *k) { unimplemented!() }
/// a.chain(b)
#[verifier::external_body]
pub fn vx_diags_chain<'a>(a: VxDiags<'a>, b: VxDiags<'a>) -> (r: VxDiags<'a>) ensures r.rest() == a.rest() + b.rest() { unimplemented!() }

pub open spec fn got_diags(m: Map<FileId, Vec<Diagnostic>>, k: FileId) -> Seq<Diagnostic> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
/// two diagnostics look the same
pub open spec fn deq(a: Diagnostic, b: Diagnostic) -> bool {
    a.severity == b.severity && a.range == b.range && a.message@ == b.message@
    && match (a.source, b.source) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false }
}
pub open spec fn deq_ref(left: &Diagnostic, right: &Diagnostic) -> bool { deq(*left, *right) }
pub proof fn deq_sym(a: Diagnostic, b: Diagnostic) ensures deq(a, b) == deq(b, a) { }
pub open spec fn deqs(a: Seq<Diagnostic>, b: Seq<Diagnostic>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> deq(#[trigger] a[i], b[i]) }
pub open spec fn has(s: Seq<Diagnostic>, d: Diagnostic) -> bool { exists|i: int| 0 <= i < s.len() && deq(#[trigger] s[i], d) }
pub open spec fn no_dups(s: Seq<Diagnostic>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !deq(#[trigger] s[i], #[trigger] s[j]) }

//@type dg::DiagnosticCollection
impl DiagnosticCollection {
    pub open spec fn nat(&self, f: FileId) -> Seq<Diagnostic> { got_diags(self.native@, f) }
    pub open spec fn chk(&self, f: FileId) -> Seq<Diagnostic> { got_diags(self.check@, f) }
    /// what is shown for a file
    pub open spec fn shown(&self, f: FileId) -> Seq<Diagnostic> { self.nat(f) + self.chk(f) }
    /// P15: no duplicates among the check diagnostics
    pub open spec fn wf(&self) -> bool { forall|f: FileId| self.check@.contains_key(f) ==> no_dups(#[trigger] self.check@[f]@) }
    /// P15: what an update may do to the set of files to publish, given the files it touches
    pub open spec fn republish(&self, o: &DiagnosticCollection, touched: Set<FileId>) -> bool {
        &&& forall|f: FileId| o.changes@.contains(f) ==> #[trigger] self.changes@.contains(f)
        &&& forall|f: FileId| #[trigger] self.changes@.contains(f) ==> o.changes@.contains(f) || touched.contains(f)
        &&& forall|f: FileId| !deqs(#[trigger] self.shown(f), o.shown(f)) ==> self.changes@.contains(f)
    }
}
broadcast proof fn deqs_refl(a: Seq<Diagnostic>) ensures #[trigger] deqs(a, a) { }

}

//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@include iter.rs
//@include tsize.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@include vfsapi.rs
//@include lf.rs
//@include utf8.rs
mod lsp_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include lsptypes_body.rs
}
//@include textpos.rs
//@include posspec.rs
//@include protobody.rs
//@include diagspec.rs
//@include memdocsspec.rs
//@include lspserver.rs
//@include poolapi.rs
//@include configspec.rs
//@include absorbspec.rs
//@include memdocsapi.rs
//@include publishspec.rs
//@file an crates/ide/src/lib.rs
//@file db crates/ide_db/src/lib.rs
//@file ha crates/move_language_server/src/handlers.rs
//@file tp crates/move_language_server/src/to_proto.rs
//@include protoapi.rs
//@file gs crates/move_language_server/src/global_state.rs
//@file ml crates/move_language_server/src/main_loop.rs
//@strip crate vfs handlers to_proto salsa
//@dropmacro error warn trace info
//@retype salsa::Snapshot<RootDatabase> => RootDatabase
//@retype Cancellable<T> => std::result::Result<T, Cancelled>
//@retype Cancellable<LineIndex> => std::result::Result<LineIndex, Cancelled>
//@retype Cancellable<Arc<LineIndex>> => std::result::Result<Arc<ide_db::LineIndex>, Cancelled>
//@retype Cancellable<Vec<Diagnostic>> => std::result::Result<Vec<ide_diagnostics::Diagnostic>, Cancelled>
//@retype &dyn LineIndexDatabase => &RootDatabase
//@subst self.vfs.read().1[&file_id] =>> vx_endings(self, &file_id)
//@subst Arc::clone(&self.vfs) =>> vx_share(&self.vfs)
//@subst LineIndex::new(&*text) =>> ide_db::LineIndex::new(&*text)
//@retype Arc<LineIndex> => Arc<ide_db::LineIndex>
//@subst is_cancelled(&*err) =>> vx_is_cancelled(&err)
//@shimfn Cancelled::catch -> vx_catch
//@shimfn to_proto::range -> range_to_proto
//@shim .into_iter.map.collect -> vx_map
//@shim .map.collect -> vx_keys_map
//@shim .into_iter.filter_map.collect -> vx_filter_map
//@shim .map_err.ok.map -> vx_ok_map
//@shim .to_string -> vx_to_string &
//@format "https://rust-analyzer.github.io/manual.html#{}" -> vx_manual
//@closure an::Analysis::with_db/vx_catch#0 || T requires call_requires(f, (&self.db,)) ensures call_ensures(f, (&self.db,), vx_r)
//@closure an::Analysis::file_line_index/with_db#0 |&RootDatabase| Arc<ide_db::LineIndex> requires $0.readable(file_id) ensures vx_r.of($0.text(file_id))
//@closure an::Analysis::diagnostics/with_db#0 |&RootDatabase| Vec<ide_diagnostics::Diagnostic> requires $0.readable(file_id) ensures ide_diagnostics::first_errors(vx_r@, $0.text(file_id))
//@closure ha::publish_diagnostics/collect#0 |ide_diagnostics::Diagnostic| Diagnostic requires line_index.index.wf() ensures rendered(line_index, $0, vx_r)
mod ide_diagnostics {
use super::*;
//@file idg crates/ide_diagnostics/src/lib.rs noinline
verus! {
//@type idg::DiagnosticCode derive=
//@type idg::Severity derive=Clone,Copy
//@type idg::Diagnostic derive=
/// P06: the first 128 errors of a text
pub open spec fn first_errors(d: Seq<Diagnostic>, s: Seq<char>) -> bool {
    let e = syntax_errors(s);
    &&& d.len() == if e.len() <= 128 { e.len() } else { 128 }
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).message@ == "Syntax Error: "@ + e[i].message && d[i].range.start == e[i].start && d[i].range.end == e[i].end && d[i].severity == Severity::Error
}
/// proved in unit `tree`, where text-size's types are records around the u32
#[verifier::external_body]
pub fn diagnostics(db: &RootDatabase, file_id: FileId) -> (r: Vec<Diagnostic>)
    requires db.readable(file_id),
    ensures first_errors(r@, db.text(file_id)) { unimplemented!() }
//@fn idg::DiagnosticCode::as_str ret=r
//@endfn
}
}
//@closure ml::GlobalState::update_diagnostics/collect#0 |&VfsPath| FileId requires self.store().wf(), self.store().file(*$0) is Some ensures vx_r == self.store().id(*$0)
use ide_diagnostics::Severity;
use lsp_types::{NumberOrString, DiagnosticTag};
//@closure ml::GlobalState::update_diagnostics/spawn#0 || Task requires can_report(snapshot, subscriptions@) ensures reports(snapshot, subscriptions@, vx_r)
//@closure ml::GlobalState::update_diagnostics/collect#1 |FileId| Option<(FileId, Vec<Diagnostic>)> requires snapshot.analysis.db.readable($0) ensures vx_r is Some ==> file_report(snapshot, $0, vx_r->Some_0), vx_r is None ==> interrupted()
//@closure ml::GlobalState::update_diagnostics/map#0 |Error| () ensures true
//@closure ml::GlobalState::update_diagnostics/map#1 |Vec<Diagnostic>| (FileId, Vec<Diagnostic>) ensures vx_r == (file_id, $0)
verus! {
impl Clone for MemDocs { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
broadcast use {vx_str_fits, vset::indexset_distinct};
pub struct Cancelled;
#[verifier::external_body]
pub struct Error { e: usize }
impl From<Cancelled> for Error { #[verifier::external_body] fn from(s: Cancelled) -> Self { unimplemented!() } }
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl RootDatabase {
    pub open spec fn text(&self, f: FileId) -> Seq<char> { self@.text[f] }
    pub open spec fn readable(&self, f: FileId) -> bool { self@.text.contains_key(f) && blen(self.text(f)) <= u32::MAX }
    #[verifier::external_body]
    pub fn file_text(&self, f: FileId) -> (r: Arc<String>) requires self@.text.contains_key(f) ensures r@ == self.text(f) { unimplemented!() }
    /// the query bound to `line_index` (below)
    #[verifier::external_body]
    pub fn line_index(&self, f: FileId) -> (r: Arc<ide_db::LineIndex>) requires self.readable(f) ensures r.of(self.text(f)) { unimplemented!() }
    /// a snapshot of the database has its inputs
    #[verifier::external_body]
    pub fn snapshot(&self) -> (r: RootDatabase) ensures r@ == self@ { unimplemented!() }
}
//@fn db::line_index ret=r
    requires db.readable(file_id),
    ensures r.of(db.text(file_id)),
//@endfn
//@type an::Analysis derive=
/// Cancelled::catch(f): what f gives, unless a change of the inputs interrupts it
#[verifier::external_body]
pub fn vx_catch<T, F: FnOnce() -> T>(f: F) -> (r: std::result::Result<T, Cancelled>) requires call_requires(f, ()) ensures r is Ok ==> call_ensures(f, (), r->Ok_0), r is Err ==> interrupted() { unimplemented!() }
//@fn an::AnalysisHost::analysis ret=r
    ensures r.db@ == self.db@,
//@endfn
//@fn an::Analysis::with_db ret=r
//@where F: FnOnce(&RootDatabase) -> T
    requires call_requires(f, (&self.db,)),
    ensures r is Ok ==> call_ensures(f, (&self.db,), r->Ok_0), r is Err ==> interrupted(),
//@endfn
//@fn an::Analysis::file_line_index ret=r
    requires self.db.readable(file_id),
    ensures r is Ok ==> r->Ok_0.of(self.db.text(file_id)), r is Err ==> interrupted(),
//@endfn
//@fn an::Analysis::diagnostics ret=r
    requires self.db.readable(file_id),
    ensures r is Ok ==> ide_diagnostics::first_errors(r->Ok_0@, self.db.text(file_id)), r is Err ==> interrupted(),
//@endfn
//@type gs::GlobalStateSnapshot derive=
/// the line endings recorded for a file (TRUSTED: behind a lock)
#[verifier::external_body]
pub fn vx_endings(s: &GlobalStateSnapshot, f: &FileId) -> (r: LineEndings) { unimplemented!() }
/// the same store, shared
#[verifier::external_body]
pub fn vx_share(l: &VxLock) -> (r: VxLock) { unimplemented!() }
//@fn gs::GlobalStateSnapshot::file_line_index ret=r
    requires self.analysis.db.readable(file_id),
    ensures r is Ok ==> r->Ok_0.of(self.analysis.db.text(file_id)) && r->Ok_0.encoding == encoding_of(*self.config), r is Err ==> interrupted(),
//@endfn
//@fn tp::diagnostic_severity ret=r
    ensures severity is Error ==> r == lsp_types::DiagnosticSeverity::Error,
//@endfn
pub open spec fn rendered(li: LineIndex, d: ide_diagnostics::Diagnostic, r: Diagnostic) -> bool {
    r.message@ == d.message@ && (d.severity is Error ==> r.severity == Some(lsp_types::DiagnosticSeverity::Error)) && li.position_ok(d.range.start, r.range.start) && li.position_ok(d.range.end, r.range.end)
}
#[verifier::external_body]
pub fn vx_to_string(s: &&str) -> (r: String) ensures r@ == (*s)@ { unimplemented!() }
#[verifier::external_body]
fn vx_manual(s: &&str) -> (r: String) ensures lsp_types::Url::is_link(r@) { unimplemented!() }
impl lsp_types::Url {
    pub uninterp spec fn is_link(s: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: std::result::Result<lsp_types::Url, ()>) ensures Self::is_link(s@) ==> r is Ok { unimplemented!() }
}
//@fn ha::publish_diagnostics ret=r
    requires snap.analysis.db.readable(file_id),
    ensures r is Ok ==> report_of(encoding_of(*snap.config), snap.analysis.db.text(file_id), r->Ok_0@), r is Err ==> interrupted(),
//@endfn
pub open spec fn file_report(s: GlobalStateSnapshot, f: FileId, x: (FileId, Vec<Diagnostic>)) -> bool { x.0 == f && report_of(encoding_of(*s.config), s.analysis.db.text(f), x.1@) }
pub open spec fn can_report(s: GlobalStateSnapshot, fs: Seq<FileId>) -> bool { forall|i: int| 0 <= i < fs.len() ==> s.analysis.db.readable(#[trigger] fs[i]) }
/// a report on some of these files, in their order
pub open spec fn reports(s: GlobalStateSnapshot, fs: Seq<FileId>, t: Task) -> bool {
    t is Diagnostics && exists|picks: Seq<int>| #[trigger] ordered(picks, fs.len() as int) && picked(s, fs, t->Diagnostics_0@, picks)
}
pub open spec fn picked(s: GlobalStateSnapshot, fs: Seq<FileId>, v: Seq<(FileId, Vec<Diagnostic>)>, picks: Seq<int>) -> bool {
    &&& picks.len() == v.len() && ordered(picks, fs.len() as int)
    &&& forall|i: int| 0 <= i < fs.len() && !(#[trigger] picks.contains(i)) ==> interrupted()
    &&& forall|j: int| 0 <= j < v.len() ==> file_report(s, fs[picks[j]], #[trigger] v[j])
}
/// increasing positions below n
pub open spec fn ordered(picks: Seq<int>, n: int) -> bool { (forall|j: int| 0 <= j < picks.len() ==> 0 <= #[trigger] picks[j] < n) && forall|i: int, j: int| 0 <= i < j < picks.len() ==> #[trigger] picks[i] < #[trigger] picks[j] }
/// v.into_iter().filter_map(f).collect()
#[verifier::external_body]
pub fn vx_filter_map<A, B, F: Fn(A) -> Option<B>>(a: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (#[trigger] a@[i],)),
    ensures exists|picks: Seq<int>| #[trigger] ordered(picks, a@.len() as int) && picks.len() == r@.len() && (forall|i: int| 0 <= i < a@.len() && !(#[trigger] picks.contains(i)) ==> call_ensures(f, (a@[i],), None)) && forall|j: int| 0 <= j < r@.len() ==> call_ensures(f, (a@[picks[j]],), Some(#[trigger] r@[j])),
{ a.into_iter().filter_map(f).collect() }
/// keys.map(f).collect()
#[verifier::external_body]
pub fn vx_keys_map<K, U, F: Fn(&K) -> U>(k: VxKeys<'_, K>, f: F) -> (r: Vec<U>)
    requires forall|x: K| #[trigger] k.rest().contains(x) ==> call_requires(f, (&x,)),
    ensures r@.len() == k.rest().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&k.rest()[i],), #[trigger] r@[i]) && k.rest().contains(k.rest()[i]),
{ unimplemented!() }
/// r.map_err(e).ok().map(f)
pub fn vx_ok_map<T, E, E2, U, F: FnOnce(E) -> E2, G: FnOnce(T) -> U>(r: std::result::Result<T, E>, e: F, f: G) -> (o: Option<U>)
    requires r is Err ==> call_requires(e, (r->Err_0,)), r is Ok ==> call_requires(f, (r->Ok_0,)),
    ensures o is Some <==> r is Ok, r is Ok ==> call_ensures(f, (r->Ok_0,), o->Some_0),
{ match r { Ok(t) => Some(f(t)), Err(x) => { let _y = e(x); None } } }
#[verifier::external_body]
fn vx_is_cancelled(e: &Error) -> bool { unimplemented!() }
//@fn gs::GlobalState::snapshot ret=r
    ensures r.config == self.config, r.analysis.db@ == self.db(), r.mem_docs == self.mem_docs,
//@endfn
//@fn ml::GlobalState::update_diagnostics bindtail
    requires old(self).synced(old(self).store().all_now()), old(self).docs_stored(), old(self).docs_small(),
    ensures *final(self) == (GlobalState { task_pool: final(self).task_pool, ..*old(self) }),
        final(self).jobs() == old(self).jobs().push(final(self).jobs().last()),
        forall|t: Task| #[trigger] (final(self).jobs().last())(t) ==> old(self).diagnosed(t),
//@at before_call snapshot 0
    let ghost a = *self; let ghost fs = subscriptions@;
    proof {
        assert(exists|ks: Seq<VfsPath>| #[trigger] ks.no_duplicates() && a.listed(ks, fs));
        let ks = choose|ks: Seq<VfsPath>| #[trigger] ks.no_duplicates() && a.listed(ks, fs);
        a.listed_ok(ks, fs);
    }
//@at after_call snapshot 0
    proof { assert(can_report(snapshot, fs)); }
    let ghost sn = snapshot;
//@at end
    proof {
        assert forall|t: Task| #[trigger] (self.jobs().last())(t) implies a.diagnosed(t) by {
            let ks = choose|ks: Seq<VfsPath>| #[trigger] ks.no_duplicates() && a.listed(ks, fs);
            assert(reports(sn, fs, t));
            a.reported(sn, ks, fs, t);
        }
    }
//@endfn
impl GlobalState {
    /// the identities of the open documents
    pub open spec fn listed(&self, ks: Seq<VfsPath>, fs: Seq<FileId>) -> bool {
        fs.len() == ks.len() && (forall|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) ==> ks.contains(p)) && forall|i: int| 0 <= i < fs.len() ==> #[trigger] fs[i] == self.store().id(ks[i]) && self.mem_docs.open().contains_key(ks[i])
    }
    proof fn readable_doc(&self, p: VfsPath)
        requires self.synced(self.store().all_now()), self.docs_stored(), self.docs_small(), self.mem_docs.open().contains_key(p),
        ensures self.db().text.contains_key(self.store().id(p)), self.db().text[self.store().id(p)] == self.doc_text(p), blen(self.doc_text(p)) <= u32::MAX,
    {
        let st = self.store(); let f = st.id(p); let ix = st.interner.map@.index_of(p);
        assert(st.knows(p));
        assert(f.0 == ix);
        assert(at(st.all_now(), f.0 as int) == st.file(p));
    }
    proof fn listed_ok(&self, ks: Seq<VfsPath>, fs: Seq<FileId>)
        requires self.synced(self.store().all_now()), self.docs_stored(), self.docs_small(), self.listed(ks, fs),
        ensures forall|i: int| 0 <= i < fs.len() ==> self.db().text.contains_key(#[trigger] fs[i]) && self.db().text[fs[i]] == self.doc_text(ks[i]) && blen(self.doc_text(ks[i])) <= u32::MAX,
    {
        assert forall|i: int| 0 <= i < fs.len() implies self.db().text.contains_key(#[trigger] fs[i]) && self.db().text[fs[i]] == self.doc_text(ks[i]) && blen(self.doc_text(ks[i])) <= u32::MAX by { assert(fs[i] == self.store().id(ks[i])); self.readable_doc(ks[i]); }
    }
    proof fn reported(&self, sn: GlobalStateSnapshot, ks: Seq<VfsPath>, fs: Seq<FileId>, t: Task)
        requires self.synced(self.store().all_now()), self.docs_stored(), self.docs_small(), self.listed(ks, fs), ks.no_duplicates(), sn.config == self.config, sn.analysis.db@ == self.db(), reports(sn, fs, t),
        ensures self.diagnosed(t),
    {
        self.listed_ok(ks, fs);
        let v = t->Diagnostics_0@;
        let picks = choose|picks: Seq<int>| #[trigger] ordered(picks, fs.len() as int) && picked(sn, fs, v, picks);
        assert forall|i: int| 0 <= i < v.len() implies self.doc_report((#[trigger] v[i]).0, v[i].1@) by {
            let k = picks[i]; assert(fs[k] == self.store().id(ks[k]));
            assert(self.mem_docs.open().contains_key(ks[k]));
        }
        if !interrupted() {
            assert forall|i: int| 0 <= i < fs.len() implies #[trigger] reported_on(v, fs[i]) by {
                assert(picks.contains(i)); let j = picks.index_of(i); assert(v[j].0 == fs[i]);
            }
            assert forall|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) implies reported_on(v, self.store().id(p)) by { let i = ks.index_of(p); assert(reported_on(v, fs[i])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 != (#[trigger] v[j]).0 by {
            let k = picks[i]; let l = picks[j];
            assert(fs[k] == self.store().id(ks[k]) && fs[l] == self.store().id(ks[l]));
            if v[i].0 == v[j].0 { assert(self.store().knows(ks[k]) && self.store().knows(ks[l])); self.store().interner.ids_differ(ks[k], ks[l]); }
        }
    }
}
}
fn main() {}

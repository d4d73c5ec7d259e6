//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include pathsapi.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@include vfsapi.rs
//@include lf.rs
//@include utf8.rs
mod lsp_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include lsptypes_body.rs
//@include lspmsgs.rs
}
//@include textpos.rs
//@include posspec.rs
//@include docspec.rs
//@include diagspec.rs
//@include memdocsspec.rs
//@include lspserver.rs
//@include configspec.rs
//@include absorbspec.rs
//@include absorbapi.rs
//@include memdocsapi.rs
//@include diagapi.rs
//@include absorblemmas.rs
//@include servespec.rs
//@include publishspec.rs
//@include turnspec.rs
//@file fp crates/move_language_server/src/from_proto.rs noinline
//@file lu crates/move_language_server/src/lsp_utils.rs
//@file ml crates/move_language_server/src/main_loop.rs
//@file gs crates/move_language_server/src/global_state.rs
//@file an crates/ide/src/lib.rs
//@file tp crates/move_language_server/src/to_proto.rs noinline
//@file rl crates/move_language_server/src/reload.rs
//@include serveapi.rs
//@include publishapi.rs
//@strip crate vfs from_proto lsp_ext
//@dropmacro error warn trace info
//@shim .into -> vx_into -
//@shim .to_string -> vx_to_string &
//@subst lsp_types::Url::from_file_path(path) =>> vx_from_file_path(path)
//@subst path.as_ref().components().next() =>> vx_first_component(path)
//@subst prefix.kind() =>> vx_kind(&prefix)
//@subst url.as_str().splitn(3, ':').collect_tuple() =>> vx_three_parts(&url)
//@subst scheme.len() + ':'.len_utf8() =>> vx_start(scheme)
//@subst start..(start + drive_letter.len()) =>> vx_end(start, drive_letter)
//@subst url[driver_letter_range].make_ascii_lowercase() =>> vx_lower(&mut url, driver_letter_range)
//@subst url.into() =>> vx_url_string(url)
//@subst lsp_types::Url::parse(&url) =>> vx_url_parse(&url)
//@strip path
//@subst handler(self, response) =>> vx_handle(handler, self, response)
//@subst N::METHOD =>> N::vx_method()
//@subst self.task_pool.receiver.try_recv() =>> vx_next_task(&*self)
//@subst self.last_reported_status.as_ref() != Some(&status) =>> vx_status_differs(&self.last_reported_status, &status)
//@subst loop_duration > Duration::from_millis(100) =>> vx_long(&loop_duration)
//@shim .cloned.collect -> vx_collect
//@shim .unwrap_or_default -> vx_or_none
verus! {
broadcast use {vx_str_fits, vset::indexset_distinct};
global size_of usize == 8;
use lsp_types::Url;
pub trait VxInto<T>: Sized { spec fn into_spec(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.into_spec(); }
impl VxInto<Message> for Notification { open spec fn into_spec(self) -> Message { Message::Notification(self) } fn vx_into(self) -> (r: Message) { Message::Notification(self) } }
pub fn vx_into<T, S: VxInto<T>>(s: S) -> (r: T) ensures r == s.into_spec() { s.vx_into() }
#[verifier::external_body]
pub fn vx_to_string(s: &&'static str) -> (r: String) ensures r@ == (*s)@ { unimplemented!() }
// ---- time (TRUSTED: std; decides a log line only) ----
pub struct Duration { d: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_long(d: &Duration) -> bool { unimplemented!() }
// ---- the task pool (TRUSTED) ----
/// TRUSTED: the channel has the tasks of the jobs and no others
#[verifier::external_body]
pub fn vx_next_task(g: &GlobalState) -> (r: Result<Task, ()>) ensures r is Ok ==> from_job(*g, r->Ok_0) { unimplemented!() }
#[verifier::external_body]
pub fn vx_status_differs(a: &Option<ServerStatusParams>, b: &ServerStatusParams) -> bool { unimplemented!() }
impl Clone for ServerStatusParams { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_collect(d: VxDiags<'_>) -> (r: Vec<lsp_types::Diagnostic>) ensures r@ == d.rest() { unimplemented!() }
pub fn vx_or_none(r: Result<Option<i32>>) -> (o: Option<i32>) ensures o == (if r is Ok { r->Ok_0 } else { None }) { match r { Ok(o) => o, Err(_) => None } }
/// TRUSTED: the elements of a hash set, each once
#[verifier::external_body]
pub fn vx_set_items(s: VxSet<FileId>) -> (r: VxIntoIter<FileId>) ensures r.rest().no_duplicates(), forall|f: FileId| #![trigger r.rest().contains(f)] #![trigger s@.contains(f)] r.rest().contains(f) <==> s@.contains(f) { unimplemented!() }
impl VxOutgoing {
    /// TRUSTED: lsp-server: the handler stored with the request (a panic where there is none: a client that answers what was not asked)
    #[verifier::external_body]
    pub fn complete(&mut self, id: RequestId) -> VxHandler { unimplemented!() }
}
pub fn vx_handle(h: VxHandler, g: &mut GlobalState, r: Response) ensures *final(g) == *old(g) { }
//@fn gs::GlobalState::complete_request
    ensures *final(self) == (GlobalState { req_queue: final(self).req_queue, ..*old(self) }), final(self).pending() == old(self).pending(),
//@endfn
//@fn an::AnalysisHost::raw_database ret=r
    ensures *r == self.db,
//@endfn
//@fn rl::GlobalState::is_quiescent ret=r
    ensures r == self.quiet(),
//@endfn
//@fn rl::GlobalState::current_status ret=r
    ensures r.health is Ok, r.message is None,
//@endfn
//@fn gs::GlobalState::send_notification
//@where N: lsp_types::notification::Notification
    ensures final(self).io_only(*old(self)), final(self).req_queue == old(self).req_queue,
        final(self).sent() == old(self).sent().push(final(self).sent().last()), told::<N>(final(self).sent().last(), params),
//@endfn
//@fn lu::GlobalState::show_message
//@endfn
// ---- publishing ----
/// TRUSTED: Url::from_file_path: reading the URL back gives the path
#[verifier::external_body]
pub fn vx_from_file_path(p: &AbsPath) -> (r: Result<lsp_types::Url, ()>) requires clean(p.0.comps()) ensures r is Ok, url_comps(r->Ok_0) == Some(p.0.comps()) { unimplemented!() }
/// TRUSTED: path.components().next()
#[verifier::external_body]
pub fn vx_first_component<'a>(p: &'a AbsPath) -> (r: Option<Component<'a>>) ensures match r { Some(c) => p.0.comps().len() > 0 && c@ == p.0.comps()[0], None => p.0.comps().len() == 0 } { unimplemented!() }
pub enum Prefix { Verbatim, Disk(u8), VerbatimDisk(u8), Other }
// what is done for a drive letter is not reached on unix: each of these is called under "requires false"
#[verifier::external_body]
pub fn vx_kind(p: &PrefixComponent) -> Prefix requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_three_parts<'a>(u: &'a lsp_types::Url) -> Option<(&'a str, &'a str, &'a str)> requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_start(scheme: &str) -> usize requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_end(start: usize, drive: &str) -> std::ops::Range<usize> requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_lower(s: &mut String, r: std::ops::Range<usize>) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_url_string(u: lsp_types::Url) -> String requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_url_parse(s: &String) -> Result<lsp_types::Url, ()> requires false { unimplemented!() }
//@fn tp::url_from_abs_path ret=r
    requires clean(path.0.comps()),
    ensures url_comps(r) == Some(path.0.comps()),
//@endfn
//@fn gs::file_id_to_url ret=r bindtail
    requires vfs.wf(), id.0 < vfs.interner.map@.len(), vfs.path(id.0 as int).wf(), vfs.path(id.0 as int).0 is PathBuf,
    ensures url_path(r) == Some(vfs.path(id.0 as int)),
//@at end
    proof {
        let p = vfs.path(id.0 as int);
        resolve_idem(p.0->PathBuf_0.0.comps());
        assert(names(vx_tail, p));
        assert forall|q: VfsPath| #[trigger] names(vx_tail, q) implies q == p by { names_one(vx_tail, p, q); }
    }
//@endfn
// ---- one turn of the main loop ----
proof fn deqs_trans(x: Seq<Diagnostic>, y: Seq<Diagnostic>, z: Seq<Diagnostic>) requires deqs(x, y), deqs(y, z) ensures deqs(x, z) { }
proof fn report_one(a: GlobalState, b: GlobalState, c: GlobalState, h: Heard, f: FileId, d: Seq<Diagnostic>)
    requires reported(a, b, h), b.in_store(f), c.store() == b.store(), c.diagnostics.wf(), c.diagnostics.check@ == b.diagnostics.check@, deqs(c.diagnostics.nat(f), d),
        forall|g: FileId| g != f ==> #[trigger] c.diagnostics.nat(g) == b.diagnostics.nat(g), c.diagnostics.republish(&b.diagnostics, set![f]),
    ensures reported(a, c, h.push((f, d))),
{
    let k = h.push((f, d));
    assert(k.drop_last() =~= h);
    assert forall|g: FileId| deqs(#[trigger] c.diagnostics.nat(g), latest(k, g, a.diagnostics.nat(g))) by { if g != f { assert(c.diagnostics.nat(g) == b.diagnostics.nat(g)); } }
    assert forall|g: FileId| c.diagnostics.changes@.contains(g) || deqs(#[trigger] c.diagnostics.shown(g), a.diagnostics.shown(g)) by {
        if !c.diagnostics.changes@.contains(g) { assert(deqs(c.diagnostics.shown(g), b.diagnostics.shown(g))); assert(deqs(b.diagnostics.shown(g), a.diagnostics.shown(g))); }
    }
    assert forall|g: FileId| #[trigger] c.diagnostics.changes@.contains(g) implies c.in_store(g) by { if g != f { assert(b.in_store(g)); } }
}
/// those among the first n that are not in a library
pub open spec fn nonlib(g: GlobalState, o: Seq<FileId>, n: int) -> Seq<FileId> decreases n {
    if n <= 0 { Seq::empty() } else if g.library(o[n - 1]) { nonlib(g, o, n - 1) } else { nonlib(g, o, n - 1).push(o[n - 1]) }
}
proof fn nonlib_is(g: GlobalState, o: Seq<FileId>, n: int)
    requires o.no_duplicates(), 0 <= n <= o.len(),
    ensures nonlib(g, o, n).no_duplicates(), forall|f: FileId| #[trigger] nonlib(g, o, n).contains(f) <==> o.take(n).contains(f) && !g.library(f),
    decreases n,
{
    if n > 0 {
        nonlib_is(g, o, n - 1);
        let x = o[n - 1]; let w = nonlib(g, o, n - 1); let v = nonlib(g, o, n);
        assert(o.take(n) =~= o.take(n - 1).push(x));
        assert forall|f: FileId| #[trigger] v.contains(f) <==> o.take(n).contains(f) && !g.library(f) by {
            if v.contains(f) { let i = v.index_of(f); if i < w.len() { assert(w[i] == f); assert(w.contains(f)); let j = o.take(n - 1).index_of(f); assert(o.take(n)[j] == f); } else { assert(o.take(n)[n - 1] == f); } }
            if o.take(n).contains(f) && !g.library(f) {
                let j = o.take(n).index_of(f);
                if j < n - 1 { assert(o.take(n - 1)[j] == f); assert(w.contains(f)); let i = w.index_of(f); assert(v[i] == f); } else { assert(v.last() == f); }
            }
        }
        if !g.library(x) {
            if w.contains(x) { let j = o.take(n - 1).index_of(x); assert(o[j] == o[n - 1]); }
            assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { if j == w.len() { if v[i] == x { assert(w[i] == x); } } else { assert(w[i] != w[j]); } }
        }
    }
}
// ---- the invariant, over every event ----
/// the same contents, no more documents
proof fn same_files(a: GlobalState, b: GlobalState)
    requires a.docs_stored(), a.docs_small(), a.jobs_fit(), b.store().data == a.store().data, b.store().interner == a.store().interner, b.jobs() == a.jobs(), forall|p: VfsPath| #[trigger] b.mem_docs.open().contains_key(p) ==> a.mem_docs.open().contains_key(p),
    ensures b.docs_stored(), b.docs_small(), b.jobs_fit(),
{
    assert forall|p: VfsPath| #[trigger] b.store().file(p) == a.store().file(p) by { }
    assert forall|p: VfsPath| #[trigger] b.mem_docs.open().contains_key(p) implies b.store().file(p) is Some && valid_utf8(b.store().file(p)->0) && blen(b.doc_text(p)) <= u32::MAX by { assert(a.mem_docs.open().contains_key(p)); assert(b.doc_text(p) == a.doc_text(p)); }
    jobs_keep(a, b);
}
/// whatever is written, a file in the store stays there
/// normalised, a text is no longer
proof fn lf_small(s: Text)
    ensures blen(lf(s)) <= blen(s),
    decreases s.len(),
{
    if s.len() > 0 {
        if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' {
            lf_small(s.skip(2));
            blen_cat(seq!['\n'], lf(s.skip(2))); blen_cat(seq!['\r'], seq!['\n'] + s.skip(2)); blen_cat(seq!['\n'], s.skip(2));
            assert(s =~= seq!['\r'] + (seq!['\n'] + s.skip(2)));
        } else {
            lf_small(s.skip(1));
            blen_cat(seq![s[0]], lf(s.skip(1))); blen_cat(seq![s[0]], s.skip(1));
            assert(s =~= seq![s[0]] + s.skip(1));
        }
    }
}
/// a store that keeps its files keeps the jobs' tasks fitting
proof fn jobs_keep(a: GlobalState, b: GlobalState)
    requires a.jobs_fit(), b.jobs() == a.jobs(), forall|f: FileId| a.in_store(f) ==> #[trigger] b.in_store(f),
    ensures b.jobs_fit(),
{
    assert forall|i: int, t: Task| 0 <= i < b.jobs().len() && #[trigger] (b.jobs()[i])(t) implies task_fits(t, b) by { assert((a.jobs()[i])(t)); assert(task_fits(t, a)); }
}
proof fn write_keeps(a: GlobalState, b: GlobalState, path: VfsPath, text: Text)
    requires a.steady(), stored(a, b, path, text), path.wf(), path.0 is PathBuf, b.docs_only(a),
        forall|p: VfsPath| #[trigger] b.mem_docs.open().contains_key(p) ==> p == path || a.mem_docs.open().contains_key(p), blen(text) <= u32::MAX,
    ensures b.steady(),
{
    let base = choose|base: Base| #[trigger] a.synced(base);
    let new = Some(encode_utf8(text));
    let r = kind_of(a.store().file(path), new) is Some;
    write_keeps_synced(a, b, base, path, new, r);
    assert(b.synced(base));
    keeps_place(a.store(), b.store(), path, new, r);
    encode_utf8_valid_utf8(text);
    encode_utf8_decode_utf8(text);
    lf_small(text);
    assert forall|f: FileId| a.in_store(f) implies #[trigger] b.in_store(f) by { assert(b.store().path(f.0 as int) == a.store().path(f.0 as int)); }
    jobs_keep(a, b);
    assert forall|f: FileId| #[trigger] b.diagnostics.changes@.contains(f) implies b.in_store(f) by { assert(a.in_store(f)); }
    assert forall|p: VfsPath| #[trigger] b.mem_docs.open().contains_key(p) implies blen(b.doc_text(p)) <= u32::MAX by { if p != path { assert(a.mem_docs.open().contains_key(p)); assert(b.store().file(p) == a.store().file(p)); assert(b.doc_text(p) == a.doc_text(p)); } }
}
proof fn notification_keeps(a: GlobalState, b: GlobalState, not: Notification)
    requires a.steady(), noted(a, b, not), event_fits(a, Event::Lsp(Message::Notification(not))),
    ensures b.steady(),
{
    let base = choose|base: Base| #[trigger] a.synced(base);
    if is_a::<Cancel>(not) { assert(b.synced(base)); same_files(a, b); }
    else if is_a::<Ignored>(not) { }
    else if is_a::<DidOpen>(not) {
        match url_path(said::<DidOpen>(not).text_document.uri) { Some(path) => { write_keeps(a, b, path, said::<DidOpen>(not).text_document.text@); } None => { } }
    } else if is_a::<DidChange>(not) {
        let c = said::<DidChange>(not);
        match url_path(c.text_document.uri) {
            Some(path) => if a.mem_docs.open().contains_key(path) { write_keeps(a, b, path, run(a.text_of(path), c.content_changes@, c.content_changes@.len() as int)); } else { assert(b.synced(base)); same_files(a, b); }
            None => { }
        }
    } else if is_a::<DidClose>(not) { assert(b.synced(base)); same_files(a, b); }
}
/// what is to be reported depends on the files and the documents
proof fn diagnosed_same(a: GlobalState, b: GlobalState, t: Task)
    requires a.diagnosed(t), a.vfs == b.vfs, a.mem_docs == b.mem_docs, a.config == b.config,
    ensures b.diagnosed(t),
{
    let v = t->Diagnostics_0@;
    assert forall|i: int| 0 <= i < v.len() implies b.doc_report((#[trigger] v[i]).0, v[i].1@) by { assert(a.doc_report(v[i].0, v[i].1@)); }
}
/// reports are of files in the store
proof fn diagnosed_fits(a: GlobalState, t: Task)
    requires a.diagnosed(t), a.docs_stored(), a.store().wf(),
    ensures task_fits(t, a),
{
    let v = t->Diagnostics_0@;
    assert forall|i: int| 0 <= i < v.len() implies a.in_store((#[trigger] v[i]).0) by {
        assert(a.doc_report(v[i].0, v[i].1@));
        let p = choose|p: VfsPath| #[trigger] a.mem_docs.open().contains_key(p) && a.store().id(p) == v[i].0 && report_of(a.encoding(), a.doc_text(p), v[i].1@);
        assert(a.store().knows(p));
        assert(a.store().id(p).0 == a.store().interner.map@.index_of(p));
    }
}
proof fn job_fits(a: GlobalState, b: GlobalState, t: Task)
    requires a.jobs_fit(), b.jobs() == a.jobs(), b.vfs == a.vfs, from_job(b, t),
    ensures task_fits(t, a), task_fits(t, b),
{ let i = choose|i: int| 0 <= i < b.jobs().len() && (#[trigger] b.jobs()[i])(t); assert((a.jobs()[i])(t)); assert(task_fits(t, a)); }
proof fn jobs_grown(a: GlobalState, m: GlobalState, u: GlobalState, g: GlobalState)
    requires u.docs_stored(), u.docs_small(), u.jobs_fit(), u.store().wf(), g == (GlobalState { task_pool: g.task_pool, ..u }), u.jobs() == m.jobs(), g.jobs() == u.jobs() || (g.jobs() == u.jobs().push(g.jobs().last()) && forall|t: Task| #[trigger] (g.jobs().last())(t) ==> u.diagnosed(t)),
    ensures g.docs_stored(), g.docs_small(), g.jobs_fit(), g.jobs() == u.jobs().push(g.jobs().last()) && (forall|t: Task| #[trigger] (g.jobs().last())(t) ==> u.diagnosed(t)) ==> one_report(m, g),
{
    assert forall|p: VfsPath| #[trigger] g.mem_docs.open().contains_key(p) implies g.store().file(p) is Some && valid_utf8(g.store().file(p)->0) && blen(g.doc_text(p)) <= u32::MAX by { assert(u.mem_docs.open().contains_key(p)); assert(g.doc_text(p) == u.doc_text(p)); }
    assert forall|i: int, t: Task| 0 <= i < g.jobs().len() && #[trigger] (g.jobs()[i])(t) implies task_fits(t, g) by {
        if i < u.jobs().len() { assert((u.jobs()[i])(t)); assert(task_fits(t, u)); } else { assert((g.jobs().last())(t)); diagnosed_same(u, g, t); diagnosed_fits(g, t); }
    }
    if g.jobs() == u.jobs().push(g.jobs().last()) && forall|t: Task| #[trigger] (g.jobs().last())(t) ==> u.diagnosed(t) {
        assert forall|t: Task| #[trigger] (g.jobs().last())(t) implies g.diagnosed(t) by { diagnosed_same(u, g, t); }
    }
}
/// the end of a turn says nothing of the jobs
proof fn turn_ends(m: GlobalState, g: GlobalState, b: GlobalState)
    requires g.docs_stored(), g.docs_small(), g.jobs_fit(), same_world(g, b), b.jobs() == g.jobs(), b.config == g.config,
    ensures b.docs_stored(), b.docs_small(), b.jobs_fit(), one_report(m, g) ==> one_report(m, b),
{
    assert forall|p: VfsPath| #[trigger] b.mem_docs.open().contains_key(p) implies b.store().file(p) is Some && valid_utf8(b.store().file(p)->0) && blen(b.doc_text(p)) <= u32::MAX by { assert(g.mem_docs.open().contains_key(p)); assert(b.doc_text(p) == g.doc_text(p)); }
    jobs_keep(g, b);
    if one_report(m, g) { assert forall|t: Task| #[trigger] (b.jobs().last())(t) implies b.diagnosed(t) by { assert((g.jobs().last())(t)); diagnosed_same(g, b, t); } }
}
/// the same files, the same documents
pub open spec fn same_world(a: GlobalState, b: GlobalState) -> bool {
    a.vfs == b.vfs && a.source_root_config == b.source_root_config && a.analysis_host == b.analysis_host && a.mem_docs == b.mem_docs
}
proof fn same_world_steady(a: GlobalState, b: GlobalState)
    requires a.steady(), same_world(a, b), b.diags_ready(), b.jobs() == a.jobs(),
    ensures b.steady(),
{ let base = choose|base: Base| #[trigger] a.synced(base); assert(b.synced(base)); same_files(a, b); }
/// what was told stays told
proof fn carry(a: GlobalState, b: GlobalState, whom: Seq<FileId>, s0: Seq<Message>, s: Seq<Message>)
    requires same_world(a, b), b.diagnostics.native@ == a.diagnostics.native@, b.diagnostics.check@ == a.diagnostics.check@, told_all(a, whom, s0, s),
    ensures told_all(b, whom, s0, s),
{ assert forall|i: int| 0 <= i < whom.len() implies publishes(b, s[s0.len() + i], #[trigger] whom[i]) by { assert(publishes(a, s[s0.len() + i], whom[i])); } }
proof fn same_nonlib(a: GlobalState, b: GlobalState, o: Seq<FileId>, n: int)
    requires same_world(a, b),
    ensures nonlib(a, o, n) == nonlib(b, o, n),
    decreases n,
{ if n > 0 { same_nonlib(a, b, o, n - 1); } }
/// one more message, for one more file
proof fn tell_one(a: GlobalState, b: GlobalState, whom: Seq<FileId>, s0: Seq<Message>, f: FileId)
    requires same_world(a, b), b.diagnostics.native@ == a.diagnostics.native@, b.diagnostics.check@ == a.diagnostics.check@, told_all(a, whom, s0, a.sent()),
        b.sent() == a.sent().push(b.sent().last()), publishes(b, b.sent().last(), f),
    ensures told_all(b, whom.push(f), s0, b.sent()),
{
    carry(a, b, whom, s0, a.sent());
    let w = whom.push(f);
    assert(b.sent().len() == a.sent().len() + 1);
    assert(b.sent().take(s0.len() as int) =~= a.sent().take(s0.len() as int));
    assert forall|i: int| 0 <= i < w.len() implies publishes(b, b.sent()[s0.len() + i], #[trigger] w[i]) by { if i < whom.len() { assert(publishes(b, a.sent()[s0.len() + i], whom[i])); } }
}
pub open spec fn settled_for(m: GlobalState, b: GlobalState, whom: Seq<FileId>) -> bool { whom.no_duplicates() && forall|f: FileId| #[trigger] whom.contains(f) <==> m.diagnostics.changes@.contains(f) && !b.library(f) }
/// one more answer, to who waits for it
proof fn answer_one(a: GlobalState, b: GlobalState, c: GlobalState, h: Heard, r: Response)
    requires tasks_done(a, b, h), c.answered(b, r),
    ensures tasks_done(a, c, h),
        a.sent() == b.sent() && a.pending().contains(r.id) && b.pending() == a.pending() ==> c.sent().len() > a.sent().len() && c.sent()[a.sent().len() as int] == Message::Response(r),
        c.sent().len() >= b.sent().len(), forall|i: int| 0 <= i < b.sent().len() ==> c.sent()[i] == #[trigger] b.sent()[i],
{
    let n = a.sent().len(); let nb = b.sent().len();
    assert(c.sent().take(n as int) =~= b.sent().take(n as int));
    assert forall|i: int| n <= i < c.sent().len() implies (#[trigger] c.sent()[i]) is Response && a.pending().contains(c.sent()[i]->Response_0.id) && !c.pending().contains(c.sent()[i]->Response_0.id) by { if i < nb { assert(c.sent()[i] == b.sent()[i]); } }
    assert forall|i: int, j: int| n <= i < j < c.sent().len() implies (#[trigger] c.sent()[i])->Response_0.id != (#[trigger] c.sent()[j])->Response_0.id by { if j < nb { assert(c.sent()[j] == b.sent()[j]); } assert(c.sent()[i] == b.sent()[i]); assert(!b.pending().contains(b.sent()[i]->Response_0.id)); }
    assert forall|id: RequestId| a.pending().contains(id) && !#[trigger] c.pending().contains(id) implies exists|i: int| n <= i < c.sent().len() && (#[trigger] c.sent()[i])->Response_0.id == id by {
        if b.pending().contains(id) { assert(c.sent()[nb as int]->Response_0.id == id); }
        else { let i = choose|i: int| n <= i < nb && (#[trigger] b.sent()[i])->Response_0.id == id; assert(c.sent()[i]->Response_0.id == id); }
    }
}
//@closure ml::GlobalState::handle_event/map#0 |VfsPath| Option<i32> ensures vx_r == self.version_of($0)
//@closure ml::GlobalState::handle_event/map#1 |&DocumentData| i32 ensures vx_r == $0.version
//@fn ml::GlobalState::handle_event ret=r
    requires old(self).steady(), event_fits(*old(self), event),
    ensures r is Ok,
        exists|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(*old(self), m, event, h) && settles(m, *final(self), whom) && ordered_report(*old(self), m, *final(self)),
        final(self).steady(),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at start
    let ghost a = *self; let ghost mut m = *self; let ghost e = event; let ghost mut h: Heard = Seq::empty(); let ghost mut turns: nat = 0;
    proof {
        assert forall|f: FileId| deqs(#[trigger] a.diagnostics.nat(f), latest(h, f, a.diagnostics.nat(f))) by { }
        assert(a.sent().take(a.sent().len() as int) =~= a.sent());
        assert(tasks_done(a, a, h));
    }
//@loop 0
    invariant_except_break from_job(*self, task), turns == 0 ==> task == e->Task_0 && *self == a && h.len() == 0,
    invariant a.steady(), e is Task, tasks_done(a, *self, h), turns > 0 ==> begun(e->Task_0, a, *self, h),
    ensures turns > 0,
//@at loopstart 0
    let ghost b = *self; let ghost h0 = h; let ghost t0 = task; let ghost fresh = turns == 0;
    proof { turns = turns + 1; job_fits(a, b, task); }
//@loop 1 next=vx_it:vx_vec_iter
    invariant a.steady(), e is Task, t0 is Diagnostics, vx_it_all == t0->Diagnostics_0@, vx_it.rest().len() <= vx_it_all.len(), vx_it.rest() == vx_it_all.skip(vx_it_all.len() - vx_it.rest().len()),
        task_fits(t0, a), tasks_done(a, *self, h), fresh ==> h.len() == vx_it_all.len() - vx_it.rest().len() && begins(h, vx_it_all.take(vx_it_all.len() - vx_it.rest().len())),
        !fresh ==> begun(e->Task_0, a, *self, h),
    ensures vx_it.rest().len() == 0,
    decreases vx_it.rest().len(),
//@at loopstart 1
    let ghost k = vx_it_all.len() - vx_it.rest().len() - 1; let ghost c = *self;
    proof { assert(vx_it_all.skip(k)[0] == (file_id, diagnostics)); assert(vx_it_all[k] == (file_id, diagnostics)); assert(vx_it_all.skip(k).skip(1) =~= vx_it_all.skip(k + 1)); assert(a.in_store(file_id)); }
//@at before_call try_recv 0
    proof {
        match t0 {
            Task::Response(r) => { answer_one(a, b, *self, h, r); if !fresh { match e->Task_0 { Task::Response(r0) => { assert(begun(e->Task_0, a, b, h)); if a.pending().contains(r0.id) { assert(self.sent()[a.sent().len() as int] == b.sent()[a.sent().len() as int]); } } _ => { } } } }
            Task::Diagnostics(v) => { assert(v@.take(v@.len() as int) =~= v@); }
        }
        if fresh { assert(begun(e->Task_0, a, *self, h)) by { match t0 { Task::Response(r) => { } Task::Diagnostics(v) => { assert(h.len() == v@.len()); assert(begins(h, v@)); } } } }
        else { assert(begun(e->Task_0, a, *self, h)); }
    }
//@at loopend 1
    proof {
        report_one(a, c, *self, h, file_id, vx_it_all[k].1@);
        let h1 = h; h = h.push((file_id, vx_it_all[k].1@));
        assert(self.sent() == c.sent() && self.pending() == c.pending());
        assert(*self == (GlobalState { diagnostics: self.diagnostics, ..c }));
        assert(reported(a, *self, h));
        assert(answering(a, c));
        assert(answering(a, *self));
        if fresh { assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] h[i]).0 == vx_it_all.take(k + 1)[i].0 && h[i].1 == vx_it_all.take(k + 1)[i].1@ by { if i < k { assert(h[i] == h1[i]); assert(vx_it_all.take(k)[i] == vx_it_all[i]); } } }
        else { match e->Task_0 { Task::Diagnostics(v) => { assert(begins(h1, v@)); assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] h[i]).0 == v@[i].0 && h[i].1 == v@[i].1@ by { assert(h[i] == h1[i]); } } _ => { } } }
    }
//@at before_call process_changes|mem_docs.take_changes 0
    proof {
        m = *self;
        assert(m.quiet() == a.quiet());
        match e {
            Event::Lsp(Message::Notification(not)) => { notification_keeps(a, m, not); }
            _ => { same_world_steady(a, m); }
        }
        assert(handled(a, m, e, h));
    }
//@at before_call process_changes 0
    proof { let base = choose|base: Base| #[trigger] m.synced(base); assert(self.synced(base)); }
//@at before_call is_quiescent 1
    let ghost u = *self;
    proof { same_files(m, u); }
//@at before_call diagnostics.take_changes 0
    let ghost g = *self; let ghost mut whom: Seq<FileId> = Seq::empty();
    proof {
        jobs_grown(a, m, u, g);
        assert(g.sent().take(g.sent().len() as int) =~= g.sent()); assert(whom.no_duplicates());
        assert forall|f: FileId| g.diagnostics.changes@ == Set::<FileId>::empty() implies !#[trigger] g.diagnostics.changes@.contains(f) by { }
    }
//@at end
    proof {
        let b = *self;
        assert(b.db() == g.db());
        assert(settled_for(m, b, whom));
        assert(told_all(b, whom, m.sent(), b.sent()));
        assert(b.synced(b.store().all_now()));
        turn_ends(m, g, b);
        assert(b.docs_stored());
        assert(settles(m, b, whom));
        assert(b.steady());
    }
//@loop 2 next=vx_fs:vx_set_items
    invariant vx_fs.rest().len() <= vx_fs_all.len(), vx_fs.rest() == vx_fs_all.skip(vx_fs_all.len() - vx_fs.rest().len()),
        vx_fs_all.no_duplicates(), forall|f: FileId| #![trigger vx_fs_all.contains(f)] #![trigger g.diagnostics.changes@.contains(f)] vx_fs_all.contains(f) <==> g.diagnostics.changes@.contains(f),
        *self == (GlobalState { sender: self.sender, diagnostics: self.diagnostics, ..g }),
        self.diagnostics.native@ == g.diagnostics.native@, self.diagnostics.check@ == g.diagnostics.check@, self.diagnostics.changes@ == Set::<FileId>::empty(),
        whom == nonlib(g, vx_fs_all, (vx_fs_all.len() - vx_fs.rest().len()) as int), told_all(*self, whom, g.sent(), self.sent()),
        vx_fs.rest().len() == 0 ==> settled_for(g, g, whom),
        g.synced(g.store().all_now()), forall|f: FileId| #[trigger] g.diagnostics.changes@.contains(f) ==> g.in_store(f),
    ensures settled_for(g, g, whom),
    decreases vx_fs.rest().len(),
//@at loopstart 2
    let ghost k = vx_fs_all.len() - vx_fs.rest().len() - 1; let ghost c = *self; let ghost w0 = whom;
    proof {
        assert(vx_fs_all.skip(k)[0] == file_id); assert(vx_fs_all[k] == file_id); assert(vx_fs_all.skip(k).skip(1) =~= vx_fs_all.skip(k + 1));
        assert(vx_fs_all.contains(file_id));
        assert(at(g.store().all_now(), file_id.0 as int) is Some);
        whom = nonlib(g, vx_fs_all, k + 1);
        nonlib_is(g, vx_fs_all, k + 1);
        if k + 1 == vx_fs_all.len() as int { assert(vx_fs_all.take(k + 1) =~= vx_fs_all); }
        g.store().interner.at(file_id.0 as int);
        assert(g.store().knows(g.store().path(file_id.0 as int)));
    }
//@at loopend 2
    proof { if !g.library(file_id) { assert(publishes(*self, self.sent().last(), file_id)); tell_one(c, *self, w0, g.sent(), file_id); } }
//@endfn
}
fn main() {}

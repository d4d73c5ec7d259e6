// ---- turnspec.rs: what a turn of the main loop makes of the server's state ----
verus! {
//@file ml crates/move_language_server/src/main_loop.rs
//@type ml::Event derive=
/// what a task of the pool may say: diagnostics of files that were given to it, which the store never drops
pub open spec fn task_fits(t: Task, g: GlobalState) -> bool {
    match t { Task::Response(_) => true, Task::Diagnostics(v) => forall|i: int| 0 <= i < v@.len() ==> g.in_store((#[trigger] v@[i]).0) }
}
/// a task some job given to the pool may report
pub open spec fn from_job(g: GlobalState, t: Task) -> bool { exists|i: int| 0 <= i < g.jobs().len() && (#[trigger] g.jobs()[i])(t) }
/// the client is told these diagnostics
pub open spec fn told<N: NotificationKind>(m: Message, p: N::Params) -> bool { m is Notification && is_a::<N>(m->Notification_0) && well_formed::<N>(m->Notification_0) && said::<N>(m->Notification_0) == p }
impl GlobalState {
    pub open spec fn in_store(&self, f: FileId) -> bool { self.store().now(f.0 as int) is Some }
    /// what is to be published is of files in the store
    pub open spec fn diags_ready(&self) -> bool { self.diagnostics.wf() && forall|f: FileId| #[trigger] self.diagnostics.changes@.contains(f) ==> self.in_store(f) }
    /// what the pool reports is of files in the store
    pub open spec fn jobs_fit(&self) -> bool { forall|i: int, t: Task| 0 <= i < self.jobs().len() && #[trigger] (self.jobs()[i])(t) ==> task_fits(t, *self) }
    /// the client's files are loaded
    pub open spec fn quiet(&self) -> bool { !(self.vfs_progress_config_version < self.vfs_config_version || self.vfs_progress_n_done < self.vfs_progress_n_total) }
    /// between turns
    pub open spec fn steady(&self) -> bool { (exists|base: Base| #[trigger] self.synced(base)) && self.docs_stored() && self.docs_small() && self.diags_ready() && self.jobs_fit() }
    pub open spec fn library(&self, f: FileId) -> bool { self.db().roots[self.db().root_of[f]].is_library }
    /// the version last announced of an open document
    pub open spec fn version_of(&self, p: VfsPath) -> Option<i32> { if self.mem_docs.open().contains_key(p) { Some(self.mem_docs.open()[p].version) } else { None } }
}
pub open spec fn event_fits(a: GlobalState, e: Event) -> bool {
    match e { Event::Lsp(Message::Notification(n)) => acceptable(a, n) && (is_a::<DidOpen>(n) ==> blen(said::<DidOpen>(n).text_document.text@) <= u32::MAX), Event::Task(t) => from_job(a, t), _ => true }
}
/// P19: a request is answered, once
pub open spec fn request_served(a: GlobalState, b: GlobalState, req: Request) -> bool {
    &&& one_more(a.sent(), b.sent(), req.id, verdict(a.shutdown_requested, req))
    &&& b.pending() == a.pending().remove(req.id)
    &&& b.shutdown_requested == (a.shutdown_requested || verdict(false, req) is Ok)
    &&& b == (GlobalState { sender: b.sender, req_queue: b.req_queue, shutdown_requested: b.shutdown_requested, ..a })
}
/// P19: only pending requests are answered, each once, and they are pending no more
pub open spec fn answering(a: GlobalState, b: GlobalState) -> bool {
    let n = a.sent().len();
    &&& n <= b.sent().len() && b.sent().take(n as int) == a.sent()
    &&& forall|id: RequestId| #[trigger] b.pending().contains(id) ==> a.pending().contains(id)
    &&& forall|i: int| n <= i < b.sent().len() ==> (#[trigger] b.sent()[i]) is Response && a.pending().contains(b.sent()[i]->Response_0.id) && !b.pending().contains(b.sent()[i]->Response_0.id)
    &&& forall|i: int, j: int| n <= i < j < b.sent().len() ==> (#[trigger] b.sent()[i])->Response_0.id != (#[trigger] b.sent()[j])->Response_0.id
    &&& forall|id: RequestId| a.pending().contains(id) && !#[trigger] b.pending().contains(id) ==> exists|i: int| n <= i < b.sent().len() && (#[trigger] b.sent()[i])->Response_0.id == id
}
/// the diagnostics reported so far, in order
pub type Heard = Seq<(FileId, Seq<Diagnostic>)>;
/// the last ones reported for a file
pub open spec fn latest(h: Heard, f: FileId, orig: Seq<Diagnostic>) -> Seq<Diagnostic> decreases h.len() {
    if h.len() == 0 { orig } else if h.last().0 == f { h.last().1 } else { latest(h.drop_last(), f, orig) }
}
/// P15: each file has the diagnostics last reported for it, and is to be published if that is news
pub open spec fn reported(a: GlobalState, b: GlobalState, h: Heard) -> bool {
    &&& b.diags_ready() && b.diagnostics.check@ == a.diagnostics.check@
    &&& forall|f: FileId| deqs(#[trigger] b.diagnostics.nat(f), latest(h, f, a.diagnostics.nat(f)))
    &&& forall|f: FileId| #[trigger] a.diagnostics.changes@.contains(f) ==> b.diagnostics.changes@.contains(f)
    &&& forall|f: FileId| b.diagnostics.changes@.contains(f) || deqs(#[trigger] b.diagnostics.shown(f), a.diagnostics.shown(f))
}
pub open spec fn begins(h: Heard, v: Seq<(FileId, Vec<Diagnostic>)>) -> bool { h.len() >= v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] h[i]).0 == v[i].0 && h[i].1 == v[i].1@ }
/// what the first task said has its place
pub open spec fn begun(t: Task, a: GlobalState, b: GlobalState, h: Heard) -> bool {
    match t {
        Task::Response(r) => a.pending().contains(r.id) ==> b.sent().len() > a.sent().len() && b.sent()[a.sent().len() as int] == Message::Response(r),
        Task::Diagnostics(v) => begins(h, v@),
    }
}
pub open spec fn tasks_done(a: GlobalState, b: GlobalState, h: Heard) -> bool {
    b == (GlobalState { sender: b.sender, req_queue: b.req_queue, diagnostics: b.diagnostics, ..a }) && answering(a, b) && reported(a, b, h)
}
/// what the event makes of the state
pub open spec fn handled(a: GlobalState, b: GlobalState, e: Event, h: Heard) -> bool {
    match e {
        Event::Lsp(Message::Request(req)) => request_served(a, b, req),
        Event::Lsp(Message::Notification(not)) => noted(a, b, not),
        Event::Lsp(Message::Response(_)) => b == (GlobalState { req_queue: b.req_queue, ..a }) && b.pending() == a.pending(),
        Event::Task(t) => tasks_done(a, b, h) && begun(t, a, b, h),
    }
}
/// P15, P16: the client is told what is shown for the file, and which version of it
pub open spec fn publishes(g: GlobalState, m: Message, f: FileId) -> bool {
    exists|p: lsp_types::PublishDiagnosticsParams| #[trigger] told::<lsp_types::notification::PublishDiagnostics>(m, p) && url_path(p.uri) == Some(g.store().path(f.0 as int))
        && p.diagnostics@ == g.diagnostics.shown(f) && p.version == g.version_of(g.store().path(f.0 as int))
}
/// after s0, one message for each of `whom`
pub open spec fn told_all(g: GlobalState, whom: Seq<FileId>, s0: Seq<Message>, s: Seq<Message>) -> bool {
    s.len() == s0.len() + whom.len() && s.take(s0.len() as int) == s0 && forall|i: int| 0 <= i < whom.len() ==> publishes(g, s[s0.len() + i], #[trigger] whom[i])
}
/// from after the event to the end of the turn
pub open spec fn settles(m: GlobalState, b: GlobalState, whom: Seq<FileId>) -> bool {
    &&& b.synced(b.store().all_now()) && b.docs_stored() && b.diagnostics.wf()
    &&& b.store().data == m.store().data && b.store().interner == m.store().interner
    &&& b.mem_docs.open() == m.mem_docs.open() && !b.mem_docs.touched()
    &&& b.pending() == m.pending() && b.shutdown_requested == m.shutdown_requested
    &&& b.diagnostics.native@ == m.diagnostics.native@ && b.diagnostics.check@ == m.diagnostics.check@ && b.diagnostics.changes@ == Set::<FileId>::empty()
    &&& b.config == m.config
    // P15: one message for each file whose diagnostics changed, saying what is shown now
    &&& whom.no_duplicates() && forall|f: FileId| #[trigger] whom.contains(f) <==> m.diagnostics.changes@.contains(f) && !b.library(f)
    &&& told_all(b, whom, m.sent(), b.sent())
}
/// P06, P15: when files or documents changed, one more job reports on the documents there are now
pub open spec fn ordered_report(a: GlobalState, m: GlobalState, b: GlobalState) -> bool {
    if b.quiet() && (!a.quiet() || m.store().log().len() > 0 || m.mem_docs.touched()) { one_report(m, b) } else { b.jobs() == m.jobs() }
}
pub open spec fn one_report(m: GlobalState, b: GlobalState) -> bool { b.jobs() == m.jobs().push(b.jobs().last()) && forall|t: Task| #[trigger] (b.jobs().last())(t) ==> b.diagnosed(t) }
}

//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include pathsapi.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@include vfsapi.rs
//@include lf.rs
//@include utf8.rs
mod lsp_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include lsptypes_body.rs
//@include lspmsgs.rs
}
//@include textpos.rs
//@include posspec.rs
//@include docspec.rs
//@include diagspec.rs
//@include memdocsspec.rs
//@include lspserver.rs
//@include configspec.rs
//@include absorbspec.rs
//@include absorblemmas.rs
//@include servespec.rs
//@include publishspec.rs
//@include turnspec.rs
//@include sessionspec.rs
//@file ml crates/move_language_server/src/main_loop.rs
//@file gs crates/move_language_server/src/global_state.rs
//@file rl crates/move_language_server/src/reload.rs
//@file an crates/ide/src/lib.rs
//@include turnapi.rs
//@include onerootapi.rs
//@include sendapi.rs
//@include poolapi.rs
//@strip crate vfs lsp_ext
//@dropmacro error warn trace info
//@shim .into -> vx_into -
//@shim .to_string -> vx_to_string &
//@shim .to_vec -> vx_to_vec_of
//@shim .iter.map.collect -> vx_map_collect &
//@retype Receiver<lsp_server::Message> => VxInbox
//@retype &Receiver<lsp_server::Message> => &VxInbox
//@retype ReqHandler => VxHandler
//@retype lsp_server::Connection => VxConnection
//@closure spawn_with_sender#0 |Sender<Task>| () ensures true
//@closure collect#0 |&LinkedProject| ProjectWorkspace ensures true
//@subst R::METHOD =>> R::vx_method()
//@subst not.method == lsp_types::notification::Exit::METHOD =>> vx_str_eq(&not.method, lsp_types::notification::Exit::vx_method())
//@subst |_, _| () =>> vx_ignore()
//@subst Event::Lsp =>> vx_event_lsp
//@subst serde_json::to_value(save_registration_options).unwrap() =>> vx_value(save_registration_options)
//@subst Handle { handle, receiver } =>> VxPool { handle, receiver }
//@subst Default::default() =>> vx_no_diagnostics()
//@subst Arc::new(RwLock::new((vfs::Vfs::default(), FxHashMap::default()))) =>> vx_new_store()
//@shimfn ReqQueue::default -> vx_new_queue
//@shimfn unbounded -> vx_channel
//@shimfn MemDocs::default -> vx_no_documents
//@shimfn SourceRootConfig::default -> vx_one_root
verus! {
broadcast use {vx_str_fits, vset::indexset_distinct};
global size_of usize == 8;
use lsp_types::Url;
pub trait VxInto<T>: Sized { spec fn into_spec(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.into_spec(); }
impl VxInto<Message> for Request { open spec fn into_spec(self) -> Message { Message::Request(self) } fn vx_into(self) -> (r: Message) { Message::Request(self) } }
pub uninterp spec fn owned(s: &'static str) -> String;
impl VxInto<String> for &'static str { open spec fn into_spec(self) -> String { owned(self) } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
pub fn vx_into<T, S: VxInto<T>>(s: S) -> (r: T) ensures r == s.into_spec() { s.vx_into() }
#[verifier::external_body]
pub fn vx_to_string<T: ?Sized>(s: &T) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec_of<T>(s: &[T]) -> Vec<T> { unimplemented!() }
#[verifier::external_body]
pub fn vx_map_collect<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> Vec<B> requires forall|x: &A| call_requires(f, (x,)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_value<T>(t: T) -> (r: Value) ensures parsed::<T>(r) == Some(t) { unimplemented!() }
// ---- what the server asks of the client, and its projects (no part of any claim) ----
impl VxOutgoing {
    #[verifier::external_body]
    pub fn register<P>(&mut self, method: String, params: P, h: VxHandler) -> Request { unimplemented!() }
}
#[verifier::external_body]
pub struct ProjectManifest { p: usize }
impl Clone for ProjectManifest { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub struct LinkedProject { pub manifest: ProjectManifest }
impl ProjectWorkspace {
    #[verifier::external_body]
    pub fn load(m: ProjectManifest) -> ProjectWorkspace { unimplemented!() }
    #[verifier::external_body]
    pub fn load_detached_files(f: Vec<AbsPathBuf>) -> ProjectWorkspace { unimplemented!() }
}
impl Config {
    #[verifier::external_body]
    pub fn linked_projects(&self) -> Vec<LinkedProject> { unimplemented!() }
    #[verifier::external_body]
    pub fn detached_files(&self) -> &[AbsPathBuf] { unimplemented!() }
    #[verifier::external_body]
    pub fn did_save_text_document_dynamic_registration(&self) -> bool { unimplemented!() }
}
// ---- channels and threads (TRUSTED) ----
/// what comes from the client
#[verifier::external_body]
pub struct VxInbox { i: usize }
pub fn vx_event_lsp(m: Message) -> (r: Event) ensures r == Event::Lsp(m) { Event::Lsp(m) }
pub enum VxPick<A, B> { C0(A), C1(B) }
/// TRUSTED: the client keeps to the protocol, and the pool's channel has the tasks of the jobs and no others
#[verifier::external_body]
pub fn vx_select(g: &GlobalState, a: &VxInbox, b: &VxTasks) -> (r: VxPick<core::result::Result<Message, ()>, core::result::Result<Task, ()>>)
    ensures match r { VxPick::C0(m) => m is Ok ==> event_fits(*g, Event::Lsp(m->Ok_0)), VxPick::C1(t) => t is Ok && event_fits(*g, Event::Task(t->Ok_0)) } { unimplemented!() }
#[verifier::external_body]
pub fn vx_channel() -> (Sender<Task>, VxTasks) { unimplemented!() }
pub struct VxConnection { pub sender: VxSender, pub receiver: VxInbox }
// ---- derived defaults (TRUSTED: each field has its default) ----
#[verifier::external_body]
pub fn vx_new_queue() -> (r: ReqQueue) ensures r.incoming.pending@ == Map::<RequestId, (String, Instant)>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_diagnostics() -> (r: DiagnosticCollection) ensures r.native@ == Map::<FileId, Vec<Diagnostic>>::empty(), r.check@ == Map::<FileId, Vec<Diagnostic>>::empty(), r.changes@ == Set::<FileId>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_documents() -> (r: MemDocs) ensures r.mem_docs@ == Map::<VfsPath, DocumentData>::empty(), !r.added_or_removed { unimplemented!() }
#[verifier::external_body]
pub fn vx_new_store() -> (r: VxLock) ensures r.x.0.interner.map@.len() == 0, r.x.0.data@.len() == 0, r.x.0.changes@.len() == 0 { unimplemented!() }
pub fn vx_one_root() -> (r: SourceRootConfig) ensures r.fsc.wf(), r.fsc.n_file_sets == 1 { SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: Vec::new() } }
impl RootDatabase {
    #[verifier::external_body]
    pub fn new(cap: Option<usize>) -> (r: RootDatabase) ensures r@.text == Map::<FileId, Seq<char>>::empty(), r@.root_of == Map::<FileId, SourceRootId>::empty(), r@.roots == Map::<SourceRootId, SourceRoot>::empty() { unimplemented!() }
}
//@fn an::AnalysisHost::new ret=r
    ensures r.db@.text == Map::<FileId, Seq<char>>::empty(), r.db@.root_of == Map::<FileId, SourceRootId>::empty(),
//@endfn
// ---- P19 ----
proof fn no_answers(a: Seq<Message>, b: Seq<Message>)
    requires a.len() <= b.len(), b.take(a.len() as int) == a, forall|i: int| a.len() <= i < b.len() ==> !((#[trigger] b[i]) is Response),
    ensures answers(b) == answers(a),
    decreases b.len() - a.len(),
{
    if a.len() < b.len() {
        assert(b.drop_last().take(a.len() as int) =~= a);
        no_answers(a, b.drop_last());
    } else { assert(b.take(a.len() as int) =~= b); }
}
proof fn turn_serves(a: GlobalState, b: GlobalState, ev: Seq<Event>, e: Event)
    requires served(a, ev), turned(a, b, e),
    ensures served(b, ev.push(e)),
{
    let (m, h, whom) = choose|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(a, m, e, h) && settles(m, b, whom) && ordered_report(a, m, b);
    let ew = ev.push(e);
    assert(ew.drop_last() =~= ev);
    assert forall|i: int| m.sent().len() <= i < b.sent().len() implies !((#[trigger] b.sent()[i]) is Response) by {
        let k = i - m.sent().len();
        assert(publishes(b, b.sent()[m.sent().len() + k], whom[k]));
    }
    no_answers(m.sent(), b.sent());
    match e {
        Event::Lsp(Message::Request(r)) => {
            let r0 = m.sent().last()->Response_0;
            assert(m.sent().drop_last() =~= a.sent());
            assert(answers(m.sent()) == answers(a.sent()).push(r0));
            assert(due(ew) == due(ev).push((r.id, verdict(shut(ev), r))));
            assert(m.pending() =~= Set::<RequestId>::empty());
            assert forall|i: int| 0 <= i < due(ew).len() implies (#[trigger] answers(b.sent())[i]).id == due(ew)[i].0 && says(answers(b.sent())[i], due(ew)[i].1) by {
                if i < due(ev).len() { assert(answers(b.sent())[i] == answers(a.sent())[i]); }
            }
        }
        Event::Lsp(Message::Notification(not)) => { assert(m.pending() =~= a.pending()); assert(m.sent() == a.sent()); }
        Event::Lsp(Message::Response(_)) => { assert(m.sent() == a.sent()); }
        Event::Task(t) => {
            if m.sent().len() > a.sent().len() { let i = a.sent().len() as int; assert(a.pending().contains(m.sent()[i]->Response_0.id)); }
            assert(m.sent() =~= a.sent()) by { assert(m.sent().take(a.sent().len() as int) =~= m.sent()); }
            assert(m.pending() =~= a.pending()) by { assert forall|id: RequestId| !#[trigger] m.pending().contains(id) by { } }
        }
    }
}
// ---- P16, P09, P20 ----
proof fn turn_tracks(a: GlobalState, b: GlobalState, ev: Seq<Event>, e: Event)
    requires tracked(a, ev), turned(a, b, e),
    ensures tracked(b, ev.push(e)),
{
    let (m, h, whom) = choose|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(a, m, e, h) && settles(m, b, whom) && ordered_report(a, m, b);
    let ew = ev.push(e);
    assert(ew.drop_last() =~= ev);
    assert(b.mem_docs.open() == m.mem_docs.open());
    match e { Event::Lsp(Message::Notification(not)) => { } _ => { assert(m.mem_docs == a.mem_docs); } }
    let (o, d) = (a.mem_docs.open(), documents(ev));
    assert forall|p: VfsPath| #![trigger b.mem_docs.open().contains_key(p)] #![trigger documents(ew).contains_key(p)]
        (b.mem_docs.open().contains_key(p) <==> documents(ew).contains_key(p)) && (documents(ew).contains_key(p) ==> b.mem_docs.open()[p].version == documents(ew)[p]) by {
        assert(o.contains_key(p) <==> d.contains_key(p));
        match event_says(e) { Said::Change(q, _, _) => { assert(o.contains_key(q) <==> d.contains_key(q)); } _ => { } }
    }
}
proof fn turn_holds(a: GlobalState, b: GlobalState, ev: Seq<Event>, e: Event)
    requires holds_texts(a, ev), tracked(a, ev), a.steady(), turned(a, b, e), event_fits(a, e),
    ensures holds_texts(b, ev.push(e)),
{
    let (m, h, whom) = choose|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(a, m, e, h) && settles(m, b, whom) && ordered_report(a, m, b);
    let ew = ev.push(e);
    assert(ew.drop_last() =~= ev);
    let t = texts(ev);
    match e { Event::Lsp(Message::Notification(not)) => { } _ => { assert(m.vfs == a.vfs); } }
    assert forall|p: VfsPath| #![trigger b.store().file(p)] #![trigger texts(ew).contains_key(p)] b.store().file(p) == (if texts(ew).contains_key(p) { Some(encode_utf8(texts(ew)[p])) } else { None }) by {
        assert(b.store().file(p) == m.store().file(p));
        assert(a.store().file(p) == (if t.contains_key(p) { Some(encode_utf8(t[p])) } else { None }));
        match event_says(e) {
            Said::Change(q, _, c) => {
                assert(a.mem_docs.open().contains_key(q) <==> documents(ev).contains_key(q));
                if documents(ev).contains_key(q) {
                    assert(a.store().file(q) is Some);
                    assert(t.contains_key(q));
                    encode_utf8_decode_utf8(t[q]);
                    assert(a.text_of(q) == t[q]);
                }
            }
            _ => { }
        }
    }
}
proof fn turn_analyses(b: GlobalState, ev: Seq<Event>)
    requires holds_texts(b, ev), b.synced(b.store().all_now()),
    ensures analysed(b, ev),
{
    let v = b.store();
    assert forall|p: VfsPath| #[trigger] texts(ev).contains_key(p) implies v.knows(p) && b.db().text.contains_key(v.id(p)) && b.db().text[v.id(p)] == lf(texts(ev)[p])
        && housed(b.source_root_config, p, v.id(p), b.db()) by {
        let t = texts(ev)[p];
        assert(v.file(p) == Some(encode_utf8(t)));
        let k = v.interner.map@.index_of(p); let f = v.id(p);
        assert(v.knows(p));
        assert(v.interner.map@[k] == p);
        assert(f.0 == k);
        assert(v.now(k) == v.file(p));
        assert(at(v.all_now(), k) == Some(encode_utf8(t)));
        assert(settled(b.source_root_config, v.path(k), f, at(v.all_now(), k), b.db()));
        encode_utf8_valid_utf8(t);
        encode_utf8_decode_utf8(t);
    }
}
// ---- P15 ----
/// messages that publish nothing for a file leave what the client shows of it
proof fn no_news(a: Seq<Message>, b: Seq<Message>, p: VfsPath)
    requires a.len() <= b.len(), b.take(a.len() as int) == a, forall|i: int| a.len() <= i < b.len() ==> !publishes_for(#[trigger] b[i], p),
    ensures view(b, p) == view(a, p),
    decreases b.len() - a.len(),
{
    if a.len() < b.len() {
        assert(b.drop_last().take(a.len() as int) =~= a);
        no_news(a, b.drop_last(), p);
    } else { assert(b.take(a.len() as int) =~= b); }
}
/// the last message for a file is what the client shows
proof fn news(b: Seq<Message>, i: int, p: VfsPath)
    requires 0 <= i < b.len(), publishes_for(b[i], p), forall|j: int| i < j < b.len() ==> !publishes_for(#[trigger] b[j], p),
    ensures view(b, p) == said::<Publish>(b[i]->Notification_0).diagnostics@,
{
    let u = b.take(i + 1);
    assert(u.last() == b[i]);
    no_news(u, b, p);
}
/// what the turn publishes: for each file of `whom`, what is shown of it, and nothing for another path
proof fn turn_news(g: GlobalState, whom: Seq<FileId>, s0: Seq<Message>, s: Seq<Message>, p: VfsPath)
    requires g.store().wf(), told_all(g, whom, s0, s), whom.no_duplicates(), forall|i: int| 0 <= i < whom.len() ==> (#[trigger] whom[i]).0 < g.store().data@.len(),
    ensures
        (forall|i: int| 0 <= i < whom.len() ==> g.store().path((#[trigger] whom[i]).0 as int) != p) ==> view(s, p) == view(s0, p),
        forall|i: int| 0 <= i < whom.len() && g.store().path((#[trigger] whom[i]).0 as int) == p ==> view(s, p) == g.diagnostics.shown(whom[i]),
{
    let v = g.store(); let n = s0.len() as int;
    assert forall|j: int| n <= j < s.len() implies (publishes_for(#[trigger] s[j], p) <==> v.path(whom[j - n].0 as int) == p) && (publishes_for(s[j], p) ==> said::<Publish>(s[j]->Notification_0).diagnostics@ == g.diagnostics.shown(whom[j - n])) by {
        assert(publishes(g, s[n + (j - n)], whom[j - n]));
    }
    if forall|i: int| 0 <= i < whom.len() ==> v.path((#[trigger] whom[i]).0 as int) != p {
        assert forall|j: int| n <= j < s.len() implies !publishes_for(#[trigger] s[j], p) by { assert(v.path(whom[j - n].0 as int) != p); }
        no_news(s0, s, p);
    }
    assert forall|i: int| 0 <= i < whom.len() && v.path((#[trigger] whom[i]).0 as int) == p implies view(s, p) == g.diagnostics.shown(whom[i]) by {
        let k = n + i;
        assert(publishes_for(s[k], p));
        assert forall|j: int| k < j < s.len() implies !publishes_for(#[trigger] s[j], p) by {
            let x = whom[j - n];
            if v.path(x.0 as int) == p { v.interner.at(x.0 as int); v.interner.at(whom[i].0 as int); assert(x == whom[i]); }
        }
        news(s, k, p);
    }
}
/// an event publishes nothing
proof fn event_no_news(a: GlobalState, m: GlobalState, e: Event, h: Heard, p: VfsPath)
    requires handled(a, m, e, h),
    ensures view(m.sent(), p) == view(a.sent(), p),
{
    match e {
        Event::Lsp(Message::Request(r)) => { assert(m.sent().take(a.sent().len() as int) =~= a.sent()); no_news(a.sent(), m.sent(), p); }
        Event::Lsp(Message::Notification(not)) => {
            if is_a::<Cancel>(not) { assert(m.sent().take(a.sent().len() as int) =~= a.sent()); no_news(a.sent(), m.sent(), p); } else { assert(m.sent() == a.sent()); }
        }
        Event::Lsp(Message::Response(_)) => { }
        Event::Task(_) => { no_news(a.sent(), m.sent(), p); }
    }
}
/// an event leaves every file its path and its number
proof fn event_keeps_paths(a: GlobalState, m: GlobalState, e: Event, h: Heard)
    requires a.steady(), handled(a, m, e, h),
    ensures m.store().wf(), a.store().data@.len() <= m.store().data@.len(), forall|f: int| 0 <= f < a.store().data@.len() ==> #[trigger] m.store().path(f) == a.store().path(f),
{
    match e {
        Event::Lsp(Message::Notification(not)) => {
            match says_of(not) {
                Said::Open(p, _, t) => { keeps_place(a.store(), m.store(), p, Some(encode_utf8(t)), kind_of(a.store().file(p), Some(encode_utf8(t))) is Some); }
                Said::Change(p, _, c) => if a.mem_docs.open().contains_key(p) {
                    let t = run(a.text_of(p), c, c.len() as int);
                    keeps_place(a.store(), m.store(), p, Some(encode_utf8(t)), kind_of(a.store().file(p), Some(encode_utf8(t))) is Some);
                } else { assert(m.vfs == a.vfs); },
                _ => { assert(m.vfs == a.vfs); }
            }
        }
        _ => { assert(m.vfs == a.vfs); }
    }
}
proof fn turn_mirrors(a: GlobalState, b: GlobalState, libs: spec_fn(FileId) -> bool, e: Event)
    requires mirrored(a, libs), a.steady(), turned(a, b, e),
    ensures mirrored(b, libs_more(libs, b)),
{
    let (m, h, whom) = choose|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(a, m, e, h) && settles(m, b, whom) && ordered_report(a, m, b);
    event_keeps_paths(a, m, e, h);
    let lw = libs_more(libs, b); let n = a.store().data@.len(); let v = b.store();
    assert(v.wf());
    match e { Event::Task(_) => { } _ => { assert(m.diagnostics == a.diagnostics); } }
    assert forall|f: FileId| #[trigger] b.diagnostics.shown(f) == m.diagnostics.shown(f) by { }
    // what is not to be published is as it was
    assert forall|f: FileId| !#[trigger] m.diagnostics.changes@.contains(f) implies deqs(m.diagnostics.shown(f), a.diagnostics.shown(f)) by { }
    assert forall|f: FileId| #[trigger] m.diagnostics.changes@.contains(f) implies f.0 < v.data@.len() && f.0 < n by { match e { Event::Task(_) => { assert(m.in_store(f)); } _ => { } } }
    assert forall|i: int| 0 <= i < whom.len() implies (#[trigger] whom[i]).0 < v.data@.len() && whom[i].0 < n by { assert(whom.contains(whom[i])); }
    assert forall|f: FileId| v.data@.len() <= f.0 implies deqs(#[trigger] b.diagnostics.shown(f), Seq::empty()) by { assert(!m.diagnostics.changes@.contains(f)); assert(deqs(a.diagnostics.shown(f), Seq::empty())); }
    assert forall|p: VfsPath| !#[trigger] v.knows(p) implies view(b.sent(), p) == Seq::<Diagnostic>::empty() by {
        turn_news(b, whom, m.sent(), b.sent(), p);
        event_no_news(a, m, e, h, p);
        if a.store().knows(p) { let k = a.store().interner.map@.index_of(p); assert(v.path(k) == m.store().path(k)); assert(v.interner.map@.contains(p)); }
        assert forall|i: int| 0 <= i < whom.len() implies v.path((#[trigger] whom[i]).0 as int) != p by { assert(v.knows(v.path(whom[i].0 as int))); }
    }
    assert forall|f: FileId| f.0 < v.data@.len() && !lw(f) implies deqs(view(b.sent(), v.path(f.0 as int)), #[trigger] b.diagnostics.shown(f)) by {
        let p = v.path(f.0 as int);
        turn_news(b, whom, m.sent(), b.sent(), p);
        event_no_news(a, m, e, h, p);
        if m.diagnostics.changes@.contains(f) {
            assert(whom.contains(f)); let i = whom.index_of(f); assert(whom[i] == f);
        } else {
            assert(!whom.contains(f));
            assert forall|i: int| 0 <= i < whom.len() implies v.path((#[trigger] whom[i]).0 as int) != p by {
                assert(whom.contains(whom[i]));
                if v.path(whom[i].0 as int) == p { v.interner.at(f.0 as int); v.interner.at(whom[i].0 as int); assert(whom[i] == f); }
            }
            assert(view(b.sent(), p) == view(a.sent(), p));
            assert(deqs(m.diagnostics.shown(f), a.diagnostics.shown(f)));
            if f.0 < n { assert(v.path(f.0 as int) == m.store().path(f.0 as int)); assert(m.store().path(f.0 as int) == a.store().path(f.0 as int)); assert(a.store().path(f.0 as int) == p); assert(deqs(view(a.sent(), p), a.diagnostics.shown(f))); }
            else {
                assert(deqs(a.diagnostics.shown(f), Seq::empty()));
                if a.store().knows(p) { let k = a.store().interner.map@.index_of(p); assert(v.path(k) == p); v.interner.at(k); v.interner.at(f.0 as int); }
            }
        }
    }
}
proof fn turn_in_session(a: GlobalState, b: GlobalState, ev: Seq<Event>, libs: spec_fn(FileId) -> bool, e: Event)
    requires in_session(a, ev, libs), a.steady(), turned(a, b, e), event_fits(a, e),
    ensures in_session(b, ev.push(e), libs_more(libs, b)),
{
    turn_serves(a, b, ev, e);
    turn_tracks(a, b, ev, e);
    turn_holds(a, b, ev, e);
    assert(b.synced(b.store().all_now()));
    turn_analyses(b, ev.push(e));
    turn_mirrors(a, b, libs, e);
}
/// what the server asks of the client, and of the pool, changes nothing of the session
proof fn asks(a: GlobalState, b: GlobalState, ev: Seq<Event>, libs: spec_fn(FileId) -> bool)
    requires in_session(a, ev, libs), a.steady(), b == (GlobalState { sender: b.sender, req_queue: b.req_queue, task_pool: b.task_pool, ..a }), b.jobs() == a.jobs(), b.pending() == a.pending(),
        b.sent() == a.sent() || b.sent() == a.sent().push(b.sent().last()) && b.sent().last() is Request,
    ensures in_session(b, ev, libs), b.steady(),
{
    assert(b.sent().take(a.sent().len() as int) =~= a.sent());
    no_answers(a.sent(), b.sent());
    assert forall|p: VfsPath| view(b.sent(), p) == #[trigger] view(a.sent(), p) by { no_news(a.sent(), b.sent(), p); }
    assert(holds_texts(b, ev)) by { assert forall|p: VfsPath| #![trigger b.store().file(p)] #![trigger texts(ev).contains_key(p)] b.store().file(p) == (if texts(ev).contains_key(p) { Some(encode_utf8(texts(ev)[p])) } else { None }) by { assert(a.store().file(p) == b.store().file(p)); } }
    let base = choose|base: Base| #[trigger] a.synced(base);
    assert(b.synced(base));
}
/// at the start
proof fn begins_session(g: GlobalState)
    requires g.fresh(),
    ensures in_session(g, Seq::empty(), |f: FileId| false), g.steady(),
{
    start_is_synced(g);
}
impl GlobalState {
    /// nothing asked, said, stored or shown
    pub open spec fn fresh(&self) -> bool {
        &&& self.sent().len() == 0 && self.pending() == Set::<RequestId>::empty() && !self.shutdown_requested && self.jobs().len() == 0
        &&& self.mem_docs.open() == Map::<VfsPath, DocumentData>::empty()
        &&& self.store().interner.map@.len() == 0 && self.store().data@.len() == 0 && self.store().log().len() == 0
        &&& self.db().text == Map::<FileId, Seq<char>>::empty() && self.db().root_of == Map::<FileId, SourceRootId>::empty()
        &&& self.diagnostics.native@ == Map::<FileId, Vec<Diagnostic>>::empty() && self.diagnostics.check@ == Map::<FileId, Vec<Diagnostic>>::empty() && self.diagnostics.changes@ == Set::<FileId>::empty()
        &&& self.source_root_config.fsc.wf() && self.source_root_config.fsc.n_file_sets <= u32::MAX
    }
}
//@fn gs::GlobalState::new ret=r
    requires sender.log@.len() == 0,
    ensures r.fresh(), *r.config == config,
//@endfn
//@fn gs::GlobalState::send_request
//@where R: lsp_types::request::Request
    ensures *final(self) == (GlobalState { sender: final(self).sender, req_queue: final(self).req_queue, ..*old(self) }), final(self).pending() == old(self).pending(),
        final(self).sent() == old(self).sent().push(final(self).sent().last()), final(self).sent().last() is Request,
//@endfn
//@fn rl::GlobalState::fetch_workspaces
    ensures *final(self) == (GlobalState { task_pool: final(self).task_pool, ..*old(self) }), final(self).jobs() == old(self).jobs(),
//@endfn
//@fn ml::GlobalState::next_event ret=r
    ensures r is Some ==> event_fits(*self, r->0),
//@endfn
//@fn ml::GlobalState::run ret=r
    requires self.fresh(),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@at start
    let ghost mut ev: Seq<Event> = Seq::empty();
    let ghost mut libs: spec_fn(FileId) -> bool = |f: FileId| false;
    let ghost g0 = self;
    proof { begins_session(self); }
//@at after_call send_request 0
    proof { asks(g0, vx_self, ev, libs); }
//@at before_call fetch_workspaces 0
    let ghost g2 = vx_self;
//@at after_call fetch_workspaces 0
    proof { asks(g2, vx_self, ev, libs); }
//@loop 0
    invariant vx_self.steady(), in_session(vx_self, ev, libs), vx_self.config == g0.config,
//@at loopstart 0
    let ghost g1 = vx_self;
    let ghost ev0 = ev;
    proof { ev = ev.push(event); }
//@at loopend 0
    proof { assert(ev.drop_last() =~= ev0); turn_in_session(g1, vx_self, ev0, libs, event); libs = libs_more(libs, vx_self); }
//@endfn
//@fn ml::main_loop ret=r
    requires connection.sender.log@.len() == 0,
//@endfn
}
fn main() {}

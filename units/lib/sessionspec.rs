// ---- sessionspec.rs: what a whole session is to see: the events so far against the state, and what was sent ----
verus! {
// ---- what the client has asked and said, from the events alone ----
/// P19: the requests so far, each with what it is to be told
pub open spec fn due(ev: Seq<Event>) -> Seq<(RequestId, Says)> decreases ev.len() {
    if ev.len() == 0 { Seq::empty() } else { match ev.last() { Event::Lsp(Message::Request(r)) => due(ev.drop_last()).push((r.id, verdict(shut(ev.drop_last()), r))), _ => due(ev.drop_last()) } }
}
/// the client has asked for the shutdown
pub open spec fn shut(ev: Seq<Event>) -> bool decreases ev.len() {
    ev.len() > 0 && (shut(ev.drop_last()) || match ev.last() { Event::Lsp(Message::Request(r)) => verdict(false, r) is Ok, _ => false })
}
/// what a notification says of the documents
pub enum Said { Open(VfsPath, i32, Text), Change(VfsPath, i32, Seq<lsp_types::TextDocumentContentChangeEvent>), Close(VfsPath), Other }
pub open spec fn says_of(not: Notification) -> Said {
    if is_a::<Cancel>(not) || is_a::<Ignored>(not) { Said::Other }
    else if is_a::<DidOpen>(not) { let p = said::<DidOpen>(not).text_document; match url_path(p.uri) { Some(path) => Said::Open(path, p.version, p.text@), None => Said::Other } }
    else if is_a::<DidChange>(not) { let p = said::<DidChange>(not); match url_path(p.text_document.uri) { Some(path) => Said::Change(path, p.text_document.version, p.content_changes@), None => Said::Other } }
    else if is_a::<DidClose>(not) { match url_path(said::<DidClose>(not).text_document.uri) { Some(path) => Said::Close(path), None => Said::Other } }
    else { Said::Other }
}
pub open spec fn event_says(e: Event) -> Said { match e { Event::Lsp(Message::Notification(not)) => says_of(not), _ => Said::Other } }
/// P16: the documents opened and not closed since, with the version last announced
pub open spec fn documents(ev: Seq<Event>) -> Map<VfsPath, i32> decreases ev.len() {
    if ev.len() == 0 { Map::empty() } else {
        let d = documents(ev.drop_last());
        match event_says(ev.last()) {
            Said::Open(p, v, _) => d.insert(p, v),
            Said::Change(p, v, _) => if d.contains_key(p) { d.insert(p, v) } else { d },
            Said::Close(p) => d.remove(p),
            Said::Other => d,
        }
    }
}
/// P09, P20: the text the client has, or had last, of each document
pub open spec fn texts(ev: Seq<Event>) -> Map<VfsPath, Text> decreases ev.len() {
    if ev.len() == 0 { Map::empty() } else {
        let t = texts(ev.drop_last());
        match event_says(ev.last()) {
            Said::Open(p, _, s) => t.insert(p, s),
            Said::Change(p, _, c) => if documents(ev.drop_last()).contains_key(p) { t.insert(p, run(t[p], c, c.len() as int)) } else { t },
            _ => t,
        }
    }
}
// ---- what the client was sent ----
/// P19: the answers, in order
pub open spec fn answers(s: Seq<Message>) -> Seq<Response> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Message::Response(r) => answers(s.drop_last()).push(r), _ => answers(s.drop_last()) } }
}
pub type Publish = lsp_types::notification::PublishDiagnostics;
pub open spec fn publishes_for(m: Message, p: VfsPath) -> bool { m is Notification && is_a::<Publish>(m->Notification_0) && url_path(said::<Publish>(m->Notification_0).uri) == Some(p) }
/// P15: the diagnostics the client shows for a file: those last published for it
pub open spec fn view(s: Seq<Message>, p: VfsPath) -> Seq<Diagnostic> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if publishes_for(s.last(), p) { said::<Publish>(s.last()->Notification_0).diagnostics@ } else { view(s.drop_last(), p) }
}
// ---- one turn, and what holds between turns ----
pub open spec fn turned(a: GlobalState, b: GlobalState, e: Event) -> bool {
    exists|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(a, m, e, h) && settles(m, b, whom) && ordered_report(a, m, b)
}
/// P19: each request was answered, once, in order, under its id, as it was to be; nothing else was answered, and nothing is left to answer
pub open spec fn served(g: GlobalState, ev: Seq<Event>) -> bool {
    &&& g.pending() == Set::<RequestId>::empty()
    &&& g.shutdown_requested == shut(ev)
    &&& answers(g.sent()).len() == due(ev).len()
    &&& forall|i: int| 0 <= i < due(ev).len() ==> (#[trigger] answers(g.sent())[i]).id == due(ev)[i].0 && says(answers(g.sent())[i], due(ev)[i].1)
}
/// P16: the open documents, each with its version
pub open spec fn tracked(g: GlobalState, ev: Seq<Event>) -> bool {
    forall|p: VfsPath| #![trigger g.mem_docs.open().contains_key(p)] #![trigger documents(ev).contains_key(p)]
        (g.mem_docs.open().contains_key(p) <==> documents(ev).contains_key(p)) && (documents(ev).contains_key(p) ==> g.mem_docs.open()[p].version == documents(ev)[p])
}
/// P09, P11: the store has the client's texts and no others
pub open spec fn holds_texts(g: GlobalState, ev: Seq<Event>) -> bool {
    forall|p: VfsPath| #![trigger g.store().file(p)] #![trigger texts(ev).contains_key(p)] g.store().file(p) == (if texts(ev).contains_key(p) { Some(encode_utf8(texts(ev)[p])) } else { None })
}
/// P20: analysis sees the client's texts, with normalised line ends, in the root of their path
pub open spec fn analysed(g: GlobalState, ev: Seq<Event>) -> bool {
    forall|p: VfsPath| #[trigger] texts(ev).contains_key(p) ==> g.store().knows(p) && g.db().text.contains_key(g.store().id(p)) && g.db().text[g.store().id(p)] == lf(texts(ev)[p])
        && housed(g.source_root_config, p, g.store().id(p), g.db())
}
/// P15: for each file never found in a library, the client shows what is to be shown
pub open spec fn mirrored(g: GlobalState, libs: spec_fn(FileId) -> bool) -> bool {
    &&& g.diagnostics.changes@ == Set::<FileId>::empty()
    &&& forall|f: FileId| g.store().data@.len() <= f.0 ==> deqs(#[trigger] g.diagnostics.shown(f), Seq::empty())
    &&& forall|p: VfsPath| !#[trigger] g.store().knows(p) ==> view(g.sent(), p) == Seq::<Diagnostic>::empty()
    &&& forall|f: FileId| f.0 < g.store().data@.len() && !libs(f) ==> deqs(view(g.sent(), g.store().path(f.0 as int)), #[trigger] g.diagnostics.shown(f))
}
/// the files in a library now, and those that were once
pub open spec fn libs_more(libs: spec_fn(FileId) -> bool, g: GlobalState) -> spec_fn(FileId) -> bool { |f: FileId| libs(f) || g.library(f) }
pub open spec fn in_session(g: GlobalState, ev: Seq<Event>, libs: spec_fn(FileId) -> bool) -> bool {
    served(g, ev) && tracked(g, ev) && holds_texts(g, ev) && analysed(g, ev) && mirrored(g, libs)
}
}

// ---- servespec.rs: what a session is to see of requests, notifications and documents ----
verus! {
use lsp_server::{parsed, Message, Request, RequestId, Value, Response};
/// Box<dyn Error>
#[verifier::external_body]
pub struct Error { e: usize }
impl From<&'static str> for Error { #[verifier::external_body] fn from(s: &'static str) -> Self { unimplemented!() } }
pub struct LspError { pub code: i32, pub message: String }
pub type Result<T, E = Error> = core::result::Result<T, E>;
// ---- P19 ----
impl GlobalState {
    /// the requests registered and not answered
    pub open spec fn pending(&self) -> Set<RequestId> { self.req_queue.incoming.pending@.dom() }
    /// everything sent to the client so far
    pub open spec fn sent(&self) -> Seq<Message> { self.sender.log@ }
    /// nothing but the queue and the channel differs
    pub open spec fn io_only(&self, o: GlobalState) -> bool {
        *self == (GlobalState { sender: self.sender, req_queue: self.req_queue, ..o }) && self.req_queue.outgoing == o.req_queue.outgoing
    }
    pub open spec fn same_io(&self, o: GlobalState) -> bool { self.pending() == o.pending() && self.sent() == o.sent() }
    pub open spec fn answered(&self, o: GlobalState, r: Response) -> bool {
        &&& self.io_only(o)
        &&& self.pending() == o.pending().remove(r.id)
        &&& self.sent() == (if o.pending().contains(r.id) { o.sent().push(Message::Response(r)) } else { o.sent() })
    }
    /// P19: the answer is sent if the request was pending, which it no longer is
    pub open spec fn replied(&self, o: GlobalState, id: RequestId, says: Says) -> bool {
        &&& self.io_only(o)
        &&& self.pending() == o.pending().remove(id)
        &&& if o.pending().contains(id) { one_more(o.sent(), self.sent(), id, says) } else { self.sent() == o.sent() }
    }
}
/// what an answer says
pub enum Says { Ok, Fails, Code(int) }
pub open spec fn says(r: Response, s: Says) -> bool {
    match s { Says::Ok => r.is_ok(), Says::Fails => r.result is None && r.error is Some, Says::Code(c) => r.is_error(c) }
}
/// one more message was sent: the answer to this request
pub open spec fn one_more(a: Seq<Message>, b: Seq<Message>, id: RequestId, s: Says) -> bool {
    b.len() == a.len() + 1 && b == a.push(b.last()) && b.last() is Response && b.last()->Response_0.id == id && says(b.last()->Response_0, s)
}
/// P19: what a request is told
pub open spec fn verdict(shutdown: bool, req: Request) -> Says {
    if shutdown { Says::Code(-32600) } else if req.method@ != "shutdown"@ { Says::Code(-32601) } else if parsed::<()>(req.params) is None { Says::Code(-32602) } else { Says::Ok }
}
/// TRUSTED: Url::to_file_path: on unix, an absolute path or nothing
pub uninterp spec fn url_comps(u: lsp_types::Url) -> Option<Seq<Comp>>;
/// TRUSTED: a path is its bytes
#[verifier::external_body]
pub broadcast proof fn one_path(a: PathBuf, b: PathBuf) requires #[trigger] a.bytes() == #[trigger] b.bytes() ensures a == b { }
pub open spec fn names(u: lsp_types::Url, p: VfsPath) -> bool { p.wf() && p.0 is PathBuf && url_comps(u) is Some && resolve(url_comps(u)->0) == p.0->PathBuf_0.0.comps() }
/// the path a URL names
pub open spec fn url_path(u: lsp_types::Url) -> Option<VfsPath> { if url_comps(u) is Some { Some(choose|p: VfsPath| names(u, p)) } else { None } }
proof fn names_one(u: lsp_types::Url, p: VfsPath, q: VfsPath) requires names(u, p), names(u, q) ensures p == q {
    one_path(p.0->PathBuf_0.0, q.0->PathBuf_0.0);
}
// ---- P09, P11, P16: what notifications make of the state ----
use lsp_server::Notification;
use lsp_types::notification::Notification as NotificationKind;
pub open spec fn request_id(id: lsp_types::NumberOrString) -> RequestId { match id { lsp_types::NumberOrString::Number(n) => RequestId::num(n), lsp_types::NumberOrString::String(t) => RequestId::text(t@) } }
/// this text is what is stored under the path now, and nothing else of the store differs
pub open spec fn stored(a: GlobalState, b: GlobalState, path: VfsPath, text: Text) -> bool {
    b.vfs.x.1 == a.vfs.x.1 && a.store().written(b.store(), path, Some(encode_utf8(text)), kind_of(a.store().file(path), Some(encode_utf8(text))) is Some)
}
impl GlobalState {
    /// nothing but the open documents and the store differs
    pub open spec fn docs_only(&self, o: GlobalState) -> bool { *self == (GlobalState { mem_docs: self.mem_docs, vfs: self.vfs, ..o }) }
    /// the text of an open document
    pub open spec fn text_of(&self, path: VfsPath) -> Text { decode_utf8(self.store().file(path)->0) }
}
pub open spec fn cancels(a: GlobalState, b: GlobalState, p: lsp_types::CancelParams, r: Result<()>) -> bool { r is Ok && b.replied(a, request_id(p.id), Says::Code(-32800)) }
pub open spec fn can_open(a: GlobalState, p: lsp_types::DidOpenTextDocumentParams) -> bool {
    a.store().wf() && match url_path(p.text_document.uri) { Some(path) => a.store().room(path), None => true }
}
pub open spec fn opens(a: GlobalState, b: GlobalState, p: lsp_types::DidOpenTextDocumentParams, r: Result<()>) -> bool {
    r is Ok && match url_path(p.text_document.uri) {
        Some(path) => path.wf() && path.0 is PathBuf && b.docs_only(a) && stored(a, b, path, p.text_document.text@)
            && b.mem_docs.open() == a.mem_docs.open().insert(path, DocumentData { version: p.text_document.version }) && b.mem_docs.touched(),
        None => b == a,
    }
}
pub open spec fn can_change(a: GlobalState, p: lsp_types::DidChangeTextDocumentParams) -> bool {
    a.store().wf() && a.docs_stored() && match url_path(p.text_document.uri) {
        Some(path) => a.mem_docs.open().contains_key(path) ==> all_fit(a.text_of(path), p.content_changes@),
        None => true,
    }
}
/// P09: an open document has the text its changes make of the one it had; any other is left alone
pub open spec fn changes(a: GlobalState, b: GlobalState, p: lsp_types::DidChangeTextDocumentParams, r: Result<()>) -> bool {
    r is Ok && match url_path(p.text_document.uri) {
        Some(path) => path.wf() && path.0 is PathBuf && b.docs_only(a) && b.mem_docs.touched() == a.mem_docs.touched() && if a.mem_docs.open().contains_key(path) {
            stored(a, b, path, run(a.text_of(path), p.content_changes@, p.content_changes@.len() as int))
                && b.mem_docs.open() == a.mem_docs.open().insert(path, DocumentData { version: p.text_document.version })
        } else { b.vfs == a.vfs && b.mem_docs.open() == a.mem_docs.open() },
        None => b == a,
    }
}
pub open spec fn closes(a: GlobalState, b: GlobalState, p: lsp_types::DidCloseTextDocumentParams, r: Result<()>) -> bool {
    r is Ok && match url_path(p.text_document.uri) {
        Some(path) => b.docs_only(a) && b.vfs == a.vfs && b.mem_docs.open() == a.mem_docs.open().remove(path) && b.mem_docs.touched(),
        None => b == a,
    }
}
pub open spec fn is_a<N: NotificationKind>(not: Notification) -> bool { not.method@ == N::method() }
pub open spec fn well_formed<N: NotificationKind>(not: Notification) -> bool { is_a::<N>(not) ==> parsed::<N::Params>(not.params) is Some }
pub open spec fn said<N: NotificationKind>(not: Notification) -> N::Params { parsed::<N::Params>(not.params)->0 }
pub type Cancel = lsp_types::notification::Cancel;
pub type Ignored = lsp_types::notification::WorkDoneProgressCancel;
pub type DidOpen = lsp_types::notification::DidOpenTextDocument;
pub type DidChange = lsp_types::notification::DidChangeTextDocument;
pub type DidClose = lsp_types::notification::DidCloseTextDocument;
/// the client keeps to the protocol: parameters as the method takes them, edits inside the text
pub open spec fn acceptable(a: GlobalState, not: Notification) -> bool {
    &&& well_formed::<Cancel>(not) && well_formed::<Ignored>(not) && well_formed::<DidOpen>(not) && well_formed::<DidChange>(not) && well_formed::<DidClose>(not)
    &&& is_a::<DidOpen>(not) ==> can_open(a, said::<DidOpen>(not))
    &&& is_a::<DidChange>(not) ==> can_change(a, said::<DidChange>(not))
}
pub open spec fn noted(a: GlobalState, b: GlobalState, not: Notification) -> bool {
    if is_a::<Cancel>(not) { cancels(a, b, said::<Cancel>(not), Ok(())) }
    else if is_a::<Ignored>(not) { b == a }
    else if is_a::<DidOpen>(not) { opens(a, b, said::<DidOpen>(not), Ok(())) }
    else if is_a::<DidChange>(not) { changes(a, b, said::<DidChange>(not), Ok(())) }
    else if is_a::<DidClose>(not) { closes(a, b, said::<DidClose>(not), Ok(())) }
    else { b == a }
}
}

// ---- lspserver.rs: lsp_server's messages and request queue, and the channel to the client (TRUSTED dependency) ----
mod lsp_server {
use vstd::prelude::*;
use super::VxMap;
verus! {
/// a JSON value
#[verifier::external_body]
pub struct Value { v: usize }
/// what a JSON value says, when it says a T
pub uninterp spec fn parsed<T>(v: Value) -> Option<T>;
/// a number or a string
#[verifier::external_body]
pub struct RequestId { r: usize }
impl RequestId {
    pub uninterp spec fn num(n: i32) -> RequestId;
    pub uninterp spec fn text(s: Seq<char>) -> RequestId;
}
impl Clone for RequestId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Request { pub id: RequestId, pub method: String, pub params: Value }
pub struct ResponseError { pub code: i32, pub message: String, pub data: Option<Value> }
pub struct Response { pub id: RequestId, pub result: Option<Value>, pub error: Option<ResponseError> }
pub struct Notification { pub method: String, pub params: Value }
pub enum Message { Request(Request), Response(Response), Notification(Notification) }
#[derive(Clone, Copy)]
pub enum ErrorCode { ParseError = -32700, InvalidRequest = -32600, MethodNotFound = -32601, InvalidParams = -32602, InternalError = -32603, ServerErrorStart = -32099, ServerErrorEnd = -32000,
    ServerNotInitialized = -32002, UnknownErrorCode = -32001, RequestCanceled = -32800, ContentModified = -32801, ServerCancelled = -32802 }
impl Notification {
    // TRUSTED: what serde writes it reads
    #[verifier::external_body]
    pub fn new<P>(method: String, params: P) -> (r: Notification) ensures r.method == method, parsed::<P>(r.params) == Some(params) { unimplemented!() }
    /// its parameters if it is of this method; panics when they are not what the method takes
    #[verifier::external_body]
    pub fn extract<P>(self, method: &str) -> (r: Result<P, Notification>)
        requires self.method@ == method@ ==> parsed::<P>(self.params) is Some,
        ensures match r { Ok(p) => self.method@ == method@ && parsed::<P>(self.params) == Some(p), Err(n) => self.method@ != method@ && n == self } { unimplemented!() }
}
impl Response {
    pub open spec fn is_error(&self, code: int) -> bool { self.result is None && self.error is Some && self.error->0.code == code }
    pub open spec fn is_ok(&self) -> bool { self.result is Some && self.error is None }
    #[verifier::external_body]
    pub fn new_ok<R>(id: RequestId, result: R) -> (r: Response) ensures r.id == id, r.is_ok() { unimplemented!() }
    pub fn new_err(id: RequestId, code: i32, message: String) -> (r: Response) ensures r.id == id, r.is_error(code as int), r.error->0.message == message {
        let error = ResponseError { code, message, data: None };
        Response { id, result: None, error: Some(error) }
    }
}
/// the requests registered and not answered
#[verifier::reject_recursive_types(I)]
pub struct Incoming<I> { pub pending: VxMap<RequestId, I> }
impl<I> Incoming<I> {
    pub fn register(&mut self, id: RequestId, data: I) ensures final(self).pending@.dom() == old(self).pending@.dom().insert(id) { self.pending.insert(id, data); }
    pub fn complete(&mut self, id: RequestId) -> (r: Option<I>)
        ensures final(self).pending@.dom() == old(self).pending@.dom().remove(id), r is Some <==> old(self).pending@.contains_key(id) { self.pending.remove(&id) }
    pub fn cancel(&mut self, id: RequestId) -> (r: Option<Response>)
        ensures final(self).pending@.dom() == old(self).pending@.dom().remove(id), r is Some <==> old(self).pending@.contains_key(id),
            r is Some ==> r->0.id == id && r->0.is_error(-32800),
    {
        let _data = self.complete(id.clone())?;
        let error = ResponseError { code: ErrorCode::RequestCanceled as i32, message: vx_canceled(), data: None };
        Some(Response { id, result: None, error: Some(error) })
    }
}
#[verifier::external_body]
pub fn vx_canceled() -> String { "canceled by client".to_string() }
}
}
verus! {
#[verifier::external_body]
pub struct Instant { i: usize }
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Instant {}
/// the requests sent to the client and not answered by it (not part of any claim)
#[verifier::external_body]
pub struct VxOutgoing { o: usize }
/// what is done with a client's answer: the only handler there is does nothing (rule: `|_, _| ()` is this one; any other is outside the extraction)
pub struct VxHandler;
pub fn vx_ignore() -> VxHandler { VxHandler }
pub struct ReqQueue { pub incoming: lsp_server::Incoming<(String, Instant)>, pub outgoing: VxOutgoing }
/// the channel to the client: what was sent on it
pub struct VxSender { pub log: Ghost<Seq<lsp_server::Message>> }
//@file ml crates/move_language_server/src/main_loop.rs noinline
//@type ml::Task derive=
//@include pool.rs
#[verifier::external_body]
pub struct VxTasks { p: usize }
pub struct VxPool { pub handle: TaskPool<Task>, pub receiver: VxTasks }
//@file le crates/move_language_server/src/lsp_ext.rs noinline
//@type le::Health derive=Clone,Copy
//@type le::ServerStatusParams derive=
#[verifier::external_body]
pub struct ProjectWorkspace { p: usize }
}

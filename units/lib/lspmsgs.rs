// the requests and notifications used (TRUSTED dependency lsp_types: names and parameters)
verus! {
pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct CancelParams { pub id: NumberOrString }
pub struct WorkDoneProgressCancelParams { pub token: NumberOrString }
#[derive(Clone, Copy)]
pub enum MessageType { Error = 1, Warning = 2, Info = 3, Log = 4 }
pub struct ShowMessageParams { pub typ: MessageType, pub message: String }
pub struct DocumentFilter { pub language: Option<String>, pub scheme: Option<String>, pub pattern: Option<String> }
pub struct TextDocumentRegistrationOptions { pub document_selector: Option<Vec<DocumentFilter>> }
pub struct TextDocumentSaveRegistrationOptions { pub include_text: Option<bool>, pub text_document_registration_options: TextDocumentRegistrationOptions }
pub struct Registration { pub id: String, pub method: String, pub register_options: Option<super::lsp_server::Value> }
pub struct RegistrationParams { pub registrations: Vec<Registration> }
pub struct PublishDiagnosticsParams { pub uri: Url, pub diagnostics: Vec<Diagnostic>, pub version: Option<i32> }
}
pub mod request { use super::*;
verus! {
pub trait Request { type Params; type Result; spec fn method() -> Seq<char>; fn vx_method() -> (r: &'static str) ensures r@ == Self::method(); }
pub struct Shutdown { }
pub struct RegisterCapability { }
impl Request for RegisterCapability { type Params = RegistrationParams; type Result = (); open spec fn method() -> Seq<char> { "client/registerCapability"@ } fn vx_method() -> (r: &'static str) { "client/registerCapability" } }
impl Request for Shutdown { type Params = (); type Result = (); open spec fn method() -> Seq<char> { "shutdown"@ } fn vx_method() -> (r: &'static str) { "shutdown" } }
}
}
pub mod notification { use super::*;
verus! {
pub trait Notification { type Params; spec fn method() -> Seq<char>; fn vx_method() -> (r: &'static str) ensures r@ == Self::method(); }
pub struct Cancel { }
impl Notification for Cancel { type Params = CancelParams; open spec fn method() -> Seq<char> { "$/cancelRequest"@ } fn vx_method() -> (r: &'static str) { "$/cancelRequest" } }
pub struct WorkDoneProgressCancel { }
impl Notification for WorkDoneProgressCancel { type Params = WorkDoneProgressCancelParams; open spec fn method() -> Seq<char> { "window/workDoneProgress/cancel"@ } fn vx_method() -> (r: &'static str) { "window/workDoneProgress/cancel" } }
pub struct DidOpenTextDocument { }
impl Notification for DidOpenTextDocument { type Params = DidOpenTextDocumentParams; open spec fn method() -> Seq<char> { "textDocument/didOpen"@ } fn vx_method() -> (r: &'static str) { "textDocument/didOpen" } }
pub struct DidChangeTextDocument { }
impl Notification for DidChangeTextDocument { type Params = DidChangeTextDocumentParams; open spec fn method() -> Seq<char> { "textDocument/didChange"@ } fn vx_method() -> (r: &'static str) { "textDocument/didChange" } }
pub struct DidCloseTextDocument { }
impl Notification for DidCloseTextDocument { type Params = DidCloseTextDocumentParams; open spec fn method() -> Seq<char> { "textDocument/didClose"@ } fn vx_method() -> (r: &'static str) { "textDocument/didClose" } }
pub struct Exit { }
impl Notification for Exit { type Params = (); open spec fn method() -> Seq<char> { "exit"@ } fn vx_method() -> (r: &'static str) { "exit" } }
pub struct ShowMessage { }
impl Notification for ShowMessage { type Params = ShowMessageParams; open spec fn method() -> Seq<char> { "window/showMessage"@ } fn vx_method() -> (r: &'static str) { "window/showMessage" } }
pub struct PublishDiagnostics { }
impl Notification for PublishDiagnostics { type Params = PublishDiagnosticsParams; open spec fn method() -> Seq<char> { "textDocument/publishDiagnostics"@ } fn vx_method() -> (r: &'static str) { "textDocument/publishDiagnostics" } }
}
}

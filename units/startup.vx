//@include base.rs
//@include str.rs
//@file cf crates/move_language_server/src/config.rs noinline
//@file le crates/move_language_server/src/lsp_ext.rs noinline
//@file ml crates/move_language_server/src/main_loop.rs noinline
//@file bin crates/move_language_server/src/bin/move_language_server.rs
//@include capsspec.rs
//@include offersapi.rs
//@dropmacro error warn trace info
//@strip move_language_server
//@subst env!("REV") =>> "rev"
//@subst String::from("move-language-server") =>> vx_string("move-language-server")
//@subst String::from("rev") =>> vx_string("rev")
//@shim .to_string -> vx_string_of &
//@shimfn serde_json::to_value -> vx_value
//@shimfn env::current_dir -> vx_cwd
//@shimfn AbsPathBuf::try_from -> vx_abs
//@shim .map.filter.unwrap_or_else -> vx_folders
//@shim .into_iter.filter_map.filter_map.collect -> vx_paths
//@shim .and_then.and_then -> vx_root
//@closure filter_map#0 |Url| Option<PathBuf> ensures true
//@closure bin::run_server/and_then#0 |Url| Option<PathBuf> ensures true
//@closure bin::run_server/and_then#1 |PathBuf| Option<AbsPathBuf> ensures true
//@closure bin::run_server/collect#0 |WorkspaceFolder| Option<PathBuf> ensures true
//@closure bin::run_server/collect#1 |PathBuf| Option<AbsPathBuf> ensures true
//@closure bin::run_server/unwrap_or_else#0 |Vec<WorkspaceFolder>| Vec<AbsPathBuf> ensures true
//@closure bin::run_server/unwrap_or_else#1 |&Vec<AbsPathBuf>| bool ensures true
//@closure bin::run_server/unwrap_or_else#2 || Vec<AbsPathBuf> ensures true
//@retype lsp_server::Connection => Connection
mod lsp_types {
use vstd::prelude::*;
use super::clientcaps::ClientCapabilities;
verus! {
#[verifier::external_body]
pub struct Url { u: usize }
#[verifier::external_body]
pub struct PathBuf { p: usize }
impl Url {
    #[verifier::external_body]
    pub fn to_file_path(&self) -> Result<PathBuf, ()> { unimplemented!() }
}
pub struct WorkspaceFolder { pub uri: Url, pub name: String }
pub struct ClientInfo { pub name: String, pub version: Option<String> }
pub struct InitializeParams { pub root_uri: Option<Url>, pub capabilities: ClientCapabilities, pub client_info: Option<ClientInfo>, pub workspace_folders: Option<Vec<WorkspaceFolder>> }
#[verifier::external_body]
pub struct ServerCapabilities { c: usize }
pub struct ServerInfo { pub name: String, pub version: Option<String> }
pub struct InitializeResult { pub capabilities: ServerCapabilities, pub server_info: Option<ServerInfo>, pub offset_encoding: Option<String> }
}
}
verus! {
use lsp_types::{Url, PathBuf, WorkspaceFolder, InitializeParams, InitializeResult};
#[verifier::external_body]
pub struct AbsPathBuf { p: usize }
impl AbsPathBuf {
    #[verifier::external_body]
    pub fn assert(p: PathBuf) -> AbsPathBuf { unimplemented!() }
}
impl Clone for AbsPathBuf { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_abs(p: PathBuf) -> Result<AbsPathBuf, PathBuf> { unimplemented!() }
#[verifier::external_body]
pub fn vx_cwd() -> Result<PathBuf, IoError> { unimplemented!() }
#[verifier::external_body]
pub struct ProjectManifest { p: usize }
impl ProjectManifest {
    #[verifier::external_body]
    pub fn discover_all(p: &Vec<AbsPathBuf>) -> Vec<ProjectManifest> { unimplemented!() }
}
/// Box<dyn Error>
#[verifier::external_body]
pub struct Error { e: usize }
#[derive(Debug)]
pub struct IoError { }
pub struct ProtocolError { }
impl From<IoError> for Error { #[verifier::external_body] fn from(s: IoError) -> Self { unimplemented!() } }
impl From<ProtocolError> for Error { #[verifier::external_body] fn from(s: ProtocolError) -> Self { unimplemented!() } }
pub type Result<T, E = Error> = core::result::Result<T, E>;
// ---- std (TRUSTED) ----
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_of(s: &&'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_root<F: FnOnce(Url) -> Option<PathBuf>, G: FnOnce(PathBuf) -> Option<AbsPathBuf>>(o: Option<Url>, f: F, g: G) -> Option<AbsPathBuf>
    requires forall|u: Url| call_requires(f, (u,)), forall|p: PathBuf| call_requires(g, (p,)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_paths<F: Fn(WorkspaceFolder) -> Option<PathBuf>, G: Fn(PathBuf) -> Option<AbsPathBuf>>(o: Vec<WorkspaceFolder>, f: F, g: G) -> Vec<AbsPathBuf>
    requires forall|u: WorkspaceFolder| call_requires(f, (u,)), forall|p: PathBuf| call_requires(g, (p,)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_folders<F: FnOnce(Vec<WorkspaceFolder>) -> Vec<AbsPathBuf>, P: FnOnce(&Vec<AbsPathBuf>) -> bool, G: FnOnce() -> Vec<AbsPathBuf>>(o: Option<Vec<WorkspaceFolder>>, f: F, p: P, g: G) -> Vec<AbsPathBuf>
    requires forall|u: Vec<WorkspaceFolder>| call_requires(f, (u,)), forall|v: &Vec<AbsPathBuf>| call_requires(p, (v,)), call_requires(g, ()) { unimplemented!() }
// ---- lsp_server and serde (TRUSTED: what serde writes it reads) ----
#[verifier::external_body]
pub struct Value { v: usize }
pub uninterp spec fn parsed<T>(v: Value) -> Option<T>;
#[verifier::external_body]
pub fn vx_value<T>(t: T) -> (r: Result<Value, IoError>) ensures r is Ok, parsed::<T>(r->Ok_0) == Some(t) { unimplemented!() }
#[verifier::external_body]
pub fn from_json<T>(what: &'static str, v: Value) -> (r: Result<T>) ensures r is Ok ==> parsed::<T>(v) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
pub struct RequestId { r: usize }
#[verifier::external_body]
pub struct IoThreads { t: usize }
impl IoThreads { #[verifier::external_body] pub fn join(self) -> Result<(), IoError> { unimplemented!() } }
#[verifier::external_body]
pub struct Connection { c: usize }
impl Connection {
    /// what the client's initialize request says, and the answer it is given (TRUSTED: there is one of each)
    pub uninterp spec fn asked(&self) -> Value;
    pub uninterp spec fn told(&self) -> Value;
    #[verifier::external_body]
    pub fn stdio() -> (Connection, IoThreads) { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize_start(&self) -> (r: Result<(RequestId, Value), ProtocolError>) ensures r is Ok ==> r->Ok_0.1 == self.asked() { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize_finish(&self, id: RequestId, v: Value) -> (r: Result<(), ProtocolError>) ensures r is Ok ==> self.told() == v { unimplemented!() }
}
#[verifier::external_body]
pub fn server_capabilities() -> lsp_types::ServerCapabilities { unimplemented!() }
//@type cf::Config derive=
/// P08: the session is run with what the client offered, and the client was told of UTF-8 exactly when it offered that
pub open spec fn agreed(c: Config, conn: Connection) -> bool {
    &&& parsed::<InitializeParams>(conn.asked()) is Some && c.caps == parsed::<InitializeParams>(conn.asked())->0.capabilities
    &&& parsed::<InitializeResult>(conn.told()) is Some && match parsed::<InitializeResult>(conn.told())->0.offset_encoding {
        Some(e) => offers_utf8(c.caps) && e@ == "utf-8"@,
        None => !offers_utf8(c.caps),
    }
}
/// the session itself is unit `session`
#[verifier::external_body]
pub fn main_loop(config: Config, connection: Connection) -> Result<()> requires agreed(config, connection) { unimplemented!() }
//@fn cf::Config::new ret=r
    ensures r.caps == caps,
//@endfn
//@fn bin::run_server ret=r
//@endfn
}
fn main() {}

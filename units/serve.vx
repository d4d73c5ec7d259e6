//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include pathsapi.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@include vfsapi.rs
//@include lf.rs
//@include utf8.rs
mod lsp_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include lsptypes_body.rs
//@include lspmsgs.rs
}
//@include textpos.rs
//@include posspec.rs
//@include docspec.rs
//@include diagspec.rs
//@include memdocsspec.rs
//@include lspserver.rs
//@include configspec.rs
//@include absorbspec.rs
//@include absorbapi.rs
//@include memdocsapi.rs
//@include absorblemmas.rs
//@file lu crates/move_language_server/src/lsp_utils.rs noinline
//@include docapi.rs
//@include servespec.rs
//@file dp crates/move_language_server/src/dispatch.rs
//@file fp crates/move_language_server/src/from_proto.rs
//@file ml crates/move_language_server/src/main_loop.rs
//@file gs crates/move_language_server/src/global_state.rs
//@strip crate vfs from_proto
//@dropmacro error warn trace info
//@shim .into -> vx_into -
//@shim .to_string -> vx_to_string &
//@shim .to_owned -> vx_to_string &
//@subst self.sender.send(message).unwrap() =>> vx_send(&mut self.sender, message)
//@shimfn stdx::panic_context::enter -> vx_enter
//@shimfn crate::from_json -> vx_from_json
//@shimfn from_json -> vx_from_json
//@subst R::METHOD =>> R::vx_method()
//@subst N::METHOD =>> N::vx_method()
//@subst req.method == R::METHOD =>> vx_str_eq(&req.method, R::vx_method())
//@format "\nrequest: {} {:#?}" -> vx_context
//@format "\nnotification: {}" -> vx_note_context
//@subst e.downcast::<LspError>() =>> vx_downcast(e)
//@subst is_cancelled(&*e) =>> vx_is_cancelled(&e)
//@subst f(&mut self.global_state, params) =>> f(self.global_state, params)
//@shimfn String::from_utf8 -> vx_from_utf8
//@shim .to_vec -> vx_to_vec
//@shim .into_bytes -> vx_text_bytes
//@shim .to_file_path.map_err -> vx_to_file_path &
//@closure map_err#0 |()| &'static str
//@scope dp::NotificationDispatcher::finish
//@shim .starts_with -> vx_starts_with &
//@endscope
//@closure ml::GlobalState::on_notification/on#0 |&mut GlobalState; lsp_types::CancelParams| Result<(), Error> ensures cancels(*old($0), *final($0), $1, vx_r)
//@closure ml::GlobalState::on_notification/on#1 |&mut GlobalState; lsp_types::WorkDoneProgressCancelParams| Result<(), Error> ensures vx_r is Ok, *final($0) == *old($0)
//@closure ml::GlobalState::on_notification/on#2 |&mut GlobalState; lsp_types::DidOpenTextDocumentParams| Result<(), Error> requires can_open(*old($0), $1) ensures opens(*old($0), *final($0), $1, vx_r)
//@closure ml::GlobalState::on_notification/on#3 |&mut GlobalState; lsp_types::DidChangeTextDocumentParams| Result<(), Error> requires can_change(*old($0), $1) ensures changes(*old($0), *final($0), $1, vx_r)
//@closure ml::GlobalState::on_notification/on#4 |&mut GlobalState; lsp_types::DidCloseTextDocumentParams| Result<(), Error> ensures closes(*old($0), *final($0), $1, vx_r)
//@closure on_sync_mut#0 |&mut GlobalState; ()| Result<(), Error> ensures shuts(*old($0), *final($0), vx_r)
verus! {
broadcast use {vx_str_fits, vset::indexset_distinct};
global size_of usize == 8;
#[verifier::external_body]
pub fn vx_from_json<T>(what: &'static str, v: Value) -> (r: Result<T>) ensures r is Ok <==> parsed::<T>(v) is Some, r is Ok ==> Some(r->Ok_0) == parsed::<T>(v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub struct VxCtx { }
pub fn vx_enter(s: String) -> VxCtx { VxCtx { } }
#[verifier::external_body]
pub fn vx_context<T>(m: &&str, p: &T) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_note_context(m: &&str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_downcast(e: Error) -> (r: Result<LspError, Error>) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_cancelled(e: &Error) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_string<T: ?Sized>(s: &T) -> String { unimplemented!() }
pub trait VxInto<T>: Sized { spec fn into_spec(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.into_spec(); }
impl VxInto<Message> for Response { open spec fn into_spec(self) -> Message { Message::Response(self) } fn vx_into(self) -> (r: Message) { Message::Response(self) } }
impl VxInto<Message> for lsp_server::Notification { open spec fn into_spec(self) -> Message { Message::Notification(self) } fn vx_into(self) -> (r: Message) { Message::Notification(self) } }
impl VxInto<RequestId> for i32 { open spec fn into_spec(self) -> RequestId { RequestId::num(self) } #[verifier::external_body] fn vx_into(self) -> (r: RequestId) { unimplemented!() } }
impl VxInto<RequestId> for String { open spec fn into_spec(self) -> RequestId { RequestId::text(self@) } #[verifier::external_body] fn vx_into(self) -> (r: RequestId) { unimplemented!() } }
pub fn vx_into<T, S: VxInto<T>>(s: S) -> (r: T) ensures r == s.into_spec() { s.vx_into() }
/// TRUSTED: the client is listening
pub fn vx_send(s: &mut VxSender, m: Message) ensures final(s).log@ == old(s).log@.push(m) { s.log = Ghost(s.log@.push(m)); }
/// P19: a request of this method is answered, by what the handler says of it
#[verifier::prophetic]
pub open spec fn served<R: lsp_types::request::Request, F: Fn(&mut GlobalState, R::Params) -> Result<R::Result>>(a: RequestDispatcher, b: RequestDispatcher, f: F) -> bool {
    match a.req {
        Some(req) if req.method@ == R::method() => b.req is None && match parsed::<R::Params>(req.params) {
            Some(p) => exists|g: &mut GlobalState, x: Result<R::Result>| *g == *a.global_state && #[trigger] call_ensures(f, (g, p), x)
                && b.global_state.replied(*final(g), req.id, if x is Ok { Says::Ok } else { Says::Fails }),
            None => b.global_state.replied(*a.global_state, req.id, Says::Code(-32602)),
        },
        _ => b.req == a.req && *b.global_state == *a.global_state,
    }
}
//@fn gs::GlobalState::send
    ensures final(self).io_only(*old(self)), final(self).req_queue == old(self).req_queue, final(self).sent() == old(self).sent().push(message),
//@endfn
//@fn gs::GlobalState::register_request
    ensures final(self).io_only(*old(self)), final(self).sent() == old(self).sent(), final(self).pending() == old(self).pending().insert(request.id),
//@endfn
//@fn gs::GlobalState::respond
    ensures final(self).answered(*old(self), response),
//@endfn
//@fn gs::GlobalState::cancel
    ensures final(self).replied(*old(self), request_id, Says::Code(-32800)),
//@endfn
//@type dp::RequestDispatcher derive=
//@fn dp::result_to_response ret=r
//@where R: lsp_types::request::Request
    ensures r.id == id, says(r, if result is Ok { Says::Ok } else { Says::Fails }),
//@endfn
//@fn dp::RequestDispatcher::parse ret=r
//@where R: lsp_types::request::Request
    ensures
        *final(final(self).global_state) == *final(old(self).global_state),
        match old(self).req {
            Some(req) if req.method@ == R::method() => final(self).req is None && match parsed::<R::Params>(req.params) {
                Some(p) => r is Some && r->Some_0.0 == req.id && r->Some_0.1 == p && *final(self).global_state == *old(self).global_state,
                None => r is None && final(self).global_state.replied(*old(self).global_state, req.id, Says::Code(-32602)),
            },
            _ => r is None && final(self).req == old(self).req && *final(self).global_state == *old(self).global_state,
        },
//@endfn
//@fn dp::RequestDispatcher::finish
    ensures *final(final(self).global_state) == *final(old(self).global_state),
        final(self).req is None,
        match old(self).req {
            Some(req) => final(self).global_state.replied(*old(self).global_state, req.id, Says::Code(-32601)),
            None => *final(self).global_state == *old(self).global_state,
        },
//@endfn
//@fn dp::RequestDispatcher::on_sync_mut ret=r
//@where R: lsp_types::request::Request
    requires
        forall|g: &mut GlobalState, p: R::Params| call_requires(f, (g, p)),
        forall|g: &mut GlobalState, p: R::Params, x: Result<R::Result>| #[trigger] call_ensures(f, (g, p), x) ==> final(g).same_io(*g) && final(g).req_queue.outgoing == g.req_queue.outgoing,
    ensures r is Ok,
        *final(self) == *final(r->Ok_0), *final(r->Ok_0.global_state) == *final(old(self).global_state),
        served::<R, VxF1>(*old(self), *r->Ok_0, f),
//@endfn
pub open spec fn shuts(a: GlobalState, b: GlobalState, r: Result<()>) -> bool { r is Ok && b == (GlobalState { shutdown_requested: true, ..a }) }
//@fn ml::GlobalState::on_request ret=r
    ensures r is Ok,
        one_more(old(self).sent(), final(self).sent(), req.id, verdict(old(self).shutdown_requested, req)),
        final(self).pending() == old(self).pending().remove(req.id),
        final(self).shutdown_requested == (old(self).shutdown_requested || verdict(false, req) is Ok),
        *final(self) == (GlobalState { sender: final(self).sender, req_queue: final(self).req_queue, shutdown_requested: final(self).shutdown_requested, ..*old(self) }),
//@endfn
// ---- notifications ----
#[verifier::external_body]
pub fn vx_to_file_path<F>(u: &lsp_types::Url, f: F) -> (r: Result<PathBuf, &'static str>)
    ensures r is Ok <==> url_comps(*u) is Some, r is Ok ==> url_comps(*u) == Some(r->Ok_0.comps()) && abs_comps(r->Ok_0.comps()) { unimplemented!() }
//@fn pa::AbsPathBuf::try_from ret=r
    ensures abs_comps(path_buf.comps()) ==> r == Ok::<AbsPathBuf, PathBuf>(AbsPathBuf(path_buf)),
//@endfn
//@fn fp::abs_path ret=r
    ensures r is Ok <==> url_comps(*url) is Some, r is Ok ==> abs_comps(r->Ok_0.0.comps()) && url_comps(*url) == Some(r->Ok_0.0.comps()),
//@endfn
//@fn fp::vfs_path ret=r
    ensures match r { Ok(p) => names(*url, p) && url_path(*url) == Some(p), Err(_) => url_path(*url) is None },
//@at start
    proof {
        assert forall|p: VfsPath, q: VfsPath| #[trigger] names(*url, p) && #[trigger] names(*url, q) implies p == q by { names_one(*url, p, q); }
    }
//@endfn
//@type dp::NotificationDispatcher derive=
/// P09: a notification of this method is given to its handler; no other is
#[verifier::prophetic]
pub open spec fn heard<N: lsp_types::notification::Notification, F: Fn(&mut GlobalState, N::Params) -> Result<()>>(a: NotificationDispatcher, b: NotificationDispatcher, f: F) -> bool {
    match a.not {
        Some(not) if not.method@ == N::method() => b.not is None && exists|g: &mut GlobalState, p: N::Params, x: Result<()>| *g == *a.global_state
            && parsed::<N::Params>(not.params) == Some(p) && #[trigger] call_ensures(f, (g, p), x) && *b.global_state == *final(g),
        _ => b.not == a.not && *b.global_state == *a.global_state,
    }
}
//@fn dp::NotificationDispatcher::on ret=r
//@where N: lsp_types::notification::Notification
    requires
        match old(self).not {
            Some(not) if not.method@ == N::method() => parsed::<N::Params>(not.params) is Some
                && forall|g: &mut GlobalState, p: N::Params| *g == *old(self).global_state && parsed::<N::Params>(not.params) == Some(p) ==> #[trigger] call_requires(f, (g, p)),
            _ => true,
        },
        forall|g: &mut GlobalState, p: N::Params, x: Result<()>| #[trigger] call_ensures(f, (g, p), x) ==> x is Ok,
    ensures r is Ok,
        *final(self) == *final(r->Ok_0), *final(r->Ok_0.global_state) == *final(old(self).global_state),
        heard::<N, VxF1>(*old(self), *r->Ok_0, f),
//@endfn
//@fn dp::NotificationDispatcher::finish
    ensures *final(final(self).global_state) == *final(old(self).global_state), *final(self).global_state == *old(self).global_state,
//@endfn
//@fn ml::GlobalState::on_notification ret=r
    requires acceptable(*old(self), not),
    ensures r is Ok, noted(*old(self), *final(self), not),
//@endfn
}
fn main() {}

// ---- serveapi.rs: the contracts of requests and notifications, proved in unit `serve` (written by tools/mkapi.py) ----
verus! {
//@proved_in serve
//@fn gs::GlobalState::send
    ensures final(self).io_only(*old(self)), final(self).req_queue == old(self).req_queue, final(self).sent() == old(self).sent().push(message),
//@endfn
//@fn gs::GlobalState::respond
    ensures final(self).answered(*old(self), response),
//@endfn
//@fn fp::vfs_path ret=r
    ensures match r { Ok(p) => names(*url, p) && url_path(*url) == Some(p), Err(_) => url_path(*url) is None },
//@endfn
//@fn ml::GlobalState::on_request ret=r
    ensures r is Ok,
        one_more(old(self).sent(), final(self).sent(), req.id, verdict(old(self).shutdown_requested, req)),
        final(self).pending() == old(self).pending().remove(req.id),
        final(self).shutdown_requested == (old(self).shutdown_requested || verdict(false, req) is Ok),
        *final(self) == (GlobalState { sender: final(self).sender, req_queue: final(self).req_queue, shutdown_requested: final(self).shutdown_requested, ..*old(self) }),
//@endfn
//@fn ml::GlobalState::on_notification ret=r
    requires acceptable(*old(self), not),
    ensures r is Ok, noted(*old(self), *final(self), not),
//@endfn
//@endproved
}

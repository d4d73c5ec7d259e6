// ---- sendapi.rs: the contract of GlobalState::send, proved in unit `serve` (written by tools/mkapi.py) ----
verus! {
//@proved_in serve
//@fn gs::GlobalState::send
    ensures final(self).io_only(*old(self)), final(self).req_queue == old(self).req_queue, final(self).sent() == old(self).sent().push(message),
//@endfn
//@endproved
}

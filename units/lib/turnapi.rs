// ---- turnapi.rs: the contract of a turn of the main loop, proved in unit `turn` (written by tools/mkapi.py) ----
verus! {
//@proved_in turn
//@fn ml::GlobalState::handle_event ret=r
    requires old(self).steady(), event_fits(*old(self), event),
    ensures r is Ok,
        exists|m: GlobalState, h: Heard, whom: Seq<FileId>| handled(*old(self), m, event, h) && settles(m, *final(self), whom) && ordered_report(*old(self), m, *final(self)),
        final(self).steady(),
//@endfn
//@endproved
}

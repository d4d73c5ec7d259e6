// ---- protoapi.rs: the contracts of the protocol conversions, proved in unit `proto` (written by tools/mkapi.py) ----
verus! {
//@proved_in proto
//@fn tp::range ret=r rename=range_to_proto
    requires line_index.index.wf(),
    ensures line_index.position_ok(range.start, r.start), line_index.position_ok(range.end, r.end),
//@endfn
//@fn cf::Config::offset_encoding ret=r
    ensures r == encoding_of(*self),
//@endfn
//@endproved
}

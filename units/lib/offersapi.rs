// ---- offersapi.rs: the contract of supports_utf8, proved in unit `proto` (written by tools/mkapi.py) ----
verus! {
//@proved_in proto
//@fn le::supports_utf8 ret=r
    ensures r == offers_utf8(*caps),
//@endfn
//@endproved
}

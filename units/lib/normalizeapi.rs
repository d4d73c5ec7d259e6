// ---- normalizeapi.rs: the contract of LineEndings::normalize, proved in unit `normalize` (written by tools/mkapi.py) ----
verus! {
//@proved_in normalize
//@fn sli::LineEndings::normalize ret=r
    ensures
        !src@.contains('\r') ==> r.0@ == src@ && r.1 == LineEndings::Unix,
        src@.contains('\r') ==> r.0@ == lf(src@) && r.1 == LineEndings::Dos,
//@endfn
//@endproved
}

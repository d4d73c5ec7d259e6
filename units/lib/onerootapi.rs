// ---- onerootapi.rs: the contract of FileSetConfig::default, proved in unit `fileset` (written by tools/mkapi.py) ----
verus! {
//@proved_in fileset
//@fn fs::FileSetConfig::default ret=r
    ensures r.wf(), r.n_file_sets == 1,
//@endfn
//@endproved
}

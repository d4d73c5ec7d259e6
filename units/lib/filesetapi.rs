// ---- filesetapi.rs: the contract of FileSetConfig::partition, proved in unit `fileset` (written by tools/mkapi.py) ----
verus! {
//@proved_in fileset
//@fn fs::FileSetConfig::partition ret=r
    requires self.wf(), vfs.wf(), forall|p: VfsPath| #[trigger] vfs.knows(p) ==> p.wf(),
    ensures self.parts(vfs, r@),
//@endfn
//@endproved
}

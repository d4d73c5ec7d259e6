// ---- vfsapi.rs: the contracts of Vfs, proved in unit `vfs` (written by tools/mkapi.py) ----
verus! {
//@proved_in vfs
//@fn vf::ChangedFile::is_created_or_deleted ret=r
    ensures r == (self.change_kind != ChangeKind::Modify),
//@endfn
//@fn vf::Vfs::file_id ret=r
    requires self.wf(),
    ensures r == (if self.file(*path) is Some { Some(self.id(*path)) } else { None }),
//@endfn
//@fn vf::Vfs::file_path ret=r
    requires file_id.0 < self.interner.map@.len(),
    ensures r == self.interner.map@[file_id.0 as int],
//@endfn
//@fn vf::Vfs::file_contents ret=r
    requires file_id.0 < self.data@.len(), self.data@[file_id.0 as int] is Some,
    ensures r@ == self.data@[file_id.0 as int]->0@,
//@endfn
//@fn vf::Vfs::set_file_contents ret=r
    requires old(self).wf(), old(self).room(path),
    ensures old(self).written(*final(self), path, bytes(contents), r),
//@endfn
//@fn vf::Vfs::take_changes ret=r
    ensures r@ == old(self).log(), final(self).log().len() == 0, final(self).interner == old(self).interner, final(self).data == old(self).data,
//@endfn
//@endproved
}

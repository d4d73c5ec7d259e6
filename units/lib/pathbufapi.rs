// ---- pathbufapi.rs: the contracts of VfsPath::as_path and AbsPath::to_path_buf, proved in unit `paths` (written by tools/mkapi.py) ----
verus! {
//@proved_in paths
//@fn vp::VfsPath::as_path ret=r
    requires self.wf(),
    ensures match r { Some(p) => self.0 is PathBuf && p.0.comps() == self.0->PathBuf_0.0.comps(), None => self.0 is VirtualPath },
//@endfn
//@fn pa::AbsPath::to_path_buf ret=r
    requires abs_comps(self.0.comps()),
    ensures r.0.comps() == self.0.comps(), r.0.bytes() == self.0.bytes(),
//@endfn
//@endproved
}

// ---- pathsapi.rs: the contract of VfsPath::from, proved in unit `paths` (written by tools/mkapi.py) ----
verus! {
//@proved_in paths
//@fn vp::VfsPath::from ret=r
    requires abs_comps(v.0.comps()),
    ensures r.wf(), r.0 is PathBuf, r.0->PathBuf_0.0.comps() == resolve(v.0.comps()),
//@endfn
//@fn vp::VfsPath::as_path ret=r
    requires self.wf(),
    ensures match r { Some(p) => self.0 is PathBuf && p.0.comps() == self.0->PathBuf_0.0.comps(), None => self.0 is VirtualPath },
//@endfn
//@endproved
}

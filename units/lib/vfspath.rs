// ---- vfspath.rs: the path types of the file store and what they stand for ----
verus! {
//@type pa::AbsPathBuf derive=
//@type pa::AbsPath derive=
//@type vp::VfsPath derive=
//@type vp::VfsPathRepr derive=
//@type vp::VirtualPath derive=
// TRUSTED: derived Clone
impl Clone for VfsPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for VirtualPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl AbsPathBuf {
    /// on disk: absolute, nothing left to resolve, written the shortest way
    pub open spec fn norm(&self) -> bool { clean(self.0.comps()) && self.0.tidy() }
}
impl VfsPath {
    pub open spec fn wf(&self) -> bool { match self.0 { VfsPathRepr::PathBuf(p) => p.norm(), VfsPathRepr::VirtualPath(_) => true } }
}
}

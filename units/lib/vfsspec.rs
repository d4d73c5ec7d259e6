// ---- vfsspec.rs: the file store, as its properties see it ----
//@file vf crates/vfs/src/lib.rs
//@file pi crates/vfs/src/path_interner.rs
//@retype IndexSet<VfsPath, BuildHasherDefault<FxHasher>> => VxIndexSet<VfsPath>
//@retype impl Iterator<Item = (FileId, &VfsPath)> + '_ => Vec<(FileId, &VfsPath)>
verus! {
//@type vf::FileId derive=Clone,Copy,PartialEq,Eq,Structural
//@type vf::ChangeKind derive=Clone,Copy,PartialEq,Eq,Structural
//@type vf::ChangedFile
//@type pi::PathInterner
//@type vf::Vfs
// ---- the store, as the property sees it ----
impl PathInterner {
    /// the identity of a path
    pub open spec fn id(&self, p: VfsPath) -> FileId { FileId(self.map@.index_of(p) as u32) }
    pub open spec fn knows(&self, p: VfsPath) -> bool { self.map@.contains(p) }
    pub open spec fn wf(&self) -> bool { self.map@.len() < u32::MAX }
    /// P11: different paths never share an identity
    proof fn ids_differ(&self, p: VfsPath, q: VfsPath)
        requires self.wf(), self.knows(p), self.knows(q), self.id(p) == self.id(q),
        ensures p == q,
    { }
    /// an index in the list is the identity of the path there
    proof fn at(&self, i: int)
        requires self.wf(), 0 <= i < self.map@.len(),
        ensures self.id(self.map@[i]) == FileId(i as u32), self.knows(self.map@[i]),
    { let j = self.map@.index_of(self.map@[i]); if i < j { } }
}
/// a growing list keeps its positions
proof fn grown(s: Seq<VfsPath>, t: Seq<VfsPath>, x: VfsPath)
    requires s.no_duplicates(), t.no_duplicates(), t == s || t == s.push(x),
    ensures forall|p: VfsPath| #[trigger] s.contains(p) ==> t.contains(p) && t.index_of(p) == s.index_of(p),
        forall|p: VfsPath| #[trigger] t.contains(p) && p != x ==> s.contains(p),
{
    assert forall|p: VfsPath| #[trigger] s.contains(p) implies t.contains(p) && t.index_of(p) == s.index_of(p) by { let i = s.index_of(p); assert(t[i] == p); }
    assert forall|p: VfsPath| #[trigger] t.contains(p) && p != x implies s.contains(p) by { let i = t.index_of(p); assert(t[i] == p); if i < s.len() { assert(s[i] == p); } }
}
pub open spec fn bytes(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
impl Vfs {
    pub open spec fn wf(&self) -> bool { self.interner.wf() && self.data@.len() == self.interner.map@.len() }
    pub open spec fn knows(&self, p: VfsPath) -> bool { self.interner.knows(p) }
    pub open spec fn id(&self, p: VfsPath) -> FileId { self.interner.id(p) }
    /// the contents of a path, if it exists
    pub open spec fn file(&self, p: VfsPath) -> Option<Seq<u8>> { if self.knows(p) { bytes(self.data@[self.interner.map@.index_of(p)]) } else { None } }
    pub open spec fn log(&self) -> Seq<ChangedFile> { self.changes@ }
    /// room for one more path
    pub open spec fn room(&self, p: VfsPath) -> bool { self.knows(p) || self.interner.map@.len() + 1 < u32::MAX }
}
impl Vfs {
    /// the entries at positions ix, which are those of the existing files
    pub open spec fn picked(&self, ix: Seq<int>, r: Seq<(FileId, &VfsPath)>) -> bool {
        &&& r.len() == ix.len()
        &&& forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i] is Some <==> ix.contains(i))
        &&& forall|k: int| 0 <= k < ix.len() ==> 0 <= #[trigger] ix[k] < self.data@.len() && r[k] == (FileId(ix[k] as u32), &self.interner.map@[ix[k]])
        &&& forall|k: int, l: int| 0 <= k < l < ix.len() ==> #[trigger] ix[k] < #[trigger] ix[l]
    }
    /// exactly the files that exist, each once, with its own identity and path
    pub open spec fn lists(&self, r: Seq<(FileId, &VfsPath)>) -> bool {
        &&& forall|k: int| 0 <= k < r.len() ==> self.file(*(#[trigger] r[k]).1) is Some && r[k].0 == self.id(*r[k].1)
        &&& forall|p: VfsPath| #[trigger] self.file(p) is Some ==> exists|k: int| 0 <= k < r.len() && #[trigger] r[k] == (self.id(p), &p)
        &&& forall|k: int, l: int| 0 <= k < l < r.len() ==> (#[trigger] r[k]).0 != (#[trigger] r[l]).0
    }
}
/// what a write of `new` over `old` is logged as
pub open spec fn kind_of(old: Option<Seq<u8>>, new: Option<Seq<u8>>) -> Option<ChangeKind> {
    if old == new { None } else if old is None { Some(ChangeKind::Create) } else if new is None { Some(ChangeKind::Delete) } else { Some(ChangeKind::Modify) }
}
impl Vfs {
    /// P11: what storing `new` under a path makes of the store: that path's contents, an entry in the
    /// log when they differ, and nothing else
    pub open spec fn written(&self, now: Vfs, path: VfsPath, new: Option<Seq<u8>>, r: bool) -> bool {
        &&& now.wf() && now.knows(path)
        &&& forall|p: VfsPath| #[trigger] self.knows(p) ==> now.knows(p) && now.id(p) == self.id(p)
        &&& forall|p: VfsPath| #[trigger] now.knows(p) ==> self.knows(p) || p == path
        &&& forall|p: VfsPath| #[trigger] now.file(p) == (if p == path { new } else { self.file(p) })
        &&& match kind_of(self.file(path), new) {
            Some(k) => r && now.log() == self.log().push(ChangedFile { file_id: now.id(path), change_kind: k }),
            None => !r && now.log() == self.log(),
        }
    }
}
}

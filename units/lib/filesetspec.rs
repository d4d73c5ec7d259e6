// ---- filesetspec.rs: file sets and how paths fall into them ----
//@file fs crates/vfs/src/file_set.rs
//@retype FxHashMap<VfsPath, FileId> => VxMap<VfsPath, FileId>
//@retype FxHashMap<FileId, VfsPath> => VxMap<FileId, VfsPath>
//@retype fst::Map<Vec<u8>> => VxFst
verus! {
//@type fs::FileSet derive=
//@type fs::FileSetConfig derive=
pub type Key = Seq<u8>;
/// fst::Map
#[verifier::external_body]
pub struct VxFst { f: usize }
impl VxFst { pub uninterp spec fn view(&self) -> Map<Key, u64>; }
// ---- paths as bytes ----
pub open spec fn enc_path(p: VfsPath) -> Key {
    match p.0 { VfsPathRepr::PathBuf(b) => seq![0u8] + b.0.bytes(), VfsPathRepr::VirtualPath(v) => seq![1u8] + encode_utf8(v.0@) }
}
/// root is path itself or a directory it lies in
pub open spec fn above(root: Key, path: Key) -> bool {
    root.is_prefix_of(path) && (root.len() == path.len() || path[root.len() as int] == sep() || root.last() == sep())
}
/// the sets a configuration makes: set -> is it the set of a path?
impl FileSetConfig {
    pub open spec fn wf(&self) -> bool {
        &&& self.n_file_sets > 0
        &&& forall|k: Key| #[trigger] self.map@.contains_key(k) ==> k.len() > 0 && self.map@[k] < self.n_file_sets - 1
    }
    /// P12: the set with the longest root above the path; the last set when there is none
    pub open spec fn nearest(&self, e: Key, c: int) -> bool {
        ||| c == self.n_file_sets - 1 && forall|k: Key| #[trigger] self.map@.contains_key(k) ==> !above(k, e)
        ||| exists|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) && self.map@[k] == c && self.longest(k, e)
    }
    pub open spec fn longest(&self, k: Key, e: Key) -> bool { forall|q: Key| #[trigger] self.map@.contains_key(q) && above(q, e) ==> q.len() <= k.len() }
    /// exactly one set is nearest
    proof fn one_nearest(&self, e: Key, c: int, d: int)
        requires self.wf(), self.nearest(e, c), self.nearest(e, d),
        ensures c == d, 0 <= c < self.n_file_sets,
    {
        if exists|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) {
            let k = choose|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) && self.map@[k] == c && self.longest(k, e);
            let q = choose|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) && self.map@[k] == d && self.longest(k, e);
            assert(k =~= q);
        }
    }
}
impl FileSetConfig {
    /// P12: every existing file in the set of its path, under its path and identity; nothing else anywhere
    pub open spec fn parts(&self, vfs: &Vfs, res: Seq<FileSet>) -> bool {
        &&& res.len() == self.n_file_sets
        &&& forall|p: VfsPath, c: int| #![trigger res[c].files@.contains_key(p)] 0 <= c < res.len() ==>
            (res[c].files@.contains_key(p) <==> vfs.file(p) is Some && self.nearest(enc_path(p), c))
        &&& forall|p: VfsPath, c: int| #![trigger res[c].files@[p]] 0 <= c < res.len() && res[c].files@.contains_key(p) ==>
            res[c].files@[p] == vfs.id(p) && res[c].paths@.contains_key(vfs.id(p)) && res[c].paths@[vfs.id(p)] == p
        &&& forall|f: FileId, c: int| #![trigger res[c].paths@.contains_key(f)] 0 <= c < res.len() && res[c].paths@.contains_key(f) ==>
            res[c].files@.contains_key(res[c].paths@[f]) && res[c].files@[res[c].paths@[f]] == f
    }
}
}

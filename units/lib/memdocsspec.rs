// ---- memdocsspec.rs: the open documents, as their property sees them ----
//@file md crates/move_language_server/src/mem_docs.rs
//@retype FxHashMap<VfsPath, DocumentData> => VxMap<VfsPath, DocumentData>
//@retype impl Iterator<Item = &VfsPath> => VxKeys<'_, VfsPath>
verus! {
//@type md::DocumentData
//@type md::MemDocs
impl MemDocs {
    /// the documents opened and not closed since, with the version last announced
    pub open spec fn open(&self) -> Map<VfsPath, DocumentData> { self.mem_docs@ }
    pub open spec fn touched(&self) -> bool { self.added_or_removed }
}
}

// ---- absorbspec.rs: what analysis is to see of the store, and the server's state ----
//@file inp crates/base_db/src/input.rs noinline
//@file an crates/ide/src/lib.rs noinline
//@file gs crates/move_language_server/src/global_state.rs noinline
//@file rl crates/move_language_server/src/reload.rs noinline
//@retype Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>> => VxLock
//@retype Sender<lsp_server::Message> => VxSender
//@retype Handle<TaskPool<Task>, Receiver<Task>> => VxPool
//@retype lsp_ext::ServerStatusParams => ServerStatusParams
use std::sync::Arc;
verus! {
//@type inp::SourceRootId derive=Clone,Copy,PartialEq,Eq,Structural
//@type inp::SourceRoot derive=
//@type rl::SourceRootConfig derive=
//@type an::AnalysisHost derive=
/// TRUSTED: salsa's inputs are maps; a query reads what was last set, and panics on what never was
#[verifier::external_body]
pub struct RootDatabase { d: usize }
impl RootDatabase {
    #[verifier::external_body]
    pub fn file_source_root(&self, f: FileId) -> (r: SourceRootId) requires self@.root_of.contains_key(f) ensures r == self@.root_of[f] { unimplemented!() }
    #[verifier::external_body]
    pub fn source_root(&self, id: SourceRootId) -> (r: Arc<SourceRoot>) requires self@.roots.contains_key(id) ensures *r == self@.roots[id] { unimplemented!() }
}
pub struct DbView { pub text: Map<FileId, Seq<char>>, pub root_of: Map<FileId, SourceRootId>, pub roots: Map<SourceRootId, SourceRoot> }
impl RootDatabase { pub uninterp spec fn view(&self) -> DbView; }
/// TRUSTED: the store behind its lock; only the main loop writes it
pub struct VxLock { pub x: (Vfs, VxMap<FileId, LineEndings>) }
impl VxLock {
    pub fn read(&self) -> (r: &(Vfs, VxMap<FileId, LineEndings>)) ensures *r == self.x { &self.x }
    pub fn write(&mut self) -> (r: &mut (Vfs, VxMap<FileId, LineEndings>)) ensures *r == old(self).x, final(self).x == *final(r) { &mut self.x }
}
//@type gs::GlobalState derive=
// ---- what analysis is to see ----
/// the contents of every file when changes were last absorbed
pub type Base = Seq<Option<Seq<u8>>>;
pub open spec fn at(b: Base, f: int) -> Option<Seq<u8>> { if 0 <= f < b.len() { b[f] } else { None } }
/// P20: the text with normalised line ends; nothing when it is gone or not valid text
pub open spec fn seen(o: Option<Seq<u8>>) -> Seq<char> {
    match o { Some(v) => if valid_utf8(v) { lf(decode_utf8(v)) } else { Seq::empty() }, None => Seq::empty() }
}
pub open spec fn is_logged(log: Seq<ChangedFile>, f: int) -> bool { exists|i: int| 0 <= i < log.len() && (#[trigger] log[i]).file_id.0 == f }
pub open spec fn first_entry(log: Seq<ChangedFile>, i: int, f: int) -> bool { 0 <= i < log.len() && log[i].file_id.0 == f && forall|j: int| 0 <= j < i ==> (#[trigger] log[j]).file_id.0 != f }
impl Vfs {
    pub open spec fn now(&self, f: int) -> Option<Seq<u8>> { if 0 <= f < self.data@.len() { bytes(self.data@[f]) } else { None } }
    pub open spec fn path(&self, f: int) -> VfsPath { self.interner.map@[f] }
    pub open spec fn all_now(&self) -> Base { Seq::new(self.data@.len(), |f: int| self.now(f)) }
    /// the log has what changed since
    pub open spec fn tracks(&self, base: Base) -> bool {
        &&& base.len() <= self.data@.len()
        &&& forall|i: int| 0 <= i < self.log().len() ==> (#[trigger] self.log()[i]).file_id.0 < self.data@.len()
        &&& forall|f: int| 0 <= f < self.data@.len() && !is_logged(self.log(), f) ==> #[trigger] self.now(f) == at(base, f)
        &&& forall|i: int, f: int| #[trigger] first_entry(self.log(), i, f) ==> (self.log()[i].change_kind == ChangeKind::Create <==> at(base, f) is None)
    }
}
/// analysis has this content for the file, in the source root its path falls into
pub open spec fn settled(cfg: SourceRootConfig, p: VfsPath, f: FileId, content: Option<Seq<u8>>, db: DbView) -> bool {
    &&& db.text.contains_key(f) && db.text[f] == seen(content)
    &&& housed(cfg, p, f, db)
}
pub open spec fn housed(cfg: SourceRootConfig, p: VfsPath, f: FileId, db: DbView) -> bool {
    &&& db.root_of.contains_key(f) && cfg.fsc.nearest(enc_path(p), db.root_of[f].0 as int)
    &&& db.roots.contains_key(db.root_of[f]) && db.roots[db.root_of[f]].file_set.paths@.contains_key(f) && db.roots[db.root_of[f]].file_set.paths@[f] == p
    &&& db.roots[db.root_of[f]].is_library == !cfg.local_filesets@.contains(db.root_of[f].0 as usize)
}
/// P20
pub open spec fn in_step(cfg: SourceRootConfig, vfs: Vfs, base: Base, db: DbView) -> bool {
    &&& forall|f: FileId| #[trigger] at(base, f.0 as int) is Some ==> settled(cfg, vfs.path(f.0 as int), f, at(base, f.0 as int), db)
    &&& forall|f: FileId| #[trigger] db.text.contains_key(f) && at(base, f.0 as int) is None ==> db.text[f] == Seq::<char>::empty()
    &&& forall|f: FileId| #[trigger] db.text.contains_key(f) ==> f.0 < vfs.data@.len()
    &&& forall|f: FileId| #[trigger] db.root_of.contains_key(f) ==> f.0 < vfs.data@.len() && db.roots.contains_key(db.root_of[f])
}
impl GlobalState {
    pub open spec fn store(&self) -> Vfs { self.vfs.x.0 }
    pub open spec fn db(&self) -> DbView { self.analysis_host.db@ }
    /// every open document has its text in the store
    pub open spec fn docs_stored(&self) -> bool { forall|p: VfsPath| #[trigger] self.mem_docs.open().contains_key(p) ==> self.store().file(p) is Some && valid_utf8(self.store().file(p)->0) }
    pub open spec fn setup(&self) -> bool {
        &&& self.store().wf() && self.source_root_config.fsc.wf() && self.source_root_config.fsc.n_file_sets <= u32::MAX
        &&& forall|p: VfsPath| #[trigger] self.store().knows(p) ==> p.wf() && p.0 is PathBuf
    }
    pub open spec fn synced(&self, base: Base) -> bool {
        self.setup() && self.store().tracks(base) && in_step(self.source_root_config, self.store(), base, self.db())
    }
}
/// P20: what did not change keeps what it had
pub open spec fn kept(log: Seq<ChangedFile>, a: DbView, b: DbView) -> bool {
    forall|f: FileId| !is_logged(log, f.0 as int) ==> (#[trigger] b.text.contains_key(f) <==> a.text.contains_key(f)) && (a.text.contains_key(f) ==> b.text[f] == a.text[f])
}
}

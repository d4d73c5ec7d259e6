//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include pathbufapi.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@include vfsapi.rs
//@include filesetapi.rs
//@include lf.rs
//@include utf8.rs
//@include normalizeapi.rs
//@include lsptypes.rs
//@include diagspec.rs
//@include memdocsspec.rs
//@include lspserver.rs
verus! {
#[verifier::external_body]
pub struct Config { p: usize }
}
//@include absorbspec.rs
//@file ch crates/base_db/src/change.rs
//@file inp crates/base_db/src/input.rs
//@file ac crates/ide_db/src/apply_change.rs
//@file an crates/ide/src/lib.rs
//@file gs crates/move_language_server/src/global_state.rs
//@file rl crates/move_language_server/src/reload.rs
//@strip vfs
//@retype &mut dyn SourceDatabase => &mut RootDatabase
//@retype impl Iterator<Item = FileId> + '_ => Vec<FileId>
//@shimfn FxHashMap::default -> VxMap::default
//@shimfn FxHashSet::default -> VxSet::default
//@shimfn String::from_utf8 -> vx_from_utf8
//@shim .to_vec -> vx_to_vec
//@subst first_change[&file.file_id] =>> *first_change.vx_index(&file.file_id)
//@shim .keys.copied -> vx_keys_copied &
//@shim .iter.enumerate -> vx_iter_enumerate
//@shim .entry.or_insert -> vx_or_insert &mut
//@shim .unwrap_or_default -> vx_text_or_empty
//@shim .salsa_runtime_mut.synthetic_write -> vx_cancel
//@shim .into_iter.enumerate.map.collect -> vx_enumerate_map
//@scope rl::SourceRootConfig::partition
//@shim .contains -> vx_vec_contains &
//@endscope
//@scope ch::Change::apply
//@shim .into_iter.enumerate -> vx_enumerate
//@endscope
verus! {
broadcast use {vx_str_fits, vset::indexset_distinct};
global size_of usize == 8;
//@type ch::Change derive=
/// salsa's durabilities: how often an input is expected to change (no effect on what is read)
pub struct Durability(pub u8);
impl Durability { pub const LOW: Durability = Durability(0); pub const MEDIUM: Durability = Durability(1); pub const HIGH: Durability = Durability(2); }
impl Clone for Durability { fn clone(&self) -> (r: Self) ensures r == *self { Durability(self.0) } }
impl Copy for Durability { }
impl RootDatabase {
    #[verifier::external_body]
    pub fn set_file_text_with_durability(&mut self, f: FileId, t: Arc<String>, d: Durability)
        ensures final(self)@ == (DbView { text: old(self)@.text.insert(f, t@), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_file_source_root_with_durability(&mut self, f: FileId, r: SourceRootId, d: Durability)
        ensures final(self)@ == (DbView { root_of: old(self)@.root_of.insert(f, r), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_source_root_with_durability(&mut self, id: SourceRootId, r: Arc<SourceRoot>, d: Durability)
        ensures final(self)@ == (DbView { roots: old(self)@.roots.insert(id, *r), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_local_roots_with_durability(&mut self, s: Arc<VxSet<SourceRootId>>, d: Durability) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_library_roots_with_durability(&mut self, s: Arc<VxSet<SourceRootId>>, d: Durability) ensures final(self)@ == old(self)@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cancel(db: &mut RootDatabase, d: Durability) ensures final(db)@ == old(db)@ { unimplemented!() }
// ---- std ----
#[verifier::external_body]
pub fn vx_keys_copied<V>(m: &VxMap<FileId, V>) -> (r: Vec<FileId>) ensures forall|f: FileId| #[trigger] r@.contains(f) <==> m@.contains_key(f) { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_enumerate<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>) ensures r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, &v@[i]) { unimplemented!() }
pub fn vx_or_insert<K, V>(m: &mut VxMap<K, V>, k: K, v: V) -> (r: &mut V)
    ensures *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { v }), final(m)@ == old(m)@.insert(k, *final(r)) { m.vx_or_insert(k, v) }
#[verifier::external_body]
pub fn vx_text_or_empty(o: Option<Arc<String>>) -> (r: Arc<String>) ensures r@ == (match o { Some(t) => t@, None => Seq::empty() }) { o.unwrap_or_default() }
#[verifier::external_body]
pub fn vx_vec_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) { v.contains(x) }
/// v.into_iter().enumerate().map(f).collect()
#[verifier::external_body]
pub fn vx_enumerate_map<A, B, F: Fn((usize, A)) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, ((i as usize, #[trigger] v@[i]),)),
    ensures mapped(v@, r@), r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, ((i as usize, v@[i]),), #[trigger] r@[i]),
{ v.into_iter().enumerate().map(f).collect() }
pub open spec fn mapped<A, B>(v: Seq<A>, r: Seq<B>) -> bool { true }
// ---- source roots ----
//@fn fs::FileSet::iter ret=r
    ensures forall|f: FileId| #[trigger] r@.contains(f) <==> self.paths@.contains_key(f),
//@endfn
//@fn inp::SourceRoot::new_local ret=r
    ensures r.file_set == file_set, !r.is_library,
//@endfn
//@fn inp::SourceRoot::new_library ret=r
    ensures r.file_set == file_set, r.is_library,
//@endfn
//@fn inp::SourceRoot::iter ret=r
    ensures forall|f: FileId| #[trigger] r@.contains(f) <==> self.file_set.paths@.contains_key(f),
//@endfn
//@closure rl::SourceRootConfig::partition/collect#0 |(usize,FileSet)| SourceRoot ensures vx_r.file_set == $0.1, vx_r.is_library == !self.local_filesets@.contains($0.0)
pub open spec fn sets_of(r: Seq<SourceRoot>) -> Seq<FileSet> { r.map(|i: int, s: SourceRoot| s.file_set) }
impl SourceRootConfig {
    /// the source roots a configuration makes of a store
    pub open spec fn makes(&self, vfs: &Vfs, r: Seq<SourceRoot>) -> bool {
        &&& self.fsc.parts(vfs, sets_of(r))
        &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).is_library == !self.local_filesets@.contains(i as usize)
    }
}
//@fn rl::SourceRootConfig::partition ret=r bindtail
    requires self.fsc.wf(), vfs.wf(), forall|p: VfsPath| #[trigger] vfs.knows(p) ==> p.wf(),
    ensures self.makes(vfs, r@),
//@at end
    proof {
        let v = choose|v: Seq<FileSet>| #[trigger] mapped(v, vx_tail@) && self.fsc.parts(vfs, v) && v.len() == vx_tail@.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] vx_tail@[i]).file_set == v[i] && vx_tail@[i].is_library == !self.local_filesets@.contains(i as usize);
        assert(sets_of(vx_tail@) =~= v);
    }
//@endfn
// ---- changes ----
pub open spec fn text_of(o: Option<Arc<String>>) -> Seq<char> { match o { Some(t) => t@, None => Seq::empty() } }
pub type Edit = (FileId, Option<Arc<String>>);
/// f is in one of the sets of the roots
pub open spec fn in_root(r: Seq<SourceRoot>, f: FileId, i: int) -> bool { 0 <= i < r.len() && r[i].file_set.paths@.contains_key(f) }
pub open spec fn in_roots(r: Seq<SourceRoot>, f: FileId) -> bool { exists|i: int| #[trigger] in_root(r, f, i) }
/// what is read after the files of the list were set one after another
pub open spec fn texts(t: Map<FileId, Seq<char>>, e: Seq<Edit>) -> Map<FileId, Seq<char>> decreases e.len() {
    if e.len() == 0 { t } else { texts(t, e.drop_last()).insert(e.last().0, text_of(e.last().1)) }
}
/// the first n roots (and those of the next in `some`) are set
pub open spec fn rooted(r: Seq<SourceRoot>, n: int, some: Seq<FileId>, a: DbView, b: DbView) -> bool {
    &&& b.text == a.text
    &&& forall|f: FileId| #[trigger] b.root_of.contains_key(f) ==> (
        a.root_of.contains_key(f) && b.root_of[f] == a.root_of[f] && (forall|i: int| #[trigger] in_root(r, f, i) ==> i >= n) && !some.contains(f)
        || some.contains(f) && b.root_of[f] == SourceRootId(n as u32)
        || exists|i: int| i < n && #[trigger] in_root(r, f, i) && b.root_of[f] == SourceRootId(i as u32))
    &&& forall|f: FileId| #[trigger] a.root_of.contains_key(f) ==> b.root_of.contains_key(f)
    &&& forall|f: FileId, i: int| i < n && #[trigger] in_root(r, f, i) ==> b.root_of.contains_key(f)
    &&& forall|f: FileId| #[trigger] some.contains(f) ==> b.root_of.contains_key(f)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] b.roots.contains_key(SourceRootId(i as u32)) && b.roots[SourceRootId(i as u32)] == r[i]
    &&& forall|k: SourceRootId| #[trigger] b.roots.contains_key(k) ==> (k.0 < n || a.roots.contains_key(k) && b.roots[k] == a.roots[k])
    &&& forall|k: SourceRootId| #[trigger] a.roots.contains_key(k) ==> b.roots.contains_key(k)
}
/// b: a with the roots of a change set
pub open spec fn reroot(o: Option<Vec<SourceRoot>>, a: DbView, b: DbView) -> bool {
    match o { Some(r) => rooted(r@, r@.len() as int, Seq::empty(), a, b), None => a == b }
}
impl Change {
    /// every file it changes has a root
    pub open spec fn fits(&self, db: DbView) -> bool {
        &&& self.roots is Some ==> self.roots->0@.len() <= u32::MAX
        &&& forall|i: int| 0 <= i < self.files_changed@.len() ==> db.root_of.contains_key((#[trigger] self.files_changed@[i]).0) || self.roots is Some && in_roots(self.roots->0@, self.files_changed@[i].0)
        &&& forall|f: FileId| #[trigger] db.root_of.contains_key(f) ==> db.roots.contains_key(db.root_of[f])
    }
    pub open spec fn applied(&self, a: DbView, b: DbView) -> bool {
        exists|m: DbView| #[trigger] reroot(self.roots, a, m) && b == (DbView { text: texts(a.text, self.files_changed@), ..m })
    }
}
impl Change {
    // TRUSTED: derived Default
    #[verifier::external_body]
    fn default() -> (r: Change) ensures r.roots is None, r.files_changed@.len() == 0 { unimplemented!() }
}
/// one more file of the next root
proof fn rooted_file(r: Seq<SourceRoot>, n: int, fs: Seq<FileId>, m: int, a: DbView, b: DbView, c: DbView)
    requires rooted(r, n, fs.take(m), a, b), 0 <= m < fs.len(), c == (DbView { root_of: b.root_of.insert(fs[m], SourceRootId(n as u32)), ..b }),
    ensures rooted(r, n, fs.take(m + 1), a, c),
{
    assert(fs.take(m + 1) =~= fs.take(m).push(fs[m]));
    let s = fs.take(m); let t = fs.take(m + 1);
    assert(t[m] == fs[m]);
    assert forall|f: FileId| #[trigger] t.contains(f) implies f == fs[m] || s.contains(f) by { let i = t.index_of(f); if i < m { assert(s[i] == f); } }
    assert forall|f: FileId| #[trigger] s.contains(f) implies t.contains(f) by { let i = s.index_of(f); assert(t[i] == f); }
}
/// the next root, with all its files set
proof fn rooted_root(r: Seq<SourceRoot>, n: int, fs: Seq<FileId>, a: DbView, b: DbView, c: DbView)
    requires rooted(r, n, fs, a, b), 0 <= n < r.len() <= u32::MAX, forall|f: FileId| #[trigger] fs.contains(f) <==> in_root(r, f, n),
        c == (DbView { roots: b.roots.insert(SourceRootId(n as u32), r[n]), ..b }),
    ensures rooted(r, n + 1, Seq::empty(), a, c),
{
    assert forall|f: FileId| #[trigger] in_root(r, f, n) implies fs.contains(f) by { }
    assert forall|f: FileId| #[trigger] c.root_of.contains_key(f) implies (
        a.root_of.contains_key(f) && c.root_of[f] == a.root_of[f] && (forall|i: int| #[trigger] in_root(r, f, i) ==> i >= n + 1)
        || exists|i: int| i < n + 1 && #[trigger] in_root(r, f, i) && c.root_of[f] == SourceRootId(i as u32)) by {
        assert(b.root_of.contains_key(f));
        if fs.contains(f) { assert(in_root(r, f, n)); }
    }
    assert forall|f: FileId, i: int| i < n + 1 && #[trigger] in_root(r, f, i) implies c.root_of.contains_key(f) by { if i == n { assert(fs.contains(f)); } }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] c.roots.contains_key(SourceRootId(i as u32)) && c.roots[SourceRootId(i as u32)] == r[i] by { if i < n { assert(b.roots.contains_key(SourceRootId(i as u32))); } }
}
/// a file to change has its root
proof fn rooted_fits(ch: Change, a: DbView, b: DbView, f: FileId, k: int)
    requires ch.fits(a), reroot(ch.roots, a, b), 0 <= k < ch.files_changed@.len(), ch.files_changed@[k].0 == f,
    ensures b.root_of.contains_key(f), b.roots.contains_key(b.root_of[f]),
{
    if ch.roots is Some {
        let r = ch.roots->0@;
        if in_roots(r, f) { let i = choose|i: int| #[trigger] in_root(r, f, i); assert(i < r.len()); }
        assert(b.root_of.contains_key(f));
    }
}
//@fn ch::Change::new ret=r
    ensures r.roots is None, r.files_changed@.len() == 0,
//@endfn
//@fn ch::Change::set_roots
    ensures final(self).roots == Some(roots), final(self).files_changed == old(self).files_changed,
//@endfn
//@fn ch::Change::change_file
    ensures final(self).files_changed@ == old(self).files_changed@.push((file_id, new_text)), final(self).roots == old(self).roots,
//@endfn
//@fn ch::durability
//@endfn
//@fn ch::Change::apply
    requires self.fits(old(db)@),
    ensures self.applied(old(db)@, final(db)@),
//@attr #[verifier::loop_isolation(false)]
//@at start
    let ghost me = self; let ghost d0 = db@; let ghost mut d1 = d0;
//@loop 0 next=vx_rs
    invariant me.roots is Some, vx_rs_all.len() == me.roots->0@.len(), vx_rs.rest().len() <= vx_rs_all.len(), vx_rs.rest() == vx_rs_all.skip(vx_rs_all.len() - vx_rs.rest().len()),
        rooted(me.roots->0@, vx_rs_all.len() - vx_rs.rest().len(), Seq::empty(), d0, db@),
    decreases vx_rs.rest().len(),
//@at loopstart 0
    let ghost n = vx_rs_all.len() - vx_rs.rest().len() - 1;
    let ghost rs = me.roots->0@; let ghost mut sofar = Seq::<FileId>::empty();
    proof { assert(vx_rs_all.skip(n)[0] == (idx, root)); assert(vx_rs_all[n] == (idx, root)); assert(vx_rs_all.skip(n).skip(1) =~= vx_rs_all.skip(n + 1)); }
//@loop 1 next=vx_fs:vx_vec_iter
    invariant vx_fs.rest().len() <= vx_fs_all.len(), vx_fs.rest() == vx_fs_all.skip(vx_fs_all.len() - vx_fs.rest().len()),
        sofar == vx_fs_all.take(vx_fs_all.len() - vx_fs.rest().len()), vx_fs.rest().len() == 0 ==> sofar == vx_fs_all, rooted(rs, n, sofar, d0, db@),
    decreases vx_fs.rest().len(),
//@at loopstart 1
    let ghost m = vx_fs_all.len() - vx_fs.rest().len() - 1;
    let ghost was = db@;
    proof { assert(vx_fs_all.skip(m)[0] == file_id); assert(vx_fs_all[m] == file_id); assert(vx_fs_all.skip(m).skip(1) =~= vx_fs_all.skip(m + 1)); }
//@at loopend 1
    proof { rooted_file(rs, n, vx_fs_all, m, d0, was, db@); sofar = vx_fs_all.take(m + 1); if m + 1 == vx_fs_all.len() { assert(sofar =~= vx_fs_all); } }
//@at loopend 0
    proof { rooted_root(rs, n, sofar, d0, mid, db@); }
//@at afterloop 1
    let ghost mid = db@;
//@at afterloop 0
    proof { d1 = db@; }
//@loop 2 next=vx_cs:vx_vec_iter
    invariant vx_cs_all == me.files_changed@, vx_cs.rest().len() <= vx_cs_all.len(), vx_cs.rest() == vx_cs_all.skip(vx_cs_all.len() - vx_cs.rest().len()),
        reroot(me.roots, d0, d1), db@ == (DbView { text: texts(d0.text, vx_cs_all.take(vx_cs_all.len() - vx_cs.rest().len())), ..d1 }),
    decreases vx_cs.rest().len(),
//@at loopstart 2
    let ghost k = vx_cs_all.len() - vx_cs.rest().len() - 1;
    proof {
        assert(vx_cs_all.skip(k)[0] == (file_id, text)); assert(vx_cs_all[k] == (file_id, text)); assert(vx_cs_all.skip(k).skip(1) =~= vx_cs_all.skip(k + 1));
        assert(vx_cs_all.take(k + 1).drop_last() =~= vx_cs_all.take(k));
        rooted_fits(me, d0, d1, file_id, k);
    }
//@at end
    proof { assert(me.files_changed@.take(me.files_changed@.len() as int) =~= me.files_changed@); assert(reroot(me.roots, d0, d1)); }
//@endfn
//@fn ac::RootDatabase::request_cancellation
    ensures final(self)@ == old(self)@,
//@endfn
//@fn ac::RootDatabase::apply_change
    requires change.fits(old(self)@),
    ensures change.applied(old(self)@, final(self)@),
//@attr #[verifier::loop_isolation(false)]
//@loop 0 next=vx_rs:vx_vec_iter
    invariant true,
    decreases vx_rs.rest().len(),
//@endfn
//@fn an::AnalysisHost::apply_change
    requires change.fits(old(self).db@),
    ensures change.applied(old(self).db@, final(self).db@),
//@endfn
/// first: the kind of the first entry of every file among the first n
pub open spec fn firsts(log: Seq<ChangedFile>, n: int, first: Map<FileId, ChangeKind>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> first.contains_key((#[trigger] log[i]).file_id)
    &&& forall|f: FileId| #[trigger] first.contains_key(f) ==> exists|i: int| i < n && #[trigger] first_entry(log, i, f.0 as int) && first[f] == log[i].change_kind
}
proof fn firsts_next(log: Seq<ChangedFile>, n: int, a: Map<FileId, ChangeKind>, b: Map<FileId, ChangeKind>)
    requires firsts(log, n, a), 0 <= n < log.len(), b == (if a.contains_key(log[n].file_id) { a.insert(log[n].file_id, a[log[n].file_id]) } else { a.insert(log[n].file_id, log[n].change_kind) }),
    ensures firsts(log, n + 1, b),
{
    assert forall|f: FileId| #[trigger] b.contains_key(f) implies exists|i: int| i < n + 1 && #[trigger] first_entry(log, i, f.0 as int) && b[f] == log[i].change_kind by {
        if a.contains_key(f) { let i = choose|i: int| i < n && #[trigger] first_entry(log, i, f.0 as int) && a[f] == log[i].change_kind; assert(i < n + 1); }
        else { assert(first_entry(log, n, f.0 as int)) by { assert forall|j: int| 0 <= j < n implies (#[trigger] log[j]).file_id.0 != f.0 by { assert(a.contains_key(log[j].file_id)); } } }
    }
}
/// created and deleted again: analysis never hears of it
pub open spec fn skipped(vfs: Vfs, base: Base, f: int) -> bool { vfs.now(f) is None && at(base, f) is None }
/// the files of the first n entries are told as they are now
pub open spec fn told(vfs: Vfs, base: Base, log: Seq<ChangedFile>, n: int, e: Seq<Edit>) -> bool {
    &&& forall|k: int| 0 <= k < e.len() ==> right(vfs, base, log, n, #[trigger] e[k])
    &&& forall|i: int| 0 <= i < n && !skipped(vfs, base, (#[trigger] log[i]).file_id.0 as int) ==> edits(e, log[i].file_id)
}
pub open spec fn right(vfs: Vfs, base: Base, log: Seq<ChangedFile>, n: int, e: Edit) -> bool {
    &&& text_of(e.1) == seen(vfs.now(e.0.0 as int)) && !skipped(vfs, base, e.0.0 as int)
    &&& exists|i: int| 0 <= i < n && (#[trigger] log[i]).file_id == e.0
}
pub open spec fn edits(e: Seq<Edit>, f: FileId) -> bool { exists|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == f }
pub open spec fn only_modified(vfs: Vfs, base: Base, log: Seq<ChangedFile>, n: int) -> bool {
    forall|i: int| 0 <= i < n && !skipped(vfs, base, (#[trigger] log[i]).file_id.0 as int) ==> log[i].change_kind == ChangeKind::Modify
}
/// a file that is skipped adds nothing
proof fn told_skip(vfs: Vfs, base: Base, log: Seq<ChangedFile>, n: int, e: Seq<Edit>)
    requires told(vfs, base, log, n, e), 0 <= n < log.len(),
    ensures skipped(vfs, base, log[n].file_id.0 as int) ==> told(vfs, base, log, n + 1, e),
{
    assert forall|k: int| 0 <= k < e.len() implies right(vfs, base, log, n + 1, #[trigger] e[k]) by { assert(right(vfs, base, log, n, e[k])); }
}
proof fn told_next(vfs: Vfs, base: Base, log: Seq<ChangedFile>, n: int, e: Seq<Edit>, x: Edit)
    requires told(vfs, base, log, n, e), 0 <= n < log.len(), x.0 == log[n].file_id, text_of(x.1) == seen(vfs.now(x.0.0 as int)), !skipped(vfs, base, x.0.0 as int),
    ensures told(vfs, base, log, n + 1, e.push(x)),
{
    let g = e.push(x);
    assert forall|k: int| 0 <= k < g.len() implies right(vfs, base, log, n + 1, #[trigger] g[k]) by { if k < e.len() { assert(right(vfs, base, log, n, e[k])); } }
    assert forall|i: int| 0 <= i < n + 1 && !skipped(vfs, base, (#[trigger] log[i]).file_id.0 as int) implies edits(g, log[i].file_id) by {
        if i < n { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == log[i].file_id; assert(g[k] == e[k]); } else { assert(g[e.len() as int] == x); }
    }
}
/// nothing changed
proof fn same_base(cfg: SourceRootConfig, vfs: Vfs, v1: Vfs, base: Base, db: DbView)
    requires vfs.wf(), vfs.tracks(base), vfs.log().len() == 0, in_step(cfg, vfs, base, db), v1.data == vfs.data, v1.interner == vfs.interner, v1.log().len() == 0,
    ensures in_step(cfg, v1, v1.all_now(), db), v1.tracks(v1.all_now()),
{
    assert forall|f: int| #[trigger] at(v1.all_now(), f) == at(base, f) by { if 0 <= f < vfs.data@.len() { assert(!is_logged(vfs.log(), f)); assert(vfs.now(f) == at(base, f)); assert(v1.now(f) == vfs.now(f)); } }
    assert forall|f: int| 0 <= f < v1.data@.len() implies #[trigger] v1.now(f) == at(v1.all_now(), f) by { }
}
/// what is read of a file after a list of edits
proof fn texts_at(t: Map<FileId, Seq<char>>, e: Seq<Edit>, f: FileId, s: Seq<char>)
    requires forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == f ==> text_of(e[k].1) == s,
    ensures texts(t, e).contains_key(f) <==> t.contains_key(f) || edits(e, f), texts(t, e).contains_key(f) ==> texts(t, e)[f] == (if edits(e, f) { s } else { t[f] }),
    decreases e.len(),
{
    if e.len() > 0 {
        let d = e.drop_last();
        assert forall|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == f implies text_of(d[k].1) == s by { assert(e[k] == d[k]); }
        texts_at(t, d, f, s);
        if edits(d, f) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == f; assert(e[k].0 == f); }
        if e.last().0 == f { assert(e[e.len() - 1].0 == f); }
        if edits(e, f) && e.last().0 != f { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == f; assert(d[k].0 == f); }
    }
}
proof fn has_first(log: Seq<ChangedFile>, f: int, i: int) -> (r: int)
    requires 0 <= i < log.len(), log[i].file_id.0 == f,
    ensures r <= i, first_entry(log, r, f),
    decreases i,
{
    if exists|j: int| 0 <= j < i && (#[trigger] log[j]).file_id.0 == f { let j = choose|j: int| 0 <= j < i && (#[trigger] log[j]).file_id.0 == f; has_first(log, f, j) } else { i }
}
/// every path falls into a set
proof fn some_nearest(c: FileSetConfig, e: Key, n: int) -> (r: int)
    requires c.wf(), 0 <= n, forall|k: Key| #[trigger] c.map@.contains_key(k) && above(k, e) ==> k.len() <= n,
    ensures c.nearest(e, r), 0 <= r < c.n_file_sets,
    decreases n,
{
    if exists|k: Key| #[trigger] c.map@.contains_key(k) && above(k, e) && k.len() == n {
        let k = choose|k: Key| #[trigger] c.map@.contains_key(k) && above(k, e) && k.len() == n;
        assert(c.longest(k, e));
        c.map@[k] as int
    } else if n == 0 { c.n_file_sets - 1 } else { some_nearest(c, e, n - 1) }
}
/// an existing file is in the root of its path, and only there
proof fn in_its_root(cfg: SourceRootConfig, vfs: Vfs, r: Seq<SourceRoot>, f: FileId)
    requires vfs.wf(), cfg.fsc.wf(), cfg.makes(&vfs, r), f.0 < vfs.data@.len(), vfs.now(f.0 as int) is Some,
    ensures in_roots(r, f), forall|i: int| #[trigger] in_root(r, f, i) ==> cfg.fsc.nearest(enc_path(vfs.path(f.0 as int)), i) && r[i].file_set.paths@[f] == vfs.path(f.0 as int),
{
    let p = vfs.path(f.0 as int);
    vfs.interner.at(f.0 as int);
    let e = enc_path(p);
    assert forall|k: Key| #[trigger] cfg.fsc.map@.contains_key(k) && above(k, e) implies k.len() <= e.len() by { }
    let c = some_nearest(cfg.fsc, e, e.len() as int);
    let s = sets_of(r);
    assert(vfs.file(p) is Some);
    assert(s[c].files@.contains_key(p));
    assert(s[c].files@[p] == vfs.id(p));
    assert(s[c] == r[c].file_set);
    assert(in_root(r, f, c));
    assert forall|i: int| #[trigger] in_root(r, f, i) implies cfg.fsc.nearest(e, i) && r[i].file_set.paths@[f] == p by {
        assert(s[i] == r[i].file_set);
        assert(s[i].paths@.contains_key(f));
        let q = s[i].paths@[f];
        assert(s[i].files@.contains_key(q) && s[i].files@[q] == f);
        assert(vfs.file(q) is Some);
        vfs.interner.ids_differ(p, q);
    }
}
/// only known files are in roots
proof fn roots_known(cfg: SourceRootConfig, vfs: Vfs, r: Seq<SourceRoot>, f: FileId)
    requires vfs.wf(), cfg.makes(&vfs, r), in_roots(r, f),
    ensures f.0 < vfs.data@.len(),
{
    let i = choose|i: int| #[trigger] in_root(r, f, i);
    let s = sets_of(r);
    assert(s[i] == r[i].file_set);
    assert(s[i].paths@.contains_key(f));
    let q = s[i].paths@[f];
    assert(s[i].files@.contains_key(q) && s[i].files@[q] == f);
    assert(vfs.file(q) is Some);
}
pub open spec fn absorbs(cfg: SourceRootConfig, st: Vfs, v1: Vfs, base: Base, d0: DbView, ch: Change) -> bool {
    &&& st.wf() && v1.data == st.data && v1.interner == st.interner && v1.log().len() == 0 && cfg.fsc.wf() && cfg.fsc.n_file_sets <= u32::MAX
    &&& st.tracks(base) && in_step(cfg, st, base, d0)
    &&& told(st, base, st.log(), st.log().len() as int, ch.files_changed@)
    &&& match ch.roots { Some(r) => cfg.makes(&v1, r@), None => only_modified(st, base, st.log(), st.log().len() as int) }
}
/// a file new to analysis means the roots are set again
proof fn new_files_root(cfg: SourceRootConfig, st: Vfs, v1: Vfs, base: Base, d0: DbView, ch: Change, f: FileId)
    requires absorbs(cfg, st, v1, base, d0, ch), f.0 < st.data@.len(), st.now(f.0 as int) is Some, at(base, f.0 as int) is None,
    ensures ch.roots is Some, is_logged(st.log(), f.0 as int),
{
    assert(is_logged(st.log(), f.0 as int));
    let i = choose|i: int| 0 <= i < st.log().len() && (#[trigger] st.log()[i]).file_id.0 == f.0;
    let j = has_first(st.log(), f.0 as int, i);
    assert(st.log()[j].change_kind == ChangeKind::Create);
    assert(!skipped(st, base, st.log()[j].file_id.0 as int));
}
proof fn absorbed_fits(cfg: SourceRootConfig, st: Vfs, v1: Vfs, base: Base, d0: DbView, ch: Change)
    requires absorbs(cfg, st, v1, base, d0, ch),
    ensures ch.fits(d0),
{
    let e = ch.files_changed@;
    assert forall|k: int| 0 <= k < e.len() implies d0.root_of.contains_key((#[trigger] e[k]).0) || ch.roots is Some && in_roots(ch.roots->0@, e[k].0) by {
        let f = e[k].0;
        assert(right(st, base, st.log(), st.log().len() as int, e[k]));
        assert(f.0 < st.data@.len());
        if at(base, f.0 as int) is None {
            new_files_root(cfg, st, v1, base, d0, ch, f);
            assert(v1.now(f.0 as int) == st.now(f.0 as int));
            in_its_root(cfg, v1, ch.roots->0@, f);
        }
    }
}
proof fn absorbed(cfg: SourceRootConfig, st: Vfs, v1: Vfs, base: Base, d0: DbView, d1: DbView, ch: Change)
    requires absorbs(cfg, st, v1, base, d0, ch), ch.applied(d0, d1),
    ensures in_step(cfg, v1, v1.all_now(), d1), v1.tracks(v1.all_now()),
        kept(st.log(), d0, d1),
{
    let e = ch.files_changed@; let log = st.log();
    let m = choose|m: DbView| #[trigger] reroot(ch.roots, d0, m) && d1 == (DbView { text: texts(d0.text, e), ..m });
    assert forall|f: int| #[trigger] at(v1.all_now(), f) == st.now(f) by { assert(v1.now(f) == st.now(f)); }
    assert forall|f: int| 0 <= f < v1.data@.len() implies #[trigger] v1.now(f) == at(v1.all_now(), f) by { }
    assert forall|f: FileId| true implies
        (#[trigger] d1.text.contains_key(f) <==> d0.text.contains_key(f) || edits(e, f)) && (d1.text.contains_key(f) ==> d1.text[f] == (if edits(e, f) { seen(st.now(f.0 as int)) } else { d0.text[f] }))
        && (edits(e, f) ==> is_logged(log, f.0 as int) && !skipped(st, base, f.0 as int)) && (is_logged(log, f.0 as int) && !skipped(st, base, f.0 as int) ==> edits(e, f)) by {
        assert forall|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == f implies text_of(e[k].1) == seen(st.now(f.0 as int)) by { assert(right(st, base, log, log.len() as int, e[k])); }
        texts_at(d0.text, e, f, seen(st.now(f.0 as int)));
        if edits(e, f) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == f; assert(right(st, base, log, log.len() as int, e[k])); let i = choose|i: int| 0 <= i < log.len() && (#[trigger] log[i]).file_id == e[k].0; assert(log[i].file_id.0 == f.0); }
        if is_logged(log, f.0 as int) { let i = choose|i: int| 0 <= i < log.len() && (#[trigger] log[i]).file_id.0 == f.0; assert(log[i].file_id == f); }
    }
    assert forall|f: FileId| #[trigger] at(v1.all_now(), f.0 as int) is Some implies settled(cfg, v1.path(f.0 as int), f, at(v1.all_now(), f.0 as int), d1) by {
        assert(at(v1.all_now(), f.0 as int) == st.now(f.0 as int));
        assert(f.0 < st.data@.len());
        if !is_logged(log, f.0 as int) { assert(st.now(f.0 as int) == at(base, f.0 as int)); }
        if at(base, f.0 as int) is None { new_files_root(cfg, st, v1, base, d0, ch, f); }
        if is_logged(log, f.0 as int) { assert(!skipped(st, base, f.0 as int)); assert(edits(e, f)); assert(d1.text.contains_key(f)); }
        else { assert(settled(cfg, st.path(f.0 as int), f, at(base, f.0 as int), d0)); assert(d0.text.contains_key(f)); assert(!edits(e, f)); assert(d1.text.contains_key(f)); }
        match ch.roots {
            Some(r) => {
                in_its_root(cfg, v1, r@, f);
                let i = choose|i: int| #[trigger] in_root(r@, f, i);
                assert(m.root_of.contains_key(f));
                let j = choose|j: int| j < r@.len() && #[trigger] in_root(r@, f, j) && m.root_of[f] == SourceRootId(j as u32);
                assert(in_root(r@, f, j));
                assert(m.roots.contains_key(SourceRootId(j as u32)));
            },
            None => { assert(settled(cfg, st.path(f.0 as int), f, at(base, f.0 as int), d0)); },
        }
    }
    assert forall|f: FileId| #[trigger] d1.text.contains_key(f) && at(v1.all_now(), f.0 as int) is None implies d1.text[f] == Seq::<char>::empty() by {
        assert(at(v1.all_now(), f.0 as int) == st.now(f.0 as int));
        if !edits(e, f) {
            assert(d0.text.contains_key(f)); assert(f.0 < st.data@.len());
            if !is_logged(log, f.0 as int) { assert(st.now(f.0 as int) == at(base, f.0 as int)); }
        }
    }
    assert forall|f: FileId| #[trigger] d1.text.contains_key(f) implies f.0 < v1.data@.len() by { if edits(e, f) { let i = choose|i: int| 0 <= i < log.len() && (#[trigger] log[i]).file_id.0 == f.0; } }
    assert forall|f: FileId| #[trigger] d1.root_of.contains_key(f) implies f.0 < v1.data@.len() && d1.roots.contains_key(d1.root_of[f]) by {
        match ch.roots {
            Some(r) => {
                assert(m.root_of.contains_key(f));
                if exists|i: int| i < r@.len() && #[trigger] in_root(r@, f, i) && m.root_of[f] == SourceRootId(i as u32) {
                    let i = choose|i: int| i < r@.len() && #[trigger] in_root(r@, f, i) && m.root_of[f] == SourceRootId(i as u32);
                    assert(in_roots(r@, f));
                    roots_known(cfg, v1, r@, f);
                    assert(m.roots.contains_key(SourceRootId(i as u32)));
                } else { assert(d0.root_of.contains_key(f)); assert(d0.roots.contains_key(d0.root_of[f])); }
            },
            None => { },
        }
    }
}
//@fn gs::GlobalState::process_changes ret=r
    requires exists|base: Base| #[trigger] old(self).synced(base),
    ensures
        final(self).synced(final(self).store().all_now()),
        final(self).store().data == old(self).store().data, final(self).store().interner == old(self).store().interner, final(self).store().log().len() == 0,
        r == (old(self).store().log().len() > 0),
        *final(self) == (GlobalState { vfs: final(self).vfs, analysis_host: final(self).analysis_host, ..*old(self) }),
        // what did not change keeps what it had
        kept(old(self).store().log(), old(self).db(), final(self).db()),
//@attr #[verifier::loop_isolation(false)]
//@locals vfs changed_files first_change has_structure_changes change
//@at start
    let ghost base = choose|base: Base| #[trigger] self.synced(base);
    let ghost st = self.store(); let ghost log = st.log(); let ghost cfg = self.source_root_config; let ghost d0 = self.db();
    proof { assert forall|f: int| #[trigger] at(st.all_now(), f) == st.now(f) by { } }
//@at after_call take_changes 0
    proof {
        if log.len() == 0 { same_base(cfg, st, *vfs, base, d0); }
        assert forall|p: VfsPath| #[trigger] vfs.knows(p) implies p.wf() && p.0 is PathBuf by { assert(st.knows(p)); }
    }
//@at before_call apply_change 0
    let ghost v1 = self.store();
    proof { absorbed_fits(cfg, st, v1, base, d0, change); }
//@at end
    proof { absorbed(cfg, st, v1, base, d0, self.db(), change); }
//@loop 0 next=vx_a:vx_refs
    invariant vx_a_all == log, vx_a.rest().len() <= vx_a_all.len(), vx_a.rest() == vx_a_all.skip(vx_a_all.len() - vx_a.rest().len()),
        firsts(log, log.len() - vx_a.rest().len(), first_change@),
    decreases vx_a.rest().len(),
//@at loopstart 0
    let ghost n = log.len() - vx_a.rest().len() - 1;
    let ghost fc = first_change@;
    proof { assert(vx_a_all.skip(n)[0] == *file); assert(vx_a_all[n] == *file); assert(vx_a_all.skip(n).skip(1) =~= vx_a_all.skip(n + 1)); }
//@at loopend 0
    proof { firsts_next(log, n, fc, first_change@); }
//@at before_call change_file 0
    proof {
        if text is Some { if !decode_utf8(bytes(vfs.data@[fid.0 as int])->0).contains('\r') { lf_none(decode_utf8(bytes(vfs.data@[fid.0 as int])->0)); } }
        assert(text_of(text) =~= seen(st.now(fid.0 as int)));
        told_next(st, base, log, n, had, (fid, text));
    }
//@loop 1 next=vx_b:vx_vec_iter
    invariant vx_b_all == log, vx_b.rest().len() <= vx_b_all.len(), vx_b.rest() == vx_b_all.skip(vx_b_all.len() - vx_b.rest().len()),
        change.roots is None, told(st, base, log, log.len() - vx_b.rest().len(), change.files_changed@),
        !has_structure_changes ==> only_modified(st, base, log, log.len() - vx_b.rest().len()),
        vfs.data == st.data, vfs.interner == st.interner, vfs.log().len() == 0, forall|p: VfsPath| #[trigger] vfs.knows(p) ==> p.wf() && p.0 is PathBuf,
    decreases vx_b.rest().len(),
//@at loopstart 1
    let ghost n = log.len() - vx_b.rest().len() - 1;
    let ghost fid = file.file_id; let ghost kind = file.change_kind; let ghost had = change.files_changed@;
    proof {
        assert(vx_b_all.skip(n)[0] == file); assert(vx_b_all[n] == file); assert(vx_b_all.skip(n).skip(1) =~= vx_b_all.skip(n + 1));
        assert(st.log()[n].file_id.0 < st.data@.len());
        vfs.interner.at(fid.0 as int);
        assert(vfs.file(vfs.path(fid.0 as int)) == vfs.now(fid.0 as int));
        assert(vfs.now(fid.0 as int) == st.now(fid.0 as int));
        assert(vfs.knows(vfs.path(fid.0 as int)));
        let i = choose|i: int| i < log.len() && #[trigger] first_entry(log, i, fid.0 as int) && first_change@[fid] == log[i].change_kind;
        assert(first_change@.contains_key(log[n].file_id));
        assert(first_entry(log, i, fid.0 as int));
        assert((first_change@[fid] == ChangeKind::Create) == (at(base, fid.0 as int) is None));
        told_skip(st, base, log, n, had);
    }
//@endfn
}
//@include absorblemmas.rs
fn main() {}

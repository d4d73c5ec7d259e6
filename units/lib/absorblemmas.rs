// ---- absorblemmas.rs: P20 over histories ----
verus! {
// ---- histories ----
/// a path keeps its place in the store
proof fn keeps_place(a: Vfs, b: Vfs, path: VfsPath, new: Option<Seq<u8>>, r: bool)
    requires a.wf(), a.written(b, path, new, r),
    ensures a.data@.len() <= b.data@.len(),
        forall|f: int| 0 <= f < a.data@.len() ==> #[trigger] b.path(f) == a.path(f) && b.now(f) == (if a.path(f) == path { new } else { a.now(f) }),
        forall|f: int| a.data@.len() <= f < b.data@.len() ==> #[trigger] b.path(f) == path && b.now(f) == new && b.id(path) == FileId(f as u32) && !a.knows(path),
{
    assert forall|f: int| 0 <= f < a.data@.len() implies #[trigger] b.path(f) == a.path(f) && b.now(f) == (if a.path(f) == path { new } else { a.now(f) }) && f < b.data@.len() by {
        let p = a.path(f);
        a.interner.at(f);
        assert(a.knows(p));
        let g = b.interner.map@.index_of(p);
        assert(b.id(p) == FileId(g as u32));
        assert(g == f);
        assert(b.file(p) == b.now(f));
        assert(a.file(p) == a.now(f)) by { assert(a.interner.map@.index_of(p) == f); }
    }
    if a.data@.len() > 0 { let f = a.data@.len() - 1; assert(b.path(f) == a.path(f)); }
    assert forall|f: int| a.data@.len() <= f < b.data@.len() implies #[trigger] b.path(f) == path && b.now(f) == new && b.id(path) == FileId(f as u32) && !a.knows(path) by {
        let p = b.path(f);
        b.interner.at(f);
        assert(b.knows(p));
        if a.knows(p) {
            let g = a.interner.map@.index_of(p);
            assert(b.path(g) == a.path(g));
            assert(b.interner.map@[g] == b.interner.map@[f]);
        }
        assert(b.file(p) == b.now(f)) by { assert(b.interner.map@.index_of(p) == f); }
    }
}
/// P20: storing a text, at any time and as often as one likes, leaves the next absorbing all it needs
proof fn write_keeps_synced(a: GlobalState, b: GlobalState, base: Base, path: VfsPath, new: Option<Seq<u8>>, r: bool)
    requires a.synced(base), a.store().written(b.store(), path, new, r), path.wf(), path.0 is PathBuf,
        b.source_root_config == a.source_root_config, b.analysis_host == a.analysis_host,
    ensures b.synced(base),
{
    let u = a.store(); let v = b.store();
    keeps_place(u, v, path, new, r);
    assert forall|p: VfsPath| #[trigger] v.knows(p) implies p.wf() && p.0 is PathBuf by { if u.knows(p) { } }
    assert(v.knows(path));
    let me = v.interner.map@.index_of(path);
    assert(v.path(me) == path);
    assert(v.id(path) == FileId(me as u32));
    if me < u.data@.len() { assert(u.path(me) == path); u.interner.at(me); assert(u.file(path) == u.now(me)); }
    else { assert(!u.knows(path)); assert(u.file(path) is None); }
    assert forall|i: int| 0 <= i < v.log().len() implies (#[trigger] v.log()[i]).file_id.0 < v.data@.len() by { if i < u.log().len() { assert(v.log()[i] == u.log()[i]); } }
    assert forall|f: int| is_logged(u.log(), f) implies is_logged(v.log(), f) by { let i = choose|i: int| 0 <= i < u.log().len() && (#[trigger] u.log()[i]).file_id.0 == f; assert(v.log()[i] == u.log()[i]); }
    assert forall|f: int| 0 <= f < v.data@.len() && !is_logged(v.log(), f) implies #[trigger] v.now(f) == at(base, f) by {
        if f < u.data@.len() {
            assert(v.path(f) == u.path(f));
            assert(u.now(f) == at(base, f));
            if u.path(f) == path { u.interner.at(f); assert(me == f); if kind_of(u.file(path), new) is Some { assert(v.log()[u.log().len() as int].file_id.0 == f); } }
        } else {
            assert(v.path(f) == path); assert(f == me);
            if kind_of(u.file(path), new) is Some { assert(v.log()[u.log().len() as int].file_id.0 == f); }
        }
    }
    assert forall|i: int, f: int| #[trigger] first_entry(v.log(), i, f) implies (v.log()[i].change_kind == ChangeKind::Create <==> at(base, f) is None) by {
        if i < u.log().len() {
            assert(v.log()[i] == u.log()[i]);
            assert forall|j: int| 0 <= j < i implies (#[trigger] u.log()[j]).file_id.0 != f by { assert(v.log()[j] == u.log()[j]); }
            assert(first_entry(u.log(), i, f));
        } else {
            assert(f == me);
            if is_logged(u.log(), f) { let j = choose|j: int| 0 <= j < u.log().len() && (#[trigger] u.log()[j]).file_id.0 == f; assert(v.log()[j] == u.log()[j]); }
            if f < u.data@.len() { assert(u.now(f) == at(base, f)); } else { assert(at(base, f) is None); }
        }
    }
    assert forall|f: FileId| #[trigger] at(base, f.0 as int) is Some implies settled(b.source_root_config, v.path(f.0 as int), f, at(base, f.0 as int), b.db()) by {
        assert(f.0 < u.data@.len());
        assert(v.path(f.0 as int) == u.path(f.0 as int));
    }
}
/// at the start there is nothing
proof fn start_is_synced(a: GlobalState)
    requires a.store().interner.map@.len() == 0, a.store().data@.len() == 0, a.store().log().len() == 0, a.db().text.dom().is_empty(), a.db().root_of.dom().is_empty(),
        a.source_root_config.fsc.wf(), a.source_root_config.fsc.n_file_sets <= u32::MAX,
    ensures a.synced(Seq::empty()),
{
    assert forall|f: FileId| !#[trigger] a.db().text.contains_key(f) by { assert(!a.db().text.dom().contains(f)); }
    assert forall|f: FileId| !#[trigger] a.db().root_of.contains_key(f) by { assert(!a.db().root_of.dom().contains(f)); }
}
}

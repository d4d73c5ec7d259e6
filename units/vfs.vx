//@include base.rs
//@include str.rs
//@include stdpath.rs
//@include indexset.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include vfsspec.rs
//@ne
//@shimfn IndexSet::default -> VxIndexSet::default
//@shimfn mem::take -> vx_take_vec
//@shim .max -> vx_max
//@shim .resize_with -> vx_resize_with &mut
//@shim .as_deref.unwrap -> vx_bytes_of
//@shim .filter -> vx_opt_filter
//@shim .map.filter.map -> vx_range_chain
//@closure pi::PathInterner::get/map#0 |usize| FileId
//@closure vf::Vfs::file_id/filter#0 |&FileId| bool requires $0.0 < self.data@.len() ensures vx_r == self.data@[$0.0 as int] is Some
//@closure vf::Vfs::iter/map#0 |usize| FileId ensures vx_r == FileId(it as u32)
//@closure vf::Vfs::iter/map#1 |&FileId| bool requires $0.0 < self.data@.len() ensures vx_r == self.data@[$0.0 as int] is Some
//@closure vf::Vfs::iter/map#2 |FileId| (FileId,&VfsPath) requires $0.0 < self.interner.map@.len() ensures vx_r == ($0, &self.interner.map@[$0.0 as int])
//@closure vf::Vfs::alloc_file_id/resize_with#0 || Option<Vec<u8>> ensures vx_r is None
//@subst old == new =>> vx_bytes_eq(old, new)
verus! {
broadcast use vset::indexset_distinct;
// ---- std ----
/// == on byte vectors
#[verifier::external_body]
pub fn vx_bytes_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { std::mem::take(v) }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
/// v.resize_with(n, f)
#[verifier::external_body]
pub fn vx_resize_with<T, F: Fn() -> T>(v: &mut Vec<T>, n: usize, f: F)
    requires call_requires(f, ()),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { #[trigger] final(v)@[i] == old(v)@[i] } else { call_ensures(f, (), final(v)@[i]) },
{ v.resize_with(n, f) }
#[verifier::external_body]
pub fn vx_bytes_of(o: &Option<Vec<u8>>) -> (r: &[u8]) requires o is Some ensures r@ == o->0@ { o.as_deref().unwrap() }
#[verifier::external_body]
pub fn vx_opt_filter<T, F: Fn(&T) -> bool>(o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o->0,)),
    ensures match r { Some(x) => o == Some(x) && call_ensures(f, (&x,), true), None => o is Some ==> call_ensures(f, (&o->0,), false) },
{ o.filter(f) }
/// (0..n).map(f).filter(g).map(h)
#[verifier::external_body]
pub fn vx_range_chain<A, B, F: Fn(usize) -> A, G: Fn(&A) -> bool, H: Fn(A) -> B>(r: std::ops::Range<usize>, f: F, g: G, h: H) -> (v: Vec<B>)
    requires forall|i: usize| r.start <= i < r.end ==> call_requires(f, (i,)),
        forall|i: usize, a: A| r.start <= i < r.end && #[trigger] call_ensures(f, (i,), a) ==> call_requires(g, (&a,)),
        forall|i: usize, a: A| r.start <= i < r.end && #[trigger] call_ensures(f, (i,), a) && call_ensures(g, (&a,), true) ==> call_requires(h, (a,)),
    ensures exists|m: Seq<A>, ix: Seq<int>| #[trigger] pair(m, ix) && chained(r.start as int, r.end as int, f, g, h, m, ix, v@),
{ r.map(f).filter(g).map(h).collect() }
pub open spec fn pair<A>(m: Seq<A>, ix: Seq<int>) -> bool { true }
/// m: what the first map yields; ix: the positions the filter keeps, in order
pub open spec fn chained<A, B, F: Fn(usize) -> A, G: Fn(&A) -> bool, H: Fn(A) -> B>(lo: int, hi: int, f: F, g: G, h: H, m: Seq<A>, ix: Seq<int>, v: Seq<B>) -> bool {
    &&& m.len() == (if lo <= hi { hi - lo } else { 0 })
    &&& forall|i: int| 0 <= i < m.len() ==> call_ensures(f, ((lo + i) as usize,), #[trigger] m[i])
    &&& forall|i: int| 0 <= i < m.len() ==> call_ensures(g, (&#[trigger] m[i],), ix.contains(i))
    &&& v.len() == ix.len()
    &&& forall|k: int| 0 <= k < v.len() ==> 0 <= #[trigger] ix[k] < m.len() && call_ensures(h, (m[ix[k]],), v[k])
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] ix[k] < #[trigger] ix[l]
}

//@fn pi::PathInterner::get ret=r
    requires self.wf(),
    ensures r == (if self.knows(*path) { Some(self.id(*path)) } else { None }),
//@at start
    proof { if self.knows(*path) { self.at(self.map@.index_of(*path)); } assert forall|i: int| 0 <= i < self.map@.len() implies self.id(self.map@[i]) == FileId(i as u32) by { self.at(i); } }
//@endfn
//@fn pi::PathInterner::intern ret=r
    requires old(self).wf(), old(self).knows(path) || old(self).map@.len() + 1 < u32::MAX,
    ensures final(self).wf(), final(self).knows(path), r == final(self).id(path),
        final(self).map@ == (if old(self).knows(path) { old(self).map@ } else { old(self).map@.push(path) }),
//@at end
    proof { self.at(id as int); }
//@endfn
//@fn pi::PathInterner::lookup ret=r
    requires id.0 < self.map@.len(),
    ensures *r == self.map@[id.0 as int],
//@endfn
//@fn vf::ChangedFile::exists ret=r
    ensures r == (self.change_kind != ChangeKind::Delete),
//@endfn
//@fn vf::ChangedFile::is_created_or_deleted ret=r
    ensures r == (self.change_kind != ChangeKind::Modify),
//@endfn
//@fn vf::Vfs::len ret=r
    ensures r == self.data@.len(),
//@endfn
//@fn vf::Vfs::get ret=r
    requires file_id.0 < self.data@.len(),
    ensures *r == self.data@[file_id.0 as int],
//@endfn
//@fn vf::Vfs::get_mut ret=r
    requires file_id.0 < old(self).data@.len(),
    ensures *r == old(self).data@[file_id.0 as int], final(self).data@ == old(self).data@.update(file_id.0 as int, *final(r)),
        final(self).interner == old(self).interner, final(self).changes == old(self).changes,
//@endfn
//@fn vf::Vfs::file_id ret=r
    requires self.wf(),
    ensures r == (if self.file(*path) is Some { Some(self.id(*path)) } else { None }),
//@endfn
//@fn vf::Vfs::file_path ret=r
    requires file_id.0 < self.interner.map@.len(),
    ensures r == self.interner.map@[file_id.0 as int],
//@endfn
//@fn vf::Vfs::file_contents ret=r
    requires file_id.0 < self.data@.len(), self.data@[file_id.0 as int] is Some,
    ensures r@ == self.data@[file_id.0 as int]->0@,
//@endfn
//@fn vf::Vfs::iter ret=r bindtail
    requires self.wf(),
    ensures self.lists(r@),
//@at end
    proof {
        let (m, ix) = choose|m: Seq<FileId>, ix: Seq<int>| #[trigger] pair(m, ix) && m.len() == self.data@.len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == FileId(i as u32)) && self.picked(ix, vx_tail@);
        assert(pair(m, ix) && self.picked(ix, vx_tail@));
        assert forall|k: int| 0 <= k < vx_tail@.len() implies self.file(*(#[trigger] vx_tail@[k]).1) is Some && vx_tail@[k].0 == self.id(*vx_tail@[k].1) by { self.interner.at(ix[k]); }
        assert forall|p: VfsPath| #[trigger] self.file(p) is Some implies exists|k: int| 0 <= k < vx_tail@.len() && #[trigger] vx_tail@[k] == (self.id(p), &p) by {
            let i = self.interner.map@.index_of(p); self.interner.at(i); let k = ix.index_of(i); assert(ix[k] == i); assert(vx_tail@[k] == (self.id(p), &p));
        }
        assert forall|k: int, l: int| 0 <= k < l < vx_tail@.len() implies (#[trigger] vx_tail@[k]).0 != (#[trigger] vx_tail@[l]).0 by { assert(ix[k] < ix[l]); }
    }
//@endfn
//@fn vf::Vfs::alloc_file_id ret=r
    requires old(self).wf(), old(self).room(path),
    ensures final(self).wf(), final(self).knows(path), r == final(self).id(path), final(self).changes == old(self).changes,
        final(self).interner.map@ == (if old(self).knows(path) { old(self).interner.map@ } else { old(self).interner.map@.push(path) }),
        final(self).data@ =~= (if old(self).knows(path) { old(self).data@ } else { old(self).data@.push(None) }),
//@endfn
//@fn vf::Vfs::set_file_contents ret=r
    requires old(self).wf(), old(self).room(path),
    ensures old(self).written(*final(self), path, bytes(contents), r),
//@at after_call alloc_file_id 0
    proof { grown(old(self).interner.map@, self.interner.map@, path); assert(self.interner.knows(path)); self.interner.at(file_id.0 as int); }
//@endfn
//@fn vf::Vfs::has_changes ret=r
    ensures r == (self.log().len() > 0),
//@endfn
//@fn vf::Vfs::take_changes ret=r
    ensures r@ == old(self).log(), final(self).log().len() == 0, final(self).interner == old(self).interner, final(self).data == old(self).data,
//@endfn
}
fn main() {}

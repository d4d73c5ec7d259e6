//@include base.rs
//@include str.rs
//@include walk.rs
//@include bytes.rs
//@include stdpath.rs
//@include indexset.rs
//@include map.rs
//@file vp crates/vfs/src/vfs_path.rs noinline
//@file pa crates/paths/src/lib.rs noinline
//@include vfspath.rs
//@include vfsspec.rs
//@include filesetspec.rs
//@shimfn fst::Map::from_iter -> vx_fst_from_iter
//@shim .search.into_stream -> vx_fst_search &
//@shim .into_iter.enumerate -> vx_enumerate
//@shim .sort -> vx_sort_entries &mut
//@shim .dedup_by -> vx_dedup_by &mut
//@shim .first -> vx_first
//@shim .is_empty -> vx_is_empty
//@shim .starts_with -> vx_bytes_start
//@shim .ends_with -> vx_bytes_end
//@sliceindex path
//@scope vp::VfsPath::encode
//@shim .extend -> vx_extend_bytes
//@shim .as_os_str.as_bytes -> vx_path_bytes &
//@endscope
//@scope vp::VfsPath::encoded
//@subst path.first() == Some(&1) =>> vx_first_is(path, 1)
//@subst b"\\\0" =>> vx_lit_bsnul()
//@subst b"/" =>> vx_lit_slash()
//@endscope
//@scope fs::PrefixOf::accept
//@subst self.prefix_of.get(state) == Some(&byte) =>> vx_get_is(self.prefix_of, state, byte)
//@endscope
//@scope fs::FileSetConfig::classify
//@subst VfsPath::encoded_prefix_is_ancestor(root, scratch_space) =>> VfsPath::encoded_prefix_is_ancestor(root, scratch_space.as_slice())
//@endscope
//@scope fs::FileSetConfig::partition
//@subst vec![FileSet::default(); self.len()] =>> vx_vec_of(FileSet::default(), self.len())
//@endscope
//@scope fs::FileSetConfigBuilder::build
//@subst a == b =>> vx_bytes_eq(a, b)
//@endscope
//@closure fs::FileSetConfigBuilder::build/dedup_by#0 |&(Vec<u8>,u64);&(Vec<u8>,u64)| bool ensures vx_r == ($0.0@ == $1.0@)
verus! {
broadcast use {vx_str_fits, vset::indexset_distinct};
global size_of usize == 8;
//@type fs::FileSetConfigBuilder derive=
//@type fs::PrefixOf derive=
impl FileSet {
    // TRUSTED: derived Default
    #[verifier::external_body]
    fn default() -> (r: FileSet) ensures r.files@ == Map::<VfsPath, FileId>::empty(), r.paths@ == Map::<FileId, VfsPath>::empty() { unimplemented!() }
}
// ---- std and fst ----
#[verifier::external_body]
pub fn vx_bytes_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_extend_bytes(v: &mut Vec<u8>, t: &[u8]) ensures final(v)@ == old(v)@ + t@ { v.extend(t) }
#[verifier::external_body]
pub fn vx_path_bytes(p: &AbsPathBuf) -> (r: &[u8]) ensures r@ == p.0.bytes() { unimplemented!() }
#[verifier::external_body]
pub fn vx_first_is(s: &[u8], b: u8) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == b) { s.first() == Some(&b) }
#[verifier::external_body]
pub fn vx_get_is(s: &[u8], i: usize, b: u8) -> (r: bool) ensures r == (i < s@.len() && s@[i as int] == b), s@.len() <= isize::MAX { s.get(i) == Some(&b) }
pub fn vx_is_empty(s: &[u8]) -> (r: bool) ensures r == (s@.len() == 0) { s.len() == 0 }
#[verifier::external_body]
pub fn vx_bytes_start(s: &[u8], p: &[u8]) -> (r: bool) ensures r == p@.is_prefix_of(s@) { s.starts_with(p) }
#[verifier::external_body]
pub fn vx_bytes_end(s: &[u8], p: &[u8]) -> (r: bool) ensures r == p@.is_suffix_of(s@) { s.ends_with(p) }
#[verifier::external_body]
pub fn vx_lit_slash() -> (r: &'static [u8]) ensures r@ == seq![47u8] { b"/" }
#[verifier::external_body]
pub fn vx_lit_bsnul() -> (r: &'static [u8]) ensures r@ == seq![92u8, 0u8] { b"\\\0" }
#[verifier::external_body]
pub fn vx_vec_of<T>(t: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == t { unimplemented!() }
/// no vector of bytes is longer than isize::MAX
pub axiom fn vec_fits(v: &Vec<u8>) ensures v@.len() <= isize::MAX;
/// the order of byte strings
pub open spec fn lt(a: Key, b: Key) -> bool {
    (a.is_prefix_of(b) && a.len() < b.len()) || exists|i: int| 0 <= i < a.len() && i < b.len() && a.take(i) == b.take(i) && #[trigger] a[i] < b[i]
}
pub type Entry = (Vec<u8>, u64);
pub open spec fn entry_le(a: Entry, b: Entry) -> bool { lt(a.0@, b.0@) || a.0@ == b.0@ && a.1 <= b.1 }
/// v.sort()
#[verifier::external_body]
pub fn vx_sort_entries(v: &mut Vec<Entry>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: Entry| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        sorted(final(v)@) { v.sort() }
/// v.dedup_by(f): each element is dropped when f says it is the same as the last one kept
#[verifier::external_body]
pub fn vx_dedup_by<T, F: Fn(&T, &T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
    ensures exists|said: Said<T>, kept: Seq<int>| #[trigger] deduped(old(v)@, final(v)@, said, kept)
        && forall|a: T, b: T, x: bool| #[trigger] said(a, b, x) ==> call_ensures(f, (&a, &b), x) { unimplemented!() }
/// what the closure answered
pub type Said<T> = spec_fn(T, T, bool) -> bool;
/// kept: for every element, the position in the result of the last one kept up to there
pub open spec fn deduped<T>(s: Seq<T>, r: Seq<T>, f: Said<T>, kept: Seq<int>) -> bool {
    &&& kept.len() == s.len()
    &&& s.len() > 0 ==> kept[0] == 0 && r.len() == kept.last() + 1 && r[0] == s[0]
    &&& s.len() == 0 ==> r.len() == 0
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] kept[i] < r.len()
    &&& forall|i: int| 0 < i < s.len() ==> #[trigger] dedup_step(s, r, f, kept, i)
}
pub open spec fn dedup_step<T>(s: Seq<T>, r: Seq<T>, f: Said<T>, kept: Seq<int>, i: int) -> bool {
    ||| kept[i] == kept[i - 1] && f(s[i], r[kept[i - 1]], true)
    ||| kept[i] == kept[i - 1] + 1 && f(s[i], r[kept[i - 1]], false) && r[kept[i]] == s[i]
}
/// fst::Map::from_iter(entries).unwrap(): the keys have to come in strictly increasing order
#[verifier::external_body]
pub fn vx_fst_from_iter(v: Vec<Entry>) -> (r: Result<VxFst, ()>)
    requires in_order(v@),
    ensures r is Ok, forall|k: Key| #[trigger] r->Ok_0@.contains_key(k) <==> has_key(v@, k),
        forall|i: int| 0 <= i < v@.len() ==> r->Ok_0@[(#[trigger] v@[i]).0@] == v@[i].1 { unimplemented!() }
/// the automaton fst runs over the keys: what its methods are proved to compute
pub open spec fn start_of(a: PrefixOf) -> usize { 0 }
pub open spec fn dead() -> usize { usize::MAX }
pub open spec fn accept_of(a: PrefixOf, st: usize, b: u8) -> usize { if st < a.prefix_of@.len() && a.prefix_of@[st as int] == b { (st + 1) as usize } else { dead() } }
pub open spec fn run(a: PrefixOf, k: Key) -> usize decreases k.len() { if k.len() == 0 { start_of(a) } else { accept_of(a, run(a, k.drop_last()), k.last()) } }
pub open spec fn matches_of(a: PrefixOf, st: usize) -> bool { st != dead() }
/// the stream of a search: the entries whose key the automaton accepts, keys ascending. `can_match`
/// may only say no where no continuation is accepted (`no_way_back`).
#[verifier::external_body]
pub struct VxStream { f: usize }
impl VxStream {
    pub uninterp spec fn rest(&self) -> Seq<(Key, u64)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&[u8], u64)>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && (x.0@, x.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
}
pub open spec fn hits(m: Map<Key, u64>, a: PrefixOf, r: Seq<(Key, u64)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0) && m[r[i].0] == r[i].1 && matches_of(a, run(a, r[i].0))
    &&& forall|k: Key| #[trigger] m.contains_key(k) && matches_of(a, run(a, k)) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> lt((#[trigger] r[i]).0, (#[trigger] r[j]).0)
}
#[verifier::external_body]
pub fn vx_fst_search(m: &VxFst, a: PrefixOf) -> (r: VxStream) ensures hits(m@, a, r.rest()) { unimplemented!() }
// the automaton's methods
//@fn fs::PrefixOf::new ret=r
    ensures r.prefix_of@ == prefix_of@,
//@endfn
//@fn fs::PrefixOf::start ret=r
    ensures r == start_of(*self),
//@endfn
//@fn fs::PrefixOf::is_match ret=r
    ensures r == matches_of(*self, *vx_p1),
//@at start
    proof { assert(!0usize == usize::MAX) by (bit_vector); }
//@endfn
//@fn fs::PrefixOf::can_match ret=r
    ensures // soundness of pruning
        !r && self.prefix_of@.len() < usize::MAX ==> forall|b: u8| accept_of(*self, *vx_p1, b) == *vx_p1 && !matches_of(*self, *vx_p1),
//@at start
    proof { assert(!0usize == usize::MAX) by (bit_vector); }
//@endfn
//@fn fs::PrefixOf::accept ret=r
    ensures r == accept_of(*self, *vx_p1, byte),
//@at start
    proof { assert(!0usize == usize::MAX) by (bit_vector); }
//@endfn
//@fn vp::VfsPath::encode bindtail
    ensures final(buf)@ == old(buf)@ + enc_path(*self),
//@at end
    proof { assert(buf@ =~= old(buf)@ + enc_path(*self)); }
//@endfn
//@fn vp::VfsPath::encoded_prefix_is_ancestor ret=r
    requires root@.is_prefix_of(path@), root@.len() > 0, path@[0] == 0 || path@[0] == 1,
    ensures r == above(root@, path@),
//@locals rest sep
//@at end
    proof {
        let one = seq![47u8];
        assert(one.is_prefix_of(rest@) == (rest@.len() > 0 && rest@[0] == 47)) by { if rest@.len() > 0 { assert(rest@.subrange(0, 1) =~= seq![rest@[0]]); assert(one[0] == 47 && seq![rest@[0]][0] == rest@[0]); } }
        assert(one.is_suffix_of(root@) == (root@.last() == 47)) by { assert(root@.subrange(root@.len() - 1, root@.len() as int) =~= seq![root@.last()]); assert(one[0] == 47 && seq![root@.last()][0] == root@.last()); }
    }
//@endfn
// ---- sets ----
impl FileSetConfig {
    /// nearest among the first n hits
    pub open spec fn best(&self, all: Seq<(Key, u64)>, n: int, e: Key, c: int) -> bool {
        ||| c == self.n_file_sets - 1 && forall|i: int| 0 <= i < n ==> !above((#[trigger] all[i]).0, e)
        ||| exists|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) && self.map@[k] == c && forall|i: int| 0 <= i < n && above((#[trigger] all[i]).0, e) ==> all[i].0.len() <= k.len()
    }
}
/// the automaton accepts exactly the prefixes of its text
proof fn run_prefix(a: PrefixOf, k: Key)
    requires a.prefix_of@.len() < usize::MAX,
    ensures run(a, k) == (if k.is_prefix_of(a.prefix_of@) { k.len() as usize } else { dead() }),
    decreases k.len(),
{
    if k.len() > 0 {
        let d = k.drop_last(); let p = a.prefix_of@;
        run_prefix(a, d);
        if k.is_prefix_of(p) { assert(d =~= p.subrange(0, d.len() as int)); assert(k.last() == p[k.len() - 1]); }
        else if d.is_prefix_of(p) && k.len() <= p.len() { if p[k.len() - 1] == k.last() { assert(k =~= p.subrange(0, k.len() as int)); } }
    }
}
/// of two prefixes of one text, the lesser is the shorter
proof fn prefixes_by_length(a: Key, b: Key, p: Key)
    requires a.is_prefix_of(p), b.is_prefix_of(p), lt(a, b),
    ensures a.len() < b.len(),
{
    if !(a.is_prefix_of(b) && a.len() < b.len()) {
        let i = choose|i: int| 0 <= i < a.len() && i < b.len() && a.take(i) == b.take(i) && #[trigger] a[i] < b[i];
        assert(a[i] == p[i] && b[i] == p[i]);
    }
}
//@fn fs::FileSetConfig::len ret=r
    ensures r == self.n_file_sets,
//@endfn
//@fn fs::FileSetConfig::classify ret=r
    requires self.wf(), path.wf(),
    ensures self.nearest(enc_path(*path), r as int), r < self.n_file_sets,
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@locals longest_prefix stream automaton
//@at before_call search 0
    let ghost a = automaton; let ghost e = enc_path(*path);
    proof { assert(scratch_space@ =~= e); vec_fits(scratch_space); }
//@at after_call into_stream 0
    let ghost all = stream.rest(); let ghost mut n: int = 0;
    proof { assert(all.skip(0) =~= all); }
//@loop 0
    invariant self.wf(), a.prefix_of@ == e, scratch_space@ == e, e.len() < usize::MAX, e.len() > 0, e[0] == 0 || e[0] == 1,
        hits(self.map@, a, all), 0 <= n <= all.len(), stream.rest() == all.skip(n),
        self.best(all, n, e, longest_prefix as int),
    ensures n == all.len(),
    decreases stream.rest().len(),
//@at loopstart 0
    proof {
        let i = n;
        assert(all.skip(n)[0] == (root@, v)); assert(all[i] == (root@, v)); assert(all.skip(n).skip(1) =~= all.skip(n + 1));
        assert(self.map@.contains_key(root@));
        run_prefix(a, root@);
        assert forall|j: int| 0 <= j < i implies (#[trigger] all[j]).0.len() <= root@.len() by { run_prefix(a, all[j].0); prefixes_by_length(all[j].0, root@, e); }
        n = n + 1;
    }
//@at end
    proof {
        if longest_prefix != self.n_file_sets - 1 || exists|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) {
            assert forall|k: Key| #[trigger] self.map@.contains_key(k) && above(k, e) implies exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k by { run_prefix(a, k); }
        }
    }
//@endfn
//@fn fs::FileSet::insert
    ensures final(self).files@ == old(self).files@.insert(path, file_id), final(self).paths@ == old(self).paths@.insert(file_id, path),
//@endfn
//@fn fs::FileSet::len ret=r
    ensures r == self.files@.dom().len(),
//@endfn
//@fn fs::FileSet::file_for_path ret=r
    ensures match r { Some(f) => self.files@.contains_key(*path) && *f == self.files@[*path], None => !self.files@.contains_key(*path) },
//@endfn
//@fn fs::FileSet::path_for_file ret=r
    ensures match r { Some(p) => self.paths@.contains_key(*file) && *p == self.paths@[*file], None => !self.paths@.contains_key(*file) },
//@endfn
//@proved_in vfs
//@fn vf::Vfs::iter ret=r
    requires self.wf(),
    ensures self.lists(r@),
//@endfn
//@endproved
impl FileSetConfig {
    /// the first n files of the listing, each in the set of its path and nowhere else
    pub open spec fn placed(&self, all: Seq<(FileId, &VfsPath)>, n: int, res: Seq<FileSet>) -> bool {
        &&& res.len() == self.n_file_sets
        &&& forall|i: int, c: int| #![trigger all[i], res[c]] 0 <= i < n && 0 <= c < res.len() && self.nearest(enc_path(*all[i].1), c) ==>
            res[c].files@.contains_key(*all[i].1) && res[c].files@[*all[i].1] == all[i].0 && res[c].paths@.contains_key(all[i].0) && res[c].paths@[all[i].0] == *all[i].1
        &&& forall|c: int, p: VfsPath| 0 <= c < res.len() && #[trigger] res[c].files@.contains_key(p) ==>
            exists|i: int| 0 <= i < n && *(#[trigger] all[i]).1 == p && all[i].0 == res[c].files@[p] && self.nearest(enc_path(p), c)
        &&& forall|c: int, f: FileId| 0 <= c < res.len() && #[trigger] res[c].paths@.contains_key(f) ==>
            exists|i: int| 0 <= i < n && (#[trigger] all[i]).0 == f && *all[i].1 == res[c].paths@[f] && self.nearest(enc_path(*all[i].1), c)
    }
}
//@fn fs::FileSetConfig::partition ret=r
    requires self.wf(), vfs.wf(), forall|p: VfsPath| #[trigger] vfs.knows(p) ==> p.wf(),
    ensures self.parts(vfs, r@),
//@locals res
//@attr #[verifier::loop_isolation(false)]
//@loop 0 next=vx_it:vx_vec_iter
    invariant vfs.lists(vx_it_all), vx_it.rest().len() <= vx_it_all.len(), vx_it.rest() == vx_it_all.skip(vx_it_all.len() - vx_it.rest().len()),
        self.placed(vx_it_all, vx_it_all.len() - vx_it.rest().len(), res@),
    decreases vx_it.rest().len(),
//@at loopstart 0
    let ghost n = vx_it_all.len() - vx_it.rest().len() - 1;
    let ghost before = res@;
    proof {
        assert(vx_it_all.skip(n)[0] == (file_id, path)); assert(vx_it_all[n] == (file_id, path)); assert(vx_it_all.skip(n).skip(1) =~= vx_it_all.skip(n + 1));
        assert(vfs.file(*path) is Some);
    }
//@at loopend 0
    proof {
        assert(res@ =~= before.update(root as int, res@[root as int]));
        let e = enc_path(*path);
        assert forall|c: int| self.nearest(e, c) implies c == root by { self.one_nearest(e, c, root as int); }
        assert forall|i: int| 0 <= i < n implies (#[trigger] vx_it_all[i]).0 != file_id && *vx_it_all[i].1 != *path by { }
    }
//@at end
    proof {
    }
//@endfn
// ---- configurations ----
pub type Roots = Seq<Vec<VfsPath>>;
/// k is a root of set i
pub open spec fn root_of(r: Roots, i: int, k: Key) -> bool { 0 <= i < r.len() && exists|j: int| 0 <= j < r[i]@.len() && enc_path(#[trigger] r[i]@[j]) == k }
pub open spec fn is_root(r: Roots, k: Key) -> bool { exists|i: int| #[trigger] root_of(r, i, k) }
/// the first set k is a root of
pub open spec fn first_set(r: Roots, k: Key, c: int) -> bool { root_of(r, c, k) && forall|i: int| #[trigger] root_of(r, i, k) ==> c <= i }
pub open spec fn has_entry(e: Seq<Entry>, k: Key, i: int) -> bool { exists|x: int| 0 <= x < e.len() && (#[trigger] e[x]).0@ == k && e[x].1 == i }
/// entries of the first n sets, and of the first m roots of the next
pub open spec fn listed(r: Roots, e: Seq<Entry>, n: int, m: int) -> bool {
    &&& forall|x: int| 0 <= x < e.len() ==> root_of(r, (#[trigger] e[x]).1 as int, e[x].0@)
    &&& forall|i: int, j: int| #![trigger r[i]@[j]] 0 <= i < n && 0 <= j < r[i]@.len() ==> has_entry(e, enc_path(r[i]@[j]), i)
    &&& forall|j: int| 0 <= j < m ==> has_entry(e, enc_path(#[trigger] r[n]@[j]), n)
}
proof fn listed_push(r: Roots, e: Seq<Entry>, x: Entry, n: int, m: int)
    requires listed(r, e, n, m), 0 <= n < r.len(), n <= u64::MAX, 0 <= m < r[n]@.len(), x.0@ == enc_path(r[n]@[m]), x.1 == n,
    ensures listed(r, e.push(x), n, m + 1),
{
    let f = e.push(x);
    assert forall|k: Key, i: int| #[trigger] has_entry(e, k, i) implies has_entry(f, k, i) by {
        let y = choose|y: int| 0 <= y < e.len() && (#[trigger] e[y]).0@ == k && e[y].1 == i; assert(f[y] == e[y]);
    }
    assert(has_entry(f, enc_path(r[n]@[m]), n)) by { assert(f[e.len() as int] == x); }
    assert forall|y: int| 0 <= y < f.len() implies root_of(r, (#[trigger] f[y]).1 as int, f[y].0@) by { if y < e.len() { assert(f[y] == e[y]); } }
}
pub open spec fn sorted(s: Seq<Entry>) -> bool { forall|i: int, j: int| #![trigger entry_le(s[i], s[j])] 0 <= i <= j < s.len() ==> entry_le(s[i], s[j]) }
/// e stands at x in s, and no entry with its key stands before
pub open spec fn fresh(s: Seq<Entry>, e: Entry, x: int) -> bool { 0 <= x < s.len() && s[x] == e && forall|y: int| 0 <= y < x ==> (#[trigger] s[y]).0@ != e.0@ }
pub open spec fn same_key(f: Said<Entry>) -> bool { forall|a: Entry, b: Entry, x: bool| #[trigger] f(a, b, x) ==> x == (a.0@ == b.0@) }
/// at i in t, having gone through the first n of s: its key is above the one before, and it is the first with it
pub open spec fn placed_at(s: Seq<Entry>, t: Seq<Entry>, n: int, i: int) -> bool {
    &&& i > 0 ==> lt(t[i - 1].0@, t[i].0@)
    &&& exists|x: int| x < n && #[trigger] fresh(s, t[i], x)
}
/// of the first n elements of a sorted list: what is kept of them
proof fn kept_ok(s: Seq<Entry>, t: Seq<Entry>, f: Said<Entry>, kept: Seq<int>, n: int)
    requires deduped(s, t, f, kept), 0 < n <= s.len(), sorted(s), same_key(f),
    ensures
        t[kept[n - 1]].0@ == s[n - 1].0@,
        forall|i: int| 0 <= i <= kept[n - 1] ==> #[trigger] placed_at(s, t, n, i),
    decreases n,
{
    hide(lt);
    if n == 1 {
        assert(s[0] == t[0]);
        assert(fresh(s, t[0], 0));
        assert(placed_at(s, t, 1, 0));
    } else {
        kept_ok(s, t, f, kept, n - 1);
        let i = n - 1; let b = kept[i - 1];
        assert(dedup_step(s, t, f, kept, i));
        assert(0 <= kept[i] && 0 <= kept[i - 1]);
        assert forall|j: int| 0 <= j <= b implies #[trigger] placed_at(s, t, n, j) by {
            assert(placed_at(s, t, n - 1, j));
            let x = choose|x: int| x < n - 1 && #[trigger] fresh(s, t[j], x);
            assert(x < n && fresh(s, t[j], x));
        }
        if kept[i] != b {
            assert(t[b].0@ == s[i - 1].0@);
            assert(t[b + 1] == s[i]);
            assert(entry_le(s[i - 1], s[i]));
            assert(lt(t[b].0@, s[i].0@));
            assert forall|y: int| 0 <= y < i implies (#[trigger] s[y]).0@ != s[i].0@ by {
                assert(entry_le(s[y], s[i - 1]));
                if lt(s[y].0@, s[i - 1].0@) { lt_trans(s[y].0@, s[i - 1].0@, s[i].0@); }
                lt_irrefl(s[i].0@);
            }
            assert(fresh(s, t[b + 1], i));
            assert(placed_at(s, t, n, b + 1));
        }
    }
}
/// every key of the sorted list is kept
proof fn key_kept(s: Seq<Entry>, t: Seq<Entry>, f: Said<Entry>, kept: Seq<int>, y: int)
    requires deduped(s, t, f, kept), 0 <= y < s.len(), sorted(s), same_key(f),
    ensures 0 <= kept[y] < t.len(), t[kept[y]].0@ == s[y].0@,
{ hide(lt); kept_ok(s, t, f, kept, y + 1); assert(0 <= kept[y]); }
pub open spec fn in_order(t: Seq<Entry>) -> bool { forall|i: int| 0 < i < t.len() ==> lt(t[i - 1].0@, (#[trigger] t[i]).0@) }
pub open spec fn has_key(t: Seq<Entry>, k: Key) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k }
/// the entry at x is the first of its key in the sorted list: its set is the first with that root
proof fn first_ok(r: Roots, s: Seq<Entry>, e: Entry, x: int)
    requires listed(r, s, r.len() as int, 0), sorted(s), fresh(s, e, x),
    ensures first_set(r, e.0@, e.1 as int),
{
    hide(lt);
    let k = e.0@;
    assert(root_of(r, s[x].1 as int, s[x].0@));
    assert forall|c: int| #[trigger] root_of(r, c, k) implies e.1 <= c by {
        let j = choose|j: int| 0 <= j < r[c]@.len() && enc_path(#[trigger] r[c]@[j]) == k;
        assert(has_entry(s, k, c));
        let y = choose|y: int| 0 <= y < s.len() && (#[trigger] s[y]).0@ == k && s[y].1 == c;
        assert(x <= y);
        assert(entry_le(s[x], s[y]));
        lt_irrefl(k);
    }
}
/// sorting and dropping repetitions leaves every root once, under its first set, in order
proof fn deduped_ok(r: Roots, s: Seq<Entry>, t: Seq<Entry>, f: Said<Entry>, kept: Seq<int>)
    requires listed(r, s, r.len() as int, 0), deduped(s, t, f, kept), sorted(s), same_key(f),
    ensures
        in_order(t),
        forall|k: Key| has_key(t, k) <==> #[trigger] is_root(r, k),
        forall|i: int| 0 <= i < t.len() ==> first_set(r, (#[trigger] t[i]).0@, t[i].1 as int),
{
    hide(lt); hide(dedup_step); hide(enc_path);
    if s.len() > 0 { kept_ok(s, t, f, kept, s.len() as int); }
    assert forall|i: int| 0 <= i < t.len() implies first_set(r, (#[trigger] t[i]).0@, t[i].1 as int) by {
        assert(placed_at(s, t, s.len() as int, i));
        let x = choose|x: int| x < s.len() && #[trigger] fresh(s, t[i], x);
        first_ok(r, s, t[i], x);
    }
    assert forall|i: int| 0 < i < t.len() implies lt(t[i - 1].0@, (#[trigger] t[i]).0@) by { assert(placed_at(s, t, s.len() as int, i)); }
    assert forall|k: Key| has_key(t, k) <==> #[trigger] is_root(r, k) by {
        if is_root(r, k) {
            let c = choose|c: int| #[trigger] root_of(r, c, k);
            let j = choose|j: int| 0 <= j < r[c]@.len() && enc_path(#[trigger] r[c]@[j]) == k;
            assert(has_entry(s, k, c));
            let y = choose|y: int| 0 <= y < s.len() && (#[trigger] s[y]).0@ == k && s[y].1 == c;
            key_kept(s, t, f, kept, y);
            assert(t[kept[y]].0@ == k);
        }
        if has_key(t, k) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k;
            assert(root_of(r, t[i].1 as int, k));
        }
    }
}
proof fn lt_irrefl(a: Key) ensures !lt(a, a) { }
/// sorting keeps what is listed
proof fn listed_sorted(r: Roots, s: Seq<Entry>, t: Seq<Entry>)
    requires listed(r, s, r.len() as int, 0), forall|x: Entry| #[trigger] t.contains(x) <==> s.contains(x),
    ensures listed(r, t, r.len() as int, 0),
{
    assert forall|k: Key, i: int| #[trigger] has_entry(s, k, i) implies has_entry(t, k, i) by {
        let x = choose|x: int| 0 <= x < s.len() && (#[trigger] s[x]).0@ == k && s[x].1 == i;
        assert(s.contains(s[x])); assert(t.contains(s[x]));
    }
    assert forall|x: int| 0 <= x < t.len() implies root_of(r, (#[trigger] t[x]).1 as int, t[x].0@) by { assert(t.contains(t[x])); assert(s.contains(t[x])); }
}
proof fn lt_trans(a: Key, b: Key, c: Key)
    requires lt(a, b), lt(b, c),
    ensures lt(a, c),
{
    let ap = a.is_prefix_of(b) && a.len() < b.len();
    let bp = b.is_prefix_of(c) && b.len() < c.len();
    if ap && bp { assert(a =~= c.subrange(0, a.len() as int)); }
    else {
        let i = choose|i: int| 0 <= i < a.len() && i < b.len() && a.take(i) == b.take(i) && #[trigger] a[i] < b[i];
        let j = choose|j: int| 0 <= j < b.len() && j < c.len() && b.take(j) == c.take(j) && #[trigger] b[j] < c[j];
        if ap {
            // b and c part at j
            assert forall|x: int| 0 <= x < a.len() implies a[x] == b[x] by { assert(b.subrange(0, a.len() as int)[x] == b[x]); }
            if a.len() <= j { assert forall|x: int| 0 <= x < a.len() implies a[x] == c[x] by { assert(b.take(j)[x] == c.take(j)[x]); } assert(a =~= c.subrange(0, a.len() as int)); }
            else { assert(a.take(j) =~= b.take(j)); assert(a[j] < c[j]); }
        } else if bp {
            assert forall|x: int| 0 <= x < b.len() implies b[x] == c[x] by { assert(c.subrange(0, b.len() as int)[x] == c[x]); }
            assert(a.take(i) =~= c.take(i)) by { assert forall|x: int| 0 <= x < i implies a[x] == c[x] by { assert(a.take(i)[x] == b.take(i)[x]); } }
            assert(a[i] < c[i]);
        } else {
            let m = if i < j { i } else { j };
            assert forall|x: int| 0 <= x < m implies a[x] == c[x] by { assert(a.take(i)[x] == b.take(i)[x]); assert(b.take(j)[x] == c.take(j)[x]); }
            assert(a.take(m) =~= c.take(m));
            if m < i { assert(a.take(i)[m] == b.take(i)[m]); }
            if m < j { assert(b.take(j)[m] == c.take(j)[m]); }
            assert(a[m] < c[m]);
        }
    }
}
//@fn fs::FileSetConfigBuilder::default ret=r
    ensures r.roots@.len() == 0,
//@endfn
//@fn fs::FileSetConfig::builder ret=r
    ensures r.roots@.len() == 0,
//@endfn
//@fn fs::FileSetConfig::default ret=r
    ensures r.wf(), r.n_file_sets == 1,
//@endfn
//@fn fs::FileSetConfigBuilder::add_file_set
    ensures final(self).roots@ == old(self).roots@.push(roots),
//@endfn
//@fn fs::FileSetConfigBuilder::build ret=r
    requires self.roots@.len() < u64::MAX,
    ensures r.wf(), r.n_file_sets == self.roots@.len() + 1,
        forall|k: Key| #[trigger] r.map@.contains_key(k) <==> is_root(self.roots@, k),
        forall|k: Key| #[trigger] r.map@.contains_key(k) ==> first_set(self.roots@, k, r.map@[k] as int),
//@locals n_file_sets entries map
//@attr #[verifier::loop_isolation(false)]
//@at start
    let ghost roots = self.roots@;
//@loop 0 next=vx_sets
    invariant vx_sets_all.len() == roots.len(), forall|i: int| 0 <= i < roots.len() ==> #[trigger] vx_sets_all[i] == (i as usize, roots[i]),
        vx_sets.rest().len() <= roots.len(), vx_sets.rest() == vx_sets_all.skip(roots.len() - vx_sets.rest().len()),
        listed(roots, entries@, roots.len() - vx_sets.rest().len(), 0),
    decreases vx_sets.rest().len(),
//@at loopstart 0
    let ghost n = roots.len() - vx_sets.rest().len() - 1;
    proof { assert(vx_sets_all.skip(n)[0] == (i, paths)); assert(vx_sets_all[n] == (i, paths)); assert(vx_sets_all.skip(n).skip(1) =~= vx_sets_all.skip(n + 1)); }
//@at loopend 0
    proof { assert forall|i: int, j: int| #![trigger roots[i]@[j]] 0 <= i < n + 1 && 0 <= j < roots[i]@.len() implies has_entry(entries@, enc_path(roots[i]@[j]), i) by { } }
//@loop 1 next=vx_ps:vx_vec_iter
    invariant vx_ps_all == roots[n]@, vx_ps.rest().len() <= vx_ps_all.len(), vx_ps.rest() == vx_ps_all.skip(vx_ps_all.len() - vx_ps.rest().len()),
        listed(roots, entries@, n, vx_ps_all.len() - vx_ps.rest().len()),
    decreases vx_ps.rest().len(),
//@at loopstart 1
    let ghost m = vx_ps_all.len() - vx_ps.rest().len() - 1;
    let ghost had = entries@;
    proof { assert(vx_ps_all.skip(m)[0] == p); assert(vx_ps_all[m] == p); assert(vx_ps_all.skip(m).skip(1) =~= vx_ps_all.skip(m + 1)); }
//@at loopend 1
    proof { let x = entries@.last(); assert(x.0@ =~= enc_path(p)); assert(entries@ =~= had.push(x)); listed_push(roots, had, x, n, m); }
//@at before_call sort 0
    let ghost unsorted = entries@;
//@at before_call dedup_by 0
    let ghost inorder = entries@;
    proof { listed_sorted(roots, unsorted, inorder); }
//@at after_call dedup_by 0
    proof {
        let (said, kept) = choose|said: Said<Entry>, kept: Seq<int>| #[trigger] deduped(inorder, entries@, said, kept) && same_key(said);
        deduped_ok(roots, inorder, entries@, said, kept);
    }
//@endfn
}
fn main() {}

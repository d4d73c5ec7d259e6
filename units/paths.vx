//@include base.rs
//@include str.rs
//@include stdpath.rs
//@file pa crates/paths/src/lib.rs
//@file vp crates/vfs/src/vfs_path.rs
//@shim .components.peekable -> vx_components
//@shim .peek.cloned -> vx_peek_cloned &mut
//@shim .rfind -> vx_rfind &
//@shim .to_string -> vx_to_string &
//@shim .rsplitn -> vx_rsplit2 &
//@shim .trim_start_matches -> vx_trim_start_matches &
//@shim .is_empty -> vx_str_is_empty &
//@strindex all
//@scope vp::VirtualPath
//@shim .starts_with -> vx_starts_with
//@shim .ends_with -> vx_ends_with &
//@subst &self.0.len() - 1 =>> vx_str_len(&self.0) - 1
//@subst "../".len() =>> vx_str_len("../")
//@subst &self.0 =>> self.0.as_str()
//@format "{}/{}" -> vx_slash
//@endscope
//@scope vp::VfsPath::new_virtual_path
//@shim .starts_with -> vx_starts_with_char &
//@endscope
//@scope vp::VfsPath::from
//@shim .normalize -> vx_deref_normalize &
//@endscope
//@scope pa::AbsPath::to_path_buf
//@shim .to_path_buf -> vx_to_path_buf &
//@endscope
//@retype impl AsRef<Path> => &str
//@subst unsafe { &*(path as *const Path as *const AbsPath) } =>> vx_cast(path)
//@scope pa::AbsPath::join
//@subst self.as_ref().join(path) =>> vx_path_join(&self.0, path)
//@shim .try_into -> vx_try_into -
//@endscope
//@scope vp::VfsPath::join
//@shim .join.normalize -> vx_join_normalize &
//@endscope
//@scope vp::VfsPath::name_and_extension
//@shim .file_stem -> vx_file_stem -
//@shim .extension -> vx_extension -
//@shim .to_str -> vx_to_str -
//@endscope
//@closure vp::VfsPath::name_and_extension/and_then#0 |&OsStr| Option<&str> ensures utf8_of($0@, vx_r)
//@include map.rs
//@file fs crates/vfs/src/file_set.rs
//@file vl crates/vfs/src/lib.rs noinline
//@file an crates/vfs/src/anchored_path.rs
//@retype FxHashMap<VfsPath, FileId> => VxMap<VfsPath, FileId>
//@retype FxHashMap<FileId, VfsPath> => VxMap<FileId, VfsPath>
//@include vfspath.rs
//@scope fs::FileSet::resolve_path
//@subst self.paths[&path.anchor].clone() =>> self.paths.vx_index(&path.anchor).clone()
//@shim .copied -> vx_copied -
//@endscope
verus! {
broadcast use {vx_str_fits, vx_str_ext, cidx_take, cidx_def};
// ---- std ----
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
#[verifier::external_body]
pub fn vx_str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn vx_ends_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body]
pub fn vx_starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
/// the last index of c, or -1
pub open spec fn last_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_of(s.drop_last(), c) } }
#[verifier::external_body]
pub fn vx_rfind(s: &str, c: char) -> (r: Option<usize>)
    ensures match r { Some(n) => last_of(s@, c) >= 0 && n == blen(s@.take(last_of(s@, c))), None => last_of(s@, c) < 0 } { s.rfind(c) }
/// format!("{}/{}", a, b)
#[verifier::external_body]
pub fn vx_slash(a: &str, b: &str) -> (r: String) ensures r@ == a@.push('/') + b@ { format!("{}/{}", a, b) }
pub open spec fn trim(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && p.is_prefix_of(s) { trim(s.skip(p.len() as int), p) } else { s } }
#[verifier::external_body]
pub fn vx_trim_start_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == trim(s@, p@) { s.trim_start_matches(p) }
/// s.rsplitn(2, c): the pieces, last first
#[verifier::external_body]
pub struct VxRSplit2<'a> { s: &'a str }
impl<'a> VxRSplit2<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_rsplit2<'a>(s: &'a str, n: usize, c: char) -> (r: VxRSplit2<'a>)
    requires n == 2,
    ensures r.rest() == (if last_of(s@, c) < 0 { seq![s@] } else { seq![s@.skip(last_of(s@, c) + 1), s@.take(last_of(s@, c))] }) { unimplemented!() }
proof fn last_of_ok(s: Seq<char>, c: char)
    ensures -1 <= last_of(s, c) < s.len(), last_of(s, c) >= 0 ==> s[last_of(s, c)] == c,
        forall|i: int| last_of(s, c) < i < s.len() ==> s[i] != c,
    decreases s.len(),
{ if s.len() > 0 && s.last() != c { last_of_ok(s.drop_last(), c); assert forall|i: int| last_of(s, c) < i < s.len() implies s[i] != c by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } } } }

// ---- paths on disk ----
proof fn next_step(c: Seq<Comp>, rest: Seq<Component<'_>>, x: Component<'_>, n: int)
    requires 0 <= n < c.len(), rest.len() == c.len() - n - 1, comps_of(seq![x] + rest) == c.skip(n),
    ensures x@ == c[n], comps_of(rest) == c.skip(n + 1), c.take(n + 1).drop_last() == c.take(n), c.take(n + 1).last() == c[n],
{
    let s = seq![x] + rest;
    assert(comps_of(s)[0] == c.skip(n)[0]);
    assert(s[0] == x);
    assert forall|i: int| 0 <= i < rest.len() implies #[trigger] comps_of(rest)[i] == c.skip(n + 1)[i] by { assert(s[i + 1] == rest[i]); assert(comps_of(s)[i + 1] == c.skip(n)[i + 1]); }
    assert(comps_of(rest) =~= c.skip(n + 1));
    assert(c.take(n + 1).drop_last() =~= c.take(n));
}
/// what is resolved so far starts at the root
proof fn resolve_prefix(c: Seq<Comp>, n: int)
    requires abs_comps(c), 0 <= n <= c.len(),
    ensures n > 0 ==> clean(resolve(c.take(n))), n == 0 ==> resolve(c.take(n)).len() == 0,
{ if n > 0 { assert(abs_comps(c.take(n))); resolve_clean(c.take(n)); } }

//@fn pa::normalize_path ret=r
    requires abs_comps(path.comps()),
    ensures r.comps() == resolve(path.comps()), r.tidy(), clean(r.comps()),
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@locals components ret
//@loop 0 next=vx_it
    invariant abs_comps(path.comps()), ret.tidy(), ret.comps() == resolve(path.comps().take(path.comps().len() - vx_it.rest().len())),
        vx_it.rest().len() <= path.comps().len(), comps_of(vx_it.rest()) == path.comps().skip(path.comps().len() - vx_it.rest().len()),
        forall|i: int| 0 <= i < path.comps().len() ==> !(#[trigger] path.comps()[i] is Prefix),
    ensures vx_it.rest().len() == 0,
    decreases vx_it.rest().len(),
//@at before_call new 0 optional
    proof { assert(enc(Seq::<Comp>::empty()) == Seq::<u8>::empty()); }
//@at loopstart 0
    proof {
        let c = path.comps(); let n = c.len() - vx_it.rest().len() - 1;
        next_step(c, vx_it.rest(), component, n);
        resolve_prefix(c, n); resolve_prefix(c, n + 1);
        assert(c.take(n) == c.take(n + 1).drop_last());
        assert(seq![sep()].contains(sep())) by { assert(seq![sep()][0] == sep()); }
        assert(ret.comps() == resolve(c.take(n)));
    }
//@at end
    proof { assert(path.comps().take(path.comps().len() as int) =~= path.comps()); resolve_clean(path.comps()); }
//@endfn
//@fn pa::AbsPath::normalize ret=r
    requires abs_comps(self.0.comps()),
    ensures r.norm(), r.0.comps() == resolve(self.0.comps()),
//@endfn
/// P13: normalising again changes nothing, byte for byte
fn normalize_twice(p: &AbsPath) requires abs_comps(p.0.comps())
{
    let a = p.normalize();
    proof { clean_abs(a.0.comps()); resolve_idem(a.0.comps()); }
    let b = vx_deref_normalize(&a);
    proof { assert(b.0.comps() == a.0.comps()); assert(b.0.bytes() == a.0.bytes()); }
}
pub proof fn clean_abs(c: Seq<Comp>) requires clean(c) ensures abs_comps(c) { }
/// TRUSTED: AbsPath is a repr(transparent) Path: the cast in AbsPath::assert keeps the path
#[verifier::external_body]
pub fn vx_cast(p: &Path) -> (r: &AbsPath) ensures r.0.comps() == p.comps(), r.0.bytes() == p.bytes() { unimplemented!() }
//@fn pa::AbsPath::assert ret=r
    requires abs_comps(path.comps()),
    ensures r.0.comps() == path.comps(), r.0.bytes() == path.bytes(),
//@endfn
//@fn pa::AbsPathBuf::as_path ret=r
    requires abs_comps(self.0.comps()),
    ensures r.0.comps() == self.0.comps(), r.0.bytes() == self.0.bytes(),
//@endfn
//@fn pa::AbsPathBuf.TryFrom<PathBuf>::try_from ret=r
    ensures r == (if abs_comps(path_buf.comps()) { Ok::<AbsPathBuf, PathBuf>(AbsPathBuf(path_buf)) } else { Err(path_buf) }),
//@endfn
/// rule: Deref for AbsPathBuf is as_path, written out
pub fn vx_deref_normalize(p: &AbsPathBuf) -> (r: AbsPathBuf)
    requires abs_comps(p.0.comps()),
    ensures r.norm(), r.0.comps() == resolve(p.0.comps()),
{ p.as_path().normalize() }
/// the components of a path given as text
pub uninterp spec fn text_comps(s: Seq<char>) -> Seq<Comp>;
/// TRUSTED: std: what the components of a path can be (on unix no path has a prefix; the root comes first or not at all)
#[verifier::external_body]
pub proof fn text_comps_ok(s: Seq<char>)
    ensures forall|i: int| 0 <= i < text_comps(s).len() ==> match #[trigger] text_comps(s)[i] { Comp::Root => i == 0, Comp::Prefix => false, Comp::Normal(n) => name_ok(n), _ => true } { }
pub open spec fn no_dots(b: Seq<Comp>) -> Seq<Comp> { b.filter(|c: Comp| !(c is Cur)) }
/// one path after another: an absolute one takes over
pub open spec fn joined(a: Seq<Comp>, b: Seq<Comp>) -> Seq<Comp> { if b.len() > 0 && b[0] is Root { b } else { a + no_dots(b) } }
proof fn filter_in(b: Seq<Comp>) ensures forall|i: int| 0 <= i < no_dots(b).len() ==> b.contains(#[trigger] no_dots(b)[i])
    decreases b.len(),
{
    reveal(Seq::filter);
    if b.len() > 0 {
        filter_in(b.drop_last());
        let f = no_dots(b.drop_last());
        assert forall|i: int| 0 <= i < no_dots(b).len() implies b.contains(#[trigger] no_dots(b)[i]) by {
            if i < f.len() { assert(b.drop_last().contains(f[i])); let k = choose|k: int| 0 <= k < b.len() - 1 && b.drop_last()[k] == f[i]; assert(b[k] == f[i]); }
            else { assert(b[b.len() - 1] == b.last()); }
        }
    }
}
proof fn joined_abs(a: Seq<Comp>, s: Seq<char>)
    requires abs_comps(a),
    ensures abs_comps(joined(a, text_comps(s))),
{
    text_comps_ok(s);
    let b = text_comps(s);
    if !(b.len() > 0 && b[0] is Root) {
        filter_in(b);
        let f = no_dots(b);
        assert forall|i: int| 1 <= i < joined(a, b).len() implies match #[trigger] joined(a, b)[i] { Comp::Cur => true, Comp::Parent => true, Comp::Normal(n) => name_ok(n), _ => false } by {
            if i < a.len() { assert(joined(a, b)[i] == a[i]); }
            else { let x = f[i - a.len()]; assert(b.contains(x)); let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(b[k] == x); }
        }
    }
}
/// TRUSTED: std: Path::join
#[verifier::external_body]
pub fn vx_path_join(p: &Path, t: &str) -> (r: PathBuf) ensures r.comps() == joined(p.comps(), text_comps(t@)) { unimplemented!() }
pub fn vx_try_into(p: PathBuf) -> (r: Result<AbsPathBuf, PathBuf>) ensures r == (if abs_comps(p.comps()) { Ok::<AbsPathBuf, PathBuf>(AbsPathBuf(p)) } else { Err(p) }) { AbsPathBuf::try_from(p) }
//@fn pa::AbsPath::join ret=r
    requires abs_comps(self.0.comps()),
    ensures r.0.comps() == joined(self.0.comps(), text_comps(path@)), abs_comps(r.0.comps()),
//@at start
    proof { joined_abs(self.0.comps(), path@); }
//@endfn
/// TRUSTED: std: Path::to_path_buf
#[verifier::external_body]
pub fn vx_to_path_buf(p: &Path) -> (r: PathBuf) ensures r.comps() == p.comps(), r.bytes() == p.bytes() { unimplemented!() }
//@fn pa::AbsPath::to_path_buf ret=r
    requires abs_comps(self.0.comps()),
    ensures r.0.comps() == self.0.comps(), r.0.bytes() == self.0.bytes(),
//@endfn
/// joining resolves what the second path says from where the first one is
proof fn joined_resolves(a: Seq<Comp>, b: Seq<Comp>)
    requires a.len() > 0, b.len() == 0 || !(b[0] is Root),
    ensures resolve(joined(a, b)) == resolve(a + b),
    decreases b.len(),
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(joined(a, b) =~= a + b); }
    else {
        let d = b.drop_last();
        joined_resolves(a, d);
        assert((a + b).drop_last() =~= a + d);
        if b.last() is Cur { assert(joined(a, b) =~= joined(a, d)); }
        else { assert(joined(a, b) =~= joined(a, d).push(b.last())); assert(joined(a, b).drop_last() =~= joined(a, d)); }
    }
}
pub fn vx_join_normalize(p: &AbsPathBuf, t: &str) -> (r: AbsPathBuf)
    requires abs_comps(p.0.comps()),
    ensures r.norm(), r.0.comps() == resolve(joined(p.0.comps(), text_comps(t@))),
{ vx_deref_normalize(&p.as_path().join(t)) }
//@fn pa::AbsPathBuf::pop ret=r
    requires old(self).norm(),
    ensures final(self).norm(), r == (old(self).0.comps().len() > 1),
        final(self).0.comps() == (if r { old(self).0.comps().drop_last() } else { old(self).0.comps() }),
//@endfn

// ---- virtual paths ----
pub open spec fn parent(s: Seq<char>) -> Seq<char> { s.take(last_of(s, '/')) }
pub open spec fn up(rel: Seq<char>) -> bool { rel.len() >= 3 && rel[0] == '.' && rel[1] == '.' && rel[2] == '/' }
/// P13: one step up for each leading "../", none past the top
pub open spec fn climb(base: Seq<char>, rel: Seq<char>) -> Option<Seq<char>> decreases rel.len()
{
    if up(rel) { if last_of(base, '/') >= 0 { climb(parent(base), rel.skip(3)) } else { None } }
    else { Some(base.push('/') + trim(rel, "./"@)) }
}
proof fn up_prefix(s: Seq<char>)
    ensures "../"@.is_prefix_of(s) == up(s), blen("../"@) == 3, up(s) ==> blen(s.take(3)) == 3 && cidx(s, 3) == 3 && cb(s, 3),
{
    reveal_strlit("../");
    ascii_prefix("../"@, 3); assert("../"@.take(3) =~= "../"@);
    if up(s) { assert(s.subrange(0, 3) =~= "../"@); assert forall|i: int| 0 <= i < 3 implies (#[trigger] s[i] as u32) < 128 by { } ascii_prefix(s, 3); }
    if "../"@.is_prefix_of(s) { assert(s.subrange(0, 3) == "../"@); assert(s[0] == s.subrange(0, 3)[0] && s[1] == s.subrange(0, 3)[1] && s[2] == s.subrange(0, 3)[2]); }
}
/// how often a path climbs, and how far it can
pub open spec fn ups(rel: Seq<char>) -> int decreases rel.len() { if up(rel) { 1 + ups(rel.skip(3)) } else { 0 } }
pub open spec fn depth(base: Seq<char>) -> int decreases base.len() { if last_of(base, '/') >= 0 && last_of(base, '/') < base.len() { 1 + depth(parent(base)) } else { 0 } }
/// P13: joining fails exactly when it would climb past the top
proof fn climbs_as_far_as_it_can(base: Seq<char>, rel: Seq<char>)
    ensures climb(base, rel) is None <==> ups(rel) > depth(base), ups(rel) >= 0, depth(base) >= 0,
    decreases rel.len(), base.len(),
{
    last_of_ok(base, '/');
    if last_of(base, '/') >= 0 { climbs_as_far_as_it_can(parent(base), if up(rel) { rel.skip(3) } else { rel }); }
    if up(rel) { climbs_as_far_as_it_can(base, rel.skip(3)); }
}
//@fn vp::VirtualPath::pop ret=r
    ensures r == (last_of(old(self).0@, '/') >= 0), final(self).0@ == (if r { parent(old(self).0@) } else { old(self).0@ }),
//@at start
    proof { last_of_ok(self.0@, '/'); }
//@endfn
//@fn vp::VirtualPath::join ret=r
    ensures match r { Some(p) => climb(self.0@, path@) == Some(p.0@), None => climb(self.0@, path@) is None },
//@locals res
//@at start
    let ghost rel = path@;
    proof { assert forall|s: Seq<char>| #[trigger] up(s) == "../"@.is_prefix_of(s) by { up_prefix(s); } }
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant climb(self.0@, rel) == climb(res.0@, path@),
    decreases path@.len(),
//@at loopstart 0
    proof { up_prefix(path@); }
//@endfn
/// the last component of a virtual path, written with or without a final slash
pub open spec fn file_name(s: Seq<char>) -> Seq<char> {
    let t = if s.len() > 0 && s.last() == '/' { s.drop_last() } else { s };
    t.skip(last_of(t, '/') + 1)
}
/// P13: where the extension starts: the last dot, unless it comes first
pub open spec fn dot(n: Seq<char>) -> Option<int> { if last_of(n, '.') > 0 { Some(last_of(n, '.')) } else { None } }
pub open spec fn name_ext(s: Seq<char>, r: Option<(&str, Option<&str>)>) -> bool {
    let n = file_name(s);
    match r {
        None => n.len() == 0,
        Some((stem, None)) => n.len() > 0 && dot(n) is None && stem@ == n,
        Some((stem, Some(ext))) => n.len() > 0 && dot(n) is Some && stem@ == n.take(dot(n)->0) && ext@ == n.skip(dot(n)->0 + 1),
    }
}
/// P13: splitting a file name loses nothing
proof fn split_loses_nothing(n: Seq<char>)
    requires dot(n) is Some,
    ensures n.take(dot(n)->0).push('.') + n.skip(dot(n)->0 + 1) == n,
{ last_of_ok(n, '.'); assert(n.take(dot(n)->0).push('.') + n.skip(dot(n)->0 + 1) =~= n); }
//@fn vp::VirtualPath::name_and_extension ret=r
    ensures name_ext(self.0@, r),
//@locals file_path file_name
//@at start
    proof {
        let s = self.0@;
        blen_bounds(s);
        cidx_zero(s); cidx_zero(Seq::empty());
        if s.len() > 0 { blen_take(s, s.len() - 1); clen_bounds(s.last()); assert(s.take(s.len() as int) =~= s); assert(s.take(s.len() - 1) =~= s.drop_last()); cidx_unique(s, s.len() - 1); }
        last_of_ok(s, '/'); last_of_ok(s.drop_last(), '/');
    }
//@at before_call rfind 0
    proof { let t = file_path@; last_of_ok(t, '/'); let k = last_of(t, '/'); if k >= 0 { blen_take(t, k); clen_bounds('/'); cidx_unique(t, k + 1); blen_mono(t, k + 1, t.len() as int); assert(t.take(t.len() as int) =~= t); assert(encode_utf8(file_path@).len() <= isize::MAX); } else { assert(t.skip(0) =~= t); } }
//@at before_call is_empty 0
    proof { reveal_strlit(""); assert(file_name@ == self::file_name(self.0@)); let n = file_name@; last_of_ok(n, '.'); let d = last_of(n, '.'); if d >= 0 { assert(seq![n.skip(d + 1), n.take(d)].skip(1)[0] == n.take(d)); assert(n.take(d).len() == d); if d == 0 { assert(n.take(d) =~= ""@); } } }
//@endfn
//@fn vp::VfsPath::new_virtual_path ret=r
    requires path@.len() > 0, path@[0] == '/',
    ensures r.0 == VfsPathRepr::VirtualPath(VirtualPath(path)), r.wf(),
//@endfn
//@fn vp::VfsPath::join ret=r
    requires self.wf(),
    ensures joins(*self, path@, r),
//@endfn
/// P13: the parent of a path
pub open spec fn popped(a: VfsPath, b: VfsPath) -> bool {
    match (a.0, b.0) {
        (VfsPathRepr::PathBuf(x), VfsPathRepr::PathBuf(y)) => x.0.comps().len() > 1 && y.0.comps() == x.0.comps().drop_last(),
        (VfsPathRepr::VirtualPath(x), VfsPathRepr::VirtualPath(y)) => last_of(x.0@, '/') >= 0 && y.0@ == parent(x.0@),
        _ => false,
    }
}
pub open spec fn has_parent(a: VfsPath) -> bool {
    match a.0 { VfsPathRepr::PathBuf(x) => x.0.comps().len() > 1, VfsPathRepr::VirtualPath(x) => last_of(x.0@, '/') >= 0 }
}
/// the directory a path is in, or the path itself when it has none
pub open spec fn beside(a: VfsPath, d: VfsPath) -> bool {
    popped(a, d) || !has_parent(a) && match (a.0, d.0) {
        (VfsPathRepr::PathBuf(x), VfsPathRepr::PathBuf(y)) => x.0.comps() == y.0.comps(),
        (VfsPathRepr::VirtualPath(x), VfsPathRepr::VirtualPath(y)) => x.0@ == y.0@,
        _ => false,
    }
}
//@fn vp::VfsPath::pop ret=r
    requires old(self).wf(),
    ensures final(self).wf(), r == has_parent(*old(self)), beside(*old(self), *final(self)),
//@endfn
//@fn vp::VfsPath::parent ret=r rename=vfs_parent
    requires self.wf(),
    ensures match r { Some(p) => p.wf() && popped(*self, p), None => !has_parent(*self) },
//@endfn
pub open spec fn last_byte(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_byte(s.drop_last(), c) } }
/// the file name of a path on disk, split at its last dot unless that comes first
pub open spec fn stem_ext(c: Seq<Comp>) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    if c.len() == 0 || !(c.last() is Normal) { None } else {
        let n = c.last()->Normal_0; let d = last_byte(n, 46u8);
        Some(if d > 0 { (n.take(d), Some(n.skip(d + 1))) } else { (n, None) })
    }
}
pub open spec fn utf8_of(b: Seq<u8>, r: Option<&str>) -> bool {
    match r { Some(t) => encode_utf8(t@) == b, None => forall|t: Seq<char>| #[trigger] encode_utf8(t) != b }
}
/// TRUSTED: std: Path::file_stem, Path::extension, OsStr::to_str
#[verifier::external_body]
pub fn vx_file_stem(p: &AbsPathBuf) -> (r: Option<&OsStr>)
    ensures match r { Some(n) => stem_ext(p.0.comps()) is Some && n@ == (stem_ext(p.0.comps())->0).0, None => stem_ext(p.0.comps()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_extension(p: &AbsPathBuf) -> (r: Option<&OsStr>)
    ensures match r { Some(n) => stem_ext(p.0.comps()) is Some && (stem_ext(p.0.comps())->0).1 == Some(n@), None => stem_ext(p.0.comps()) is None || (stem_ext(p.0.comps())->0).1 is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_str(n: &OsStr) -> (r: Option<&str>) ensures utf8_of(n@, r) { unimplemented!() }
//@fn vp::VfsPath::name_and_extension ret=r
    ensures match self.0 {
        VfsPathRepr::VirtualPath(p) => name_ext(p.0@, r),
        VfsPathRepr::PathBuf(p) => match (r, stem_ext(p.0.comps())) {
            (None, None) => true,
            (None, Some(x)) => forall|t: Seq<char>| #[trigger] encode_utf8(t) != x.0,
            (Some(x), Some(y)) => encode_utf8(x.0@) == y.0 && match y.1 { None => x.1 is None, Some(e) => utf8_of(e, x.1) },
            (Some(_), None) => false,
        },
    },
//@endfn
//@type vl::FileId derive=
//@type fs::FileSet derive=
//@type an::AnchoredPath derive=
impl Clone for FileId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FileId { }
/// TRUSTED: std: Option::copied
#[verifier::external_body]
pub fn vx_copied(r: Option<&FileId>) -> (c: Option<FileId>) ensures c == (match r { Some(x) => Some(*x), None => None }) { unimplemented!() }
/// where a relative path leads from a directory
pub open spec fn joins(d: VfsPath, rel: Seq<char>, r: Option<VfsPath>) -> bool {
    match (d.0, r) {
        (VfsPathRepr::PathBuf(a), Some(p)) => p.wf() && p.0 is PathBuf && p.0->PathBuf_0.0.comps() == resolve(joined(a.0.comps(), text_comps(rel))),
        (VfsPathRepr::PathBuf(a), None) => false,
        (VfsPathRepr::VirtualPath(a), Some(p)) => p.0 is VirtualPath && climb(a.0@, rel) == Some(p.0->VirtualPath_0.0@),
        (VfsPathRepr::VirtualPath(a), None) => climb(a.0@, rel) is None,
    }
}
pub open spec fn joined_to(d: VfsPath, rel: Seq<char>, q: VfsPath, s: FileSet, r: Option<FileId>) -> bool {
    joins(d, rel, Some(q)) && r == (if s.files@.contains_key(q) { Some(s.files@[q]) } else { None })
}
/// a path given relative to a file is looked up from the directory the file is in
//@fn fs::FileSet::resolve_path ret=r
    requires self.paths@.contains_key(path.anchor), self.paths@[path.anchor].wf(),
    ensures exists|d: VfsPath| #![trigger beside(self.paths@[path.anchor], d)] beside(self.paths@[path.anchor], d) &&
        ((r is None && joins(d, path.path@, None)) || exists|q: VfsPath| #[trigger] joined_to(d, path.path@, q, *self, r)),
//@at before_call join 0
    proof { assert(beside(self.paths@[path.anchor], base)); assert(base.wf()); }
    let ghost rel = path.path@;
//@at after_call join 0
    proof { assert(joined_to(base, rel, path, *self, if self.files@.contains_key(path) { Some(self.files@[path]) } else { None })); }
//@endfn
//@fn vp::VfsPath::as_path ret=r
    requires self.wf(),
    ensures match r { Some(p) => self.0 is PathBuf && p.0.comps() == self.0->PathBuf_0.0.comps(), None => self.0 is VirtualPath },
//@endfn
//@fn vp::VfsPath::from ret=r
    requires abs_comps(v.0.comps()),
    ensures r.wf(), r.0 is PathBuf, r.0->PathBuf_0.0.comps() == resolve(v.0.comps()),
//@endfn
}
fn main() {}

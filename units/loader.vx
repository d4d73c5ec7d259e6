//@include base.rs
//@include str.rs
//@include walk.rs
//@include stdpath.rs
//@file pa crates/paths/src/lib.rs
//@file vp crates/vfs/src/vfs_path.rs
//@file ld crates/vfs/src/loader.rs
//@include vfspath.rs
//@subst &*(path as *const Path as *const AbsPath) =>> vx_abs_path(path)
//@scope ld::
//@shim .starts_with -> vx_abs_starts_with &
//@shim .extension.unwrap_or_default -> vx_extension_or_default &
//@shim .iter.any -> vx_any &
//@shim .iter.all -> vx_all &
//@subst it == path =>> vx_abs_eq(it, path)
//@subst it.as_str() != ext =>> !vx_str_eq_os(it.as_str(), ext)
//@subst it.as_str() == ext =>> vx_str_eq_os(it.as_str(), ext)
//@endscope
//@closure ld::Entry::contains_file/any#0 |&AbsPathBuf| bool requires $0.is_abs() ensures vx_r == ($0.0.comps() == path.0.comps())
//@closure ld::Directories::contains_file/all#0 |&String| bool ensures vx_r == (os_of($0@) != ext@)
//@closure ld::Directories::includes_path/any#0 |&AbsPathBuf| bool requires $0.is_abs() && include.is_abs() ensures vx_r == (under(path.0.comps(), $0.0.comps()) && under($0.0.comps(), include.0.comps()))
verus! {
// ---- std ----
/// the bytes of a text
pub uninterp spec fn os_of(s: Seq<char>) -> Seq<u8>;
/// OsStr == str compares the bytes
#[verifier::external_body]
pub fn vx_str_eq_os(a: &str, b: &OsStr) -> (r: bool) ensures r == (os_of(a@) == b@) { unimplemented!() }
/// what stands after the last dot of a file name, unless the dot opens it
pub uninterp spec fn ext_of(c: Seq<Comp>) -> Option<Seq<u8>>;
impl Path {
    #[verifier::external_body]
    pub fn starts_with(&self, base: &Path) -> (r: bool) ensures r == base.comps().is_prefix_of(self.comps()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures r is Some == ext_of(self.comps()) is Some, r is Some ==> r->Some_0@ == ext_of(self.comps())->Some_0 { unimplemented!() }
    /// Path == Path compares the components
    #[verifier::external_body]
    pub fn vx_eq(&self, o: &Path) -> (r: bool) ensures r == (self.comps() == o.comps()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_abs_path(p: &Path) -> (r: &AbsPath) ensures r.0 == *p { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty_os<'a>() -> (r: &'a OsStr) ensures r@.len() == 0 { unimplemented!() }
/// s.iter().any(f), s.iter().all(f)
#[verifier::external_body]
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_all<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), false),
        r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), true) { unimplemented!() }
// ---- absolute paths ----
impl AbsPathBuf { pub open spec fn is_abs(&self) -> bool { abs_comps(self.0.comps()) } }
//@fn pa::AbsPath::assert ret=r
    requires abs_comps(path.comps()),
    ensures r.0 == *path,
//@endfn
//@fn pa::AbsPathBuf::as_path ret=r
    requires self.is_abs(),
    ensures r.0.comps() == self.0.comps(),
//@endfn
//@fn pa::AbsPath::starts_with ret=r
    ensures r == under(self.0.comps(), base.0.comps()),
//@endfn
//@fn pa::AbsPath::extension ret=r
    ensures r is Some == ext_of(self.0.comps()) is Some, r is Some ==> r->Some_0@ == ext_of(self.0.comps())->Some_0,
//@endfn
/// the automatic dereference of AbsPathBuf to AbsPath
pub trait AsAbs {
    spec fn abs(&self) -> Seq<Comp>;
    spec fn ok(&self) -> bool;
    fn vx_deref(&self) -> (r: &AbsPath) requires self.ok() ensures r.0.comps() == self.abs();
}
impl AsAbs for AbsPath {
    open spec fn abs(&self) -> Seq<Comp> { self.0.comps() }
    open spec fn ok(&self) -> bool { true }
    fn vx_deref(&self) -> (r: &AbsPath) { self }
}
impl AsAbs for AbsPathBuf {
    open spec fn abs(&self) -> Seq<Comp> { self.0.comps() }
    open spec fn ok(&self) -> bool { self.is_abs() }
    fn vx_deref(&self) -> (r: &AbsPath) { self.as_path() }
}
impl<'a, T: AsAbs> AsAbs for &'a T {
    open spec fn abs(&self) -> Seq<Comp> { (**self).abs() }
    open spec fn ok(&self) -> bool { (**self).ok() }
    fn vx_deref(&self) -> (r: &AbsPath) { (**self).vx_deref() }
}
pub fn vx_abs_starts_with<A: AsAbs, B: AsAbs>(a: &A, b: &B) -> (r: bool) requires a.ok(), b.ok() ensures r == under(a.abs(), b.abs()) { a.vx_deref().starts_with(b.vx_deref()) }
/// a.extension().unwrap_or_default()
pub fn vx_extension_or_default<A: AsAbs>(a: &A) -> (r: &OsStr) requires a.ok() ensures r@ == ext(a.abs()) {
    match a.vx_deref().extension() { Some(e) => e, None => { let e = vx_empty_os(); proof { assert(e@ =~= Seq::<u8>::empty()); } e } }
}
/// AbsPathBuf == AbsPath
pub fn vx_abs_eq<A: AsAbs, B: AsAbs>(a: &A, b: &B) -> (r: bool) requires a.ok(), b.ok() ensures r == (a.abs() == b.abs()) { a.vx_deref().0.vx_eq(&b.vx_deref().0) }
// ---- P14 ----
pub type Comps = Seq<Comp>;
/// p is d or lies under it
pub open spec fn under(p: Comps, d: Comps) -> bool { d.is_prefix_of(p) }
/// the extension a file name has, empty when it has none
pub open spec fn ext(p: Comps) -> Seq<u8> { match ext_of(p) { Some(e) => e, None => Seq::empty() } }
//@type ld::Directories derive=
//@type ld::Entry derive=
impl Directories {
    /// only absolute paths are wrapped
    pub open spec fn wf(&self) -> bool {
        (forall|i: int| 0 <= i < self.include@.len() ==> (#[trigger] self.include@[i]).is_abs()) && (forall|i: int| 0 <= i < self.exclude@.len() ==> (#[trigger] self.exclude@[i]).is_abs())
    }
    pub open spec fn inc(&self, d: Comps) -> bool { exists|i: int| 0 <= i < self.include@.len() && (#[trigger] self.include@[i]).0.comps() == d }
    pub open spec fn exc(&self, d: Comps) -> bool { exists|i: int| 0 <= i < self.exclude@.len() && (#[trigger] self.exclude@[i]).0.comps() == d }
    /// d is the most specific included directory with p in it
    pub open spec fn closest(&self, p: Comps, d: Comps) -> bool { self.inc(d) && under(p, d) && forall|e: Comps| #[trigger] self.inc(e) && under(p, e) ==> under(d, e) }
    /// p lies under an included directory, and under no excluded one inside the most specific of those
    pub open spec fn scope(&self, p: Comps) -> bool {
        exists|d: Comps| #[trigger] self.closest(p, d) && !exists|e: Comps| #[trigger] self.exc(e) && under(p, e) && under(e, d)
    }
    pub open spec fn lists(&self, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < self.extensions@.len() && os_of((#[trigger] self.extensions@[i])@) == x }
}
/// of two directories with the same file in them, one is in the other
proof fn nested(p: Comps, a: Comps, b: Comps)
    requires under(p, a), under(p, b),
    ensures under(a, b) || under(b, a), a.len() <= b.len() ==> under(b, a),
{ if a.len() <= b.len() { assert(a =~= b.subrange(0, a.len() as int)); } else { assert(b =~= a.subrange(0, b.len() as int)); } }
impl Directories {
    pub proof fn one_closest(&self, p: Comps, d: Comps, e: Comps)
        requires self.closest(p, d), self.closest(p, e),
        ensures d == e,
    { assert(under(d, e) && under(e, d)); assert(d =~= e); }
}
//@fn ld::Directories::includes_path ret=r bindtail
    requires self.wf(),
    ensures r == self.scope(path.0.comps()),
//@attr #[verifier::loop_isolation(false)]
//@loop 0 next=vx_it:vx_refs
    invariant vx_it_all == self.include@, vx_it.rest().len() <= vx_it_all.len(), vx_it.rest() == vx_it_all.skip(vx_it_all.len() - vx_it.rest().len()),
        best(self.include@, path.0.comps(), vx_it_all.len() - vx_it.rest().len(), include),
    decreases vx_it.rest().len(),
//@at loopstart 0
    let ghost n = vx_it_all.len() - vx_it.rest().len() - 1;
    proof {
        assert(vx_it_all.skip(n)[0] == *incl); assert(vx_it_all[n] == *incl); assert(vx_it_all.skip(n).skip(1) =~= vx_it_all.skip(n + 1));
        if include is Some && under(path.0.comps(), incl.0.comps()) { nested(path.0.comps(), incl.0.comps(), include->Some_0.0.comps()); }
    }
//@at afterloop 0
    proof {
        let p = path.0.comps();
        if include is Some {
            let d = include->Some_0.0.comps();
            assert(self.inc(d));
            assert(self.closest(p, d)) by { assert forall|e: Comps| #[trigger] self.inc(e) && under(p, e) implies under(d, e) by { } }
        }
    }
//@at end
    proof {
        let p = path.0.comps(); let d = include.0.comps();
        assert(self.closest(p, d));
        assert forall|e: Comps| self.closest(p, e) implies e == d by { self.one_closest(p, d, e); }
        if vx_tail { assert forall|e: Comps| #[trigger] self.exc(e) implies !(under(p, e) && under(e, d)) by { } assert(self.scope(p)); }
        else {
            let i = choose|i: int| 0 <= i < self.exclude@.len() && under(p, (#[trigger] self.exclude@[i]).0.comps()) && under(self.exclude@[i].0.comps(), d);
            assert(self.exc(self.exclude@[i].0.comps()));
        }
    }
//@endfn
/// of the first n included directories, the most specific with p in it
pub open spec fn best(inc: Seq<AbsPathBuf>, p: Comps, n: int, got: Option<&AbsPathBuf>) -> bool {
    &&& got is Some ==> under(p, got->Some_0.0.comps()) && exists|i: int| 0 <= i < n && #[trigger] inc[i] == got->Some_0
    &&& forall|i: int| 0 <= i < n && under(p, (#[trigger] inc[i]).0.comps()) ==> got is Some && under(got->Some_0.0.comps(), inc[i].0.comps())
}
//@fn ld::Directories::contains_file ret=r
    requires self.wf(),
    ensures r == (self.lists(ext(path.0.comps())) && self.scope(path.0.comps())),
//@endfn
//@fn ld::Directories::contains_dir ret=r
    requires self.wf(),
    ensures r == self.scope(path.0.comps()),
//@endfn
impl Entry {
    pub open spec fn wf(&self) -> bool { match self { Entry::Files(f) => forall|i: int| 0 <= i < f@.len() ==> (#[trigger] f@[i]).is_abs(), Entry::Directories(d) => d.wf() } }
}
//@fn ld::Entry::contains_file ret=r
    requires self.wf(),
    ensures match self {
        Entry::Files(f) => r == exists|i: int| 0 <= i < f@.len() && (#[trigger] f@[i]).0.comps() == path.0.comps(),
        Entry::Directories(d) => r == (d.lists(ext(path.0.comps())) && d.scope(path.0.comps())),
    },
//@endfn
//@fn ld::Entry::contains_dir ret=r
    requires self.wf(),
    ensures match self { Entry::Files(_) => !r, Entry::Directories(d) => r == d.scope(path.0.comps()) },
//@endfn
}
fn main() {}

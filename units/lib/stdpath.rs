// ---- stdpath.rs: std::path on unix (TRUSTED: std). A path is its components and its bytes. ----
verus! {
pub mod std_path { use super::*;
/// a component of a path
#[verifier::ext_equal]
pub ghost enum Comp { Prefix, Root, Cur, Parent, Normal(Seq<u8>) }
pub open spec fn sep() -> u8 { 47u8 }
/// what an ordinary component may be called
#[verifier::opaque]
pub open spec fn is_dots(n: Seq<u8>) -> bool { n == seq![46u8] || n == seq![46u8, 46u8] }
pub open spec fn name_ok(n: Seq<u8>) -> bool { n.len() > 0 && !n.contains(sep()) && !is_dots(n) }
/// the bytes of a tidy path
pub open spec fn enc(c: Seq<Comp>) -> Seq<u8> decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else {
        match c.last() {
            Comp::Normal(n) => { let p = enc(c.drop_last()); (if p.len() == 0 || p.last() == sep() { p } else { p.push(sep()) }) + n },
            _ => seq![sep()],
        }
    }
}
/// an absolute path as written: the root, then anything
pub open spec fn abs_comps(c: Seq<Comp>) -> bool {
    c.len() > 0 && c[0] is Root && forall|i: int| 1 <= i < c.len() ==> match #[trigger] c[i] { Comp::Cur => true, Comp::Parent => true, Comp::Normal(n) => name_ok(n), _ => false }
}
/// an absolute path with nothing left to resolve
pub open spec fn clean(c: Seq<Comp>) -> bool {
    c.len() > 0 && c[0] is Root && forall|i: int| 1 <= i < c.len() ==> (#[trigger] c[i]) is Normal && name_ok(c[i]->Normal_0)
}
/// P13: resolving "." and ".." by the text of the path alone, never above the root
pub open spec fn resolve(c: Seq<Comp>) -> Seq<Comp> decreases c.len()
{
    if c.len() == 0 { Seq::empty() } else {
        let p = resolve(c.drop_last());
        match c.last() {
            Comp::Cur => p,
            Comp::Parent => if p.len() > 0 && !(p.last() is Root) && !(p.last() is Prefix) { p.drop_last() } else { p },
            Comp::Root => seq![Comp::Root],
            x => p.push(x),
        }
    }
}
pub proof fn resolve_clean(c: Seq<Comp>)
    requires abs_comps(c),
    ensures clean(resolve(c)), resolve(c).len() <= c.len(),
    decreases c.len(),
{
    let d = c.drop_last();
    if c.len() == 1 { assert(resolve(d).len() == 0); } else { assert(abs_comps(d)); resolve_clean(d); }
}
pub proof fn resolve_idem(c: Seq<Comp>)
    requires clean(c),
    ensures resolve(c) == c,
    decreases c.len(),
{
    let d = c.drop_last();
    if c.len() == 1 { assert(resolve(c) =~= c); } else { assert(clean(d)); resolve_idem(d); assert(c =~= d.push(c.last())); }
}
#[verifier::external_body]
pub struct OsStr { s: usize }
impl OsStr { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct PrefixComponent { s: usize }
pub enum Component<'a> { Prefix(PrefixComponent), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> Component<'a> {
    pub open spec fn view(&self) -> Comp {
        match self { Component::Prefix(_) => Comp::Prefix, Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(n) => Comp::Normal(n@) }
    }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &'a OsStr)
        ensures match self@ { Comp::Root => r@ == seq![sep()], Comp::Normal(n) => r@ == n, _ => true } { unimplemented!() }
}
impl<'a> Clone for Component<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { s: usize }
impl Path {
    pub uninterp spec fn comps(&self) -> Seq<Comp>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == abs_comps(self.comps()) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { s: usize }
impl PathBuf {
    pub uninterp spec fn comps(&self) -> Seq<Comp>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    /// written the shortest way
    pub open spec fn tidy(&self) -> bool { self.bytes() == enc(self.comps()) }
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r.comps() == Seq::<Comp>::empty(), r.bytes() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(p: &OsStr) -> PathBuf { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.comps() == self.comps(), r.bytes() == self.bytes() { unimplemented!() }
    /// pushing the root replaces the path; pushing a name adds a component
    #[verifier::external_body]
    pub fn push(&mut self, p: &OsStr)
        requires p@ == seq![sep()] || name_ok(p@),
        ensures final(self).comps() == (if p@ == seq![sep()] { seq![Comp::Root] } else { old(self).comps().push(Comp::Normal(p@)) }),
            p@ == seq![sep()] || old(self).tidy() ==> final(self).tidy() { unimplemented!() }
    /// the last component goes, unless it is the root
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures r == (old(self).comps().len() > 0 && !(old(self).comps().last() is Root) && !(old(self).comps().last() is Prefix)),
            final(self).comps() == (if r { old(self).comps().drop_last() } else { old(self).comps() }),
            old(self).tidy() ==> final(self).tidy(), !r ==> final(self).bytes() == old(self).bytes() { unimplemented!() }
}
#[verifier::external]
impl std::fmt::Debug for PathBuf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl PathBuf {
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == abs_comps(self.comps()) { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// path.components().peekable(): on unix no path has a prefix
#[verifier::external_body]
pub struct VxComps<'a> { p: &'a Path }
impl<'a> VxComps<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Component<'a>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures match r {
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1) && old(self).rest() == seq![c] + final(self).rest(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_peek_cloned<'a>(c: &mut VxComps<'a>) -> (r: Option<Component<'a>>)
    ensures final(c).rest() == old(c).rest(), r == (if old(c).rest().len() > 0 { Some(old(c).rest()[0]) } else { None }) { unimplemented!() }
pub open spec fn comps_of(s: Seq<Component<'_>>) -> Seq<Comp> { s.map_values(|c: Component<'_>| c@) }
#[verifier::external_body]
pub fn vx_components<'a>(p: &'a Path) -> (r: VxComps<'a>)
    ensures comps_of(r.rest()) == p.comps(), forall|i: int| 0 <= i < p.comps().len() ==> !(#[trigger] p.comps()[i] is Prefix) { unimplemented!() }
}
}
use std_path::*;

// ---- tsize.rs: text-size's TextSize as the u32 it wraps, with overflow as an obligation; TextRange (TRUSTED dependency). ----
//@shimfn TextSize::from -> vx_size
//@shimfn TextSize::of -> vx_size_of_char
//@shimfn usize::from -> vx_usize
//@shimfn u32::from -> vx_size
//@shim .into -> vx_into
//@subst 0.into() =>> 0
//@subst vec![0.into()] =>> vx_vec1(0)
verus! {
pub type TextSize = u32;
pub fn vx_size(n: u32) -> (r: u32) ensures r == n { n }
pub fn vx_usize(n: u32) -> (r: usize) ensures r == n { n as usize }
/// TextSize::of(c): c.len_utf8() as u32
pub fn vx_size_of_char(c: char) -> (r: u32) ensures r == clen(c) { proof { clen_bounds(c); } c.len_utf8() as u32 }
pub fn vx_vec1<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { let mut v = Vec::new(); v.push(t); assert(v@ =~= seq![t]); v }
/// the `into()` of u32, usize and TextSize
pub trait VxInto<B>: Sized { spec fn conv(self) -> B; fn vx_conv(self) -> (r: B) ensures r == self.conv(); }
impl VxInto<u32> for u32 { open spec fn conv(self) -> u32 { self } fn vx_conv(self) -> u32 { self } }
impl VxInto<usize> for u32 { open spec fn conv(self) -> usize { self as usize } fn vx_conv(self) -> usize { self as usize } }
pub fn vx_into<A: VxInto<B>, B>(a: A) -> (r: B) ensures r == a.conv() { a.vx_conv() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TextRange { pub start: u32, pub end: u32 }
impl TextRange {
    pub open spec fn of(start: u32, end: u32) -> TextRange { TextRange { start, end } }
    #[verifier::when_used_as_spec(of)]
    pub fn new(start: u32, end: u32) -> (r: TextRange) requires start <= end ensures r == (TextRange { start, end }) { TextRange { start, end } }
    pub fn at(offset: u32, len: u32) -> (r: TextRange) requires offset + len <= u32::MAX ensures r == (TextRange { start: offset, end: (offset + len) as u32 }) { TextRange { start: offset, end: offset + len } }
    pub open spec fn spec_start(self) -> u32 { self.start }
    pub open spec fn spec_end(self) -> u32 { self.end }
    #[verifier::when_used_as_spec(spec_start)]
    pub fn start(self) -> (r: u32) ensures r == self.start { self.start }
    #[verifier::when_used_as_spec(spec_end)]
    pub fn end(self) -> (r: u32) ensures r == self.end { self.end }
    pub open spec fn spec_empty(self) -> bool { self.start == self.end }
    #[verifier::when_used_as_spec(spec_empty)]
    pub fn is_empty(self) -> (r: bool) ensures r == (self.start == self.end) { self.start == self.end }
    pub fn len(self) -> (r: u32) requires self.start <= self.end ensures r == self.end - self.start { self.end - self.start }
}
}

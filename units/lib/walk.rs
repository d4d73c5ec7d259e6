// ---- walk.rs: what a `for` over a vector goes through (R16; TRUSTED: std) ----
verus! {
/// for x in vec
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIntoIter<T> { v: Vec<T> }
impl<T> VxIntoIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_iter<T>(v: Vec<T>) -> (r: VxIntoIter<T>) ensures r.rest() == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_enumerate<T>(v: Vec<T>) -> (r: VxIntoIter<(usize, T)>)
    ensures r.rest().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.rest()[i] == (i as usize, v@[i]), v@.len() <= usize::MAX { unimplemented!() }
/// for x in &vec
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxRefs<'a, T> { v: &'a Vec<T> }
impl<'a, T> VxRefs<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_refs<'a, T>(v: &'a Vec<T>) -> (r: VxRefs<'a, T>) ensures r.rest() == v@ { unimplemented!() }
}

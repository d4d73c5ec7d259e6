// ---- indexset.rs: indexmap's IndexSet as a sequence without repetitions (TRUSTED dependency). ----
verus! {
pub use vset::*;
pub mod vset { use super::*;
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIndexSet<T> { v: Vec<T> }
impl<T> VxIndexSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index_of(&self, t: &T) -> (r: Option<usize>)
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == *t, None => !self@.contains(*t) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(t) => i < self@.len() && *t == self@[i as int], None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_full(&mut self, t: T) -> (r: (usize, bool))
        ensures r.1 == !old(self)@.contains(t), final(self)@ == (if r.1 { old(self)@.push(t) } else { old(self)@ }),
            r.0 < final(self)@.len() && final(self)@[r.0 as int] == t { unimplemented!() }
}
pub broadcast axiom fn indexset_distinct<T>(s: &VxIndexSet<T>) ensures (#[trigger] s@).no_duplicates(), s@.len() <= isize::MAX;
}
}

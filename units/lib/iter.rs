// ---- iter.rs: iterator chains over slices, one shim per chain (TRUSTED: std). ----
verus! {
/// s.iter().map(f), collected
#[verifier::external_body]
pub fn vx_iter_map<T, U, F: Fn(&T) -> U>(s: &[T], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i]),
{ s.iter().map(f).collect() }
/// v.extend(items)
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, t: Vec<T>) ensures final(v)@ == old(v)@ + t@ { v.extend(t) }
/// s.iter().skip(n)
#[verifier::external_body]
pub fn vx_iter_skip<T>(s: &[T], n: usize) -> (r: &[T]) ensures r@ == s@.skip(if n <= s@.len() { n as int } else { s@.len() as int }) { unimplemented!() }
/// s.iter().zip(t).all(f)
#[verifier::external_body]
pub fn vx_zip_all<T, U, F: Fn((&T, &U)) -> bool>(s: &[T], t: &[U], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() && i < t@.len() ==> call_requires(f, ((&#[trigger] s@[i], &t@[i]),)),
    ensures
        r ==> forall|i: int| 0 <= i < s@.len() && i < t@.len() ==> call_ensures(f, ((&#[trigger] s@[i], &t@[i]),), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && i < t@.len() && call_ensures(f, ((&#[trigger] s@[i], &t@[i]),), false),
{ s.iter().zip(t).all(f) }
/// s[lo..hi], s[lo..], s[..hi] of vectors
#[verifier::external_body]
pub fn vx_slice_range<T>(s: &Vec<T>, lo: usize, hi: usize) -> (r: &[T]) requires lo <= hi <= s@.len() ensures r@ == s@.subrange(lo as int, hi as int) { &s[lo..hi] }
#[verifier::external_body]
pub fn vx_slice_from<T>(s: &Vec<T>, lo: usize) -> (r: &[T]) requires lo <= s@.len() ensures r@ == s@.skip(lo as int) { &s[lo..] }
#[verifier::external_body]
pub fn vx_slice_to<T>(s: &Vec<T>, hi: usize) -> (r: &[T]) requires hi <= s@.len() ensures r@ == s@.take(hi as int) { &s[..hi] }
/// iter::once, chain, copied, skip, zip, map, filter over owned sequences
#[verifier::external_body]
pub fn vx_once<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { vec![t] }
#[verifier::external_body]
pub fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { a.into_iter().chain(b).collect() }
#[verifier::external_body]
pub fn vx_copied<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.iter().copied().collect() }
#[verifier::external_body]
pub fn vx_clone_iter<T: Clone>(s: &Vec<T>) -> (r: Vec<T>) ensures r@ == s@ { s.clone() }
#[verifier::external_body]
pub fn vx_skip<T>(s: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == s@.skip(if n <= s@.len() { n as int } else { s@.len() as int }) { s.into_iter().skip(n).collect() }
#[verifier::external_body]
pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]),
{ a.into_iter().zip(b).collect() }
#[verifier::external_body]
pub fn vx_map<A, B, F: Fn(A) -> B>(a: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (#[trigger] a@[i],)),
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (a@[i],), #[trigger] r@[i]),
{ a.into_iter().map(f).collect() }
#[verifier::external_body]
pub fn vx_filter<A, F: Fn(&A) -> bool>(a: Vec<A>, f: F) -> (r: Vec<A>)
    requires forall|i: int| 0 <= i < a@.len() ==> call_requires(f, (&#[trigger] a@[i],)),
    ensures exists|p: spec_fn(A) -> bool| filtered(a@, f, p, r@),
{ a.into_iter().filter(f).collect() }
pub open spec fn filtered<A, F: Fn(&A) -> bool>(a: Seq<A>, f: F, p: spec_fn(A) -> bool, r: Seq<A>) -> bool {
    r == a.filter(p) && forall|i: int| 0 <= i < a.len() ==> call_ensures(f, (&#[trigger] a[i],), p(a[i]))
}
}

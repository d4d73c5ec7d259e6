// ---- bytes.rs: byte buffers and their slices (TRUSTED: std) ----
verus! {
pub assume_specification[ std::string::String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
#[verifier::external_body]
pub fn vx_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@), r@.len() <= isize::MAX { s.into_bytes() }
#[verifier::external_body]
pub fn vx_as_mut_slice(v: &mut Vec<u8>) -> (r: &mut [u8]) ensures r@ == old(v)@, final(v)@ == final(r)@, final(r)@.len() == r@.len() { v.as_mut_slice() }
#[verifier::external_body]
pub fn vx_sl_from_mut<T>(v: &mut [T], n: usize) -> (r: &mut [T])
    requires n <= old(v)@.len(),
    ensures r@ == old(v)@.skip(n as int), final(v)@ == old(v)@.take(n as int) + final(r)@, final(r)@.len() == r@.len(),
{ &mut v[n..] }
#[verifier::external_body]
pub fn vx_sl_from<T>(v: &[T], n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { &v[n..] }
#[verifier::external_body]
pub fn vx_sl_to<T>(v: &[T], n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.take(n as int) { &v[..n] }
#[verifier::external_body]
pub fn vx_sl_range<T>(v: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
#[verifier::external_body]
pub fn vx_copy_within(v: &mut [u8], r: std::ops::Range<usize>, d: usize)
    requires r.start <= r.end <= old(v)@.len(), d + (r.end - r.start) <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(d as int) + old(v)@.subrange(r.start as int, r.end as int) + old(v)@.skip(d + (r.end - r.start)),
{ v.copy_within(r, d) }
/// unsafe Vec::set_len, to a length not above the current one
#[verifier::external_body]
pub fn vx_set_len(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.take(n as int) { unimplemented!() }
/// unsafe String::from_utf8_unchecked: the bytes have to be UTF-8
#[verifier::external_body]
pub fn vx_from_utf8_unchecked(v: Vec<u8>) -> (r: String) requires exists|s: Seq<char>| v@ == encode_utf8(s) ensures r@ == decode_utf8(v@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_contains(s: &[u8], b: &u8) -> (r: bool) ensures r == s@.contains(*b) { s.contains(b) }
/// s.windows(2).position(f)
#[verifier::external_body]
pub fn vx_windows_position<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, f: F) -> (r: Option<usize>)
    requires n > 0, forall|w: &[u8]| w@.len() == n ==> call_requires(f, (w,)),
    ensures match r {
        Some(i) => i + n <= s@.len() && (exists|w: &[u8]| w@ == s@.subrange(i as int, i + n) && #[trigger] call_ensures(f, (w,), true))
            && forall|j: int| #![trigger s@[j]] 0 <= j < i ==> exists|w: &[u8]| w@ == s@.subrange(j, j + n) && #[trigger] call_ensures(f, (w,), false),
        None => forall|j: int| #![trigger s@[j]] 0 <= j && j + n <= s@.len() ==> exists|w: &[u8]| w@ == s@.subrange(j, j + n) && #[trigger] call_ensures(f, (w,), false),
    },
{ s.windows(n).position(f) }
}

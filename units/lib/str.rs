// ---- str.rs: strings as character sequences, byte offsets through vstd::utf8. ----
mod vstr {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {

/// TRUSTED: no Rust string is longer than isize::MAX bytes.
pub broadcast axiom fn vx_str_fits(s: &str) ensures #[trigger] encode_utf8(s@).len() <= isize::MAX;

/// TRUSTED: two strings with the same characters are equal (used only for `match` on string literals).
pub broadcast axiom fn vx_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

pub open spec fn blen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
pub open spec fn clen(c: char) -> int { encode_scalar(c as u32).len() as int }

pub proof fn clen_bounds(c: char)
    ensures 1 <= clen(c) <= 4, clen(c) == 1 <==> (c as u32) < 128,
{ reveal(encode_scalar); }

pub proof fn blen_cat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
{ encode_utf8_concat(a, b); }

pub proof fn blen_empty() ensures blen(Seq::empty()) == 0
{ blen_cat(Seq::empty(), Seq::empty()); assert(Seq::<char>::empty() + Seq::empty() =~= Seq::<char>::empty()); }

pub proof fn blen_push(a: Seq<char>, c: char)
    ensures blen(a.push(c)) == blen(a) + clen(c),
{ encode_utf8_push(a, c); }

pub proof fn blen_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
{ blen_push(s.take(k), s[k]); assert(s.take(k).push(s[k]) =~= s.take(k + 1)); }

pub proof fn blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)), blen(s.take(j)) <= blen(s.take(i)) + 4 * (j - i),
    decreases j - i,
{ if i < j { blen_mono(s, i, j - 1); blen_take(s, j - 1); clen_bounds(s[j - 1]); } }

pub proof fn blen_bounds(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len(), blen(s) == 0 <==> s.len() == 0,
{ blen_mono(s, 0, s.len() as int); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty()); blen_empty(); }

/// `n` is the byte offset of a character boundary of `s`
pub open spec fn cb(s: Seq<char>, n: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n }
/// the index of the character that starts at byte `n`
pub open spec fn cidx(s: Seq<char>, n: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == n }

pub proof fn cidx_unique(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures cb(s, blen(s.take(k))), cidx(s, blen(s.take(k))) == k,
{
    let n = blen(s.take(k));
    let j = cidx(s, n);
    assert(0 <= k <= s.len() && blen(s.take(k)) == n);
    assert(0 <= j <= s.len() && blen(s.take(j)) == n);
    if j < k { blen_mono(s, j, k); } else if k < j { blen_mono(s, k, j); }
}

/// A broadcast form: mentions of the byte length of a prefix make it a boundary.
pub broadcast proof fn cidx_take(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures cb(s, #[trigger] blen(s.take(k))), cidx(s, blen(s.take(k))) == k,
{ cidx_unique(s, k); }

pub broadcast proof fn cidx_def(s: Seq<char>, n: int)
    requires cb(s, n),
    ensures 0 <= #[trigger] cidx(s, n) <= s.len(), blen(s.take(cidx(s, n))) == n,
{ }

pub proof fn cidx_zero(s: Seq<char>)
    ensures cb(s, 0), cidx(s, 0) == 0, cb(s, blen(s)), cidx(s, blen(s)) == s.len(),
{
    blen_empty(); assert(s.take(0) =~= Seq::empty()); cidx_unique(s, 0);
    assert(s.take(s.len() as int) =~= s); cidx_unique(s, s.len() as int);
}

/// Over an ASCII prefix byte offsets and character indices agree.
pub proof fn ascii_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 128,
    ensures blen(s.take(n)) == n, cb(s, n), cidx(s, n) == n,
    decreases n,
{
    cidx_zero(s);
    assert(s.take(0) =~= Seq::empty());
    if n > 0 { ascii_prefix(s, n - 1); blen_take(s, n - 1); clen_bounds(s[n - 1]); cidx_unique(s, n); }
}

pub proof fn cidx_skip(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len() - a,
    ensures blen(s.take(a + b)) == blen(s.take(a)) + blen(s.skip(a).take(b)), cb(s, blen(s.take(a)) + blen(s.skip(a).take(b))),
        cidx(s, blen(s.take(a)) + blen(s.skip(a).take(b))) == a + b, blen(s) == blen(s.take(a)) + blen(s.skip(a)),
{
    blen_cat(s.take(a), s.skip(a).take(b));
    assert(s.take(a) + s.skip(a).take(b) =~= s.take(a + b));
    cidx_unique(s, a + b);
    blen_cat(s.take(a), s.skip(a));
    assert(s.take(a) + s.skip(a) =~= s);
}

// ---- R10/R11 shims for std string operations Verus has no specification of (TRUSTED: std) ----
#[verifier::external_body]
pub fn vx_str_from<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires cb(s@, n as int),
    ensures r@ == s@.skip(cidx(s@, n as int)),
{ &s[n..] }
#[verifier::external_body]
pub fn vx_str_to<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires cb(s@, n as int),
    ensures r@ == s@.take(cidx(s@, n as int)),
{ &s[..n] }
#[verifier::external_body]
pub fn vx_str_range<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires cb(s@, a as int), cb(s@, b as int), a <= b,
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)),
{ &s[a..b] }
#[verifier::external_body]
pub fn vx_str_full<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@ { s }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(s@) { s.starts_with(p) }

/// the first index at or after `i` where `p` holds, or the length
pub open spec fn first_at(s: Seq<char>, p: spec_fn(char) -> bool, i: int) -> int
    decreases s.len() - i,
{ if i >= s.len() || i < 0 { s.len() as int } else if p(s[i]) { i } else { first_at(s, p, i + 1) } }

/// str.chars().position(f): a character index
#[verifier::external_body]
pub fn vx_chars_position<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,)),
    ensures
        match r {
            Some(i) => i < s@.len() && call_ensures(f, (s@[i as int],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
        },
{ s.chars().position(f) }
/// str.find(f): a byte offset
#[verifier::external_body]
pub fn vx_str_find<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,)),
    ensures
        match r {
            Some(n) => cb(s@, n as int) && cidx(s@, n as int) < s@.len() && call_ensures(f, (s@[cidx(s@, n as int)],), true)
                && forall|j: int| 0 <= j < cidx(s@, n as int) ==> call_ensures(f, (#[trigger] s@[j],), false),
            None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
        },
{ s.find(f) }
/// str.char_indices().find(f)
#[verifier::external_body]
pub fn vx_char_indices_find<F: Fn(&(usize, char)) -> bool>(s: &str, f: F) -> (r: Option<(usize, char)>)
    requires forall|c: &(usize, char)| call_requires(f, (c,)),
    ensures
        match r {
            Some((n, c)) => cb(s@, n as int) && cidx(s@, n as int) < s@.len() && c == s@[cidx(s@, n as int)]
                && call_ensures(f, (&(n, c),), true)
                && forall|j: int| 0 <= j < cidx(s@, n as int) ==> call_ensures(f, (&(blen(s@.take(j)) as usize, #[trigger] s@[j]),), false),
            None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (&(blen(s@.take(j)) as usize, #[trigger] s@[j]),), false),
        },
{ s.char_indices().find(f) }

}
verus! {
/// str.chars() driven by hand: the characters still to come (TRUSTED: std).
#[verifier::external_body]
pub struct VxChars<'a> { it: std::str::Chars<'a> }
impl<'a> VxChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            match r {
                Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { self.it.next() }
}
#[verifier::external_body]
pub fn vx_chars<'a>(s: &'a str) -> (r: VxChars<'a>) ensures r.rest() == s@ { VxChars { it: s.chars() } }
#[verifier::external_body]
pub fn vx_first_char(s: &str) -> (r: Option<char>)
    ensures match r { Some(c) => s@.len() > 0 && c == s@[0], None => s@.len() == 0 },
{ s.chars().next() }
}
}
use vstr::*;

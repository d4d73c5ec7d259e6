//@include base.rs
//@include str.rs
//@include bytes.rs
//@include lf.rs
//@shim .contains -> vx_contains
//@shim .into_bytes -> vx_into_bytes
//@shim .as_mut_slice -> vx_as_mut_slice &mut
//@shim .copy_within -> vx_copy_within
//@shim .set_len -> vx_set_len &mut
//@shimfn String::from_utf8_unchecked -> vx_from_utf8_unchecked
//@shim .windows.position -> vx_windows_position
//@sliceindex tail
//@closure position |&[u8]| bool requires $0@.len() == 2 ensures vx_r == ($0@[0] == 13 && $0@[1] == 10)
//@subst it == b"\r\n" =>> it[0] == 13 && it[1] == 10
verus! {
/// the same over bytes: a CR before an LF goes
pub open spec fn lfb(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s.len() >= 2 && s[0] == 13 && s[1] == 10 { lfb(s.skip(1)) } else { seq![s[0]] + lfb(s.skip(1)) }
}
pub open spec fn crlf(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == 13 && s[i + 1] == 10 }
/// no CRLF in the first n bytes: they stay
proof fn lfb_skip(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> !crlf(s, i),
    ensures lfb(s) == s.take(n) + lfb(s.skip(n)),
    decreases n,
{
    if n == 0 { assert(s.take(0) + lfb(s.skip(0)) =~= lfb(s)) by { assert(s.skip(0) =~= s); } }
    else {
        assert(!crlf(s, 0));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies !crlf(t, i) by { assert(!crlf(s, i + 1)); }
        lfb_skip(t, n - 1);
        assert(t.skip(n - 1) =~= s.skip(n));
        assert(seq![s[0]] + (t.take(n - 1) + lfb(s.skip(n))) =~= s.take(n) + lfb(s.skip(n)));
    }
}
/// the bytes of a character
proof fn char_bytes(c: char)
    ensures (c as u32) < 128 ==> encode_scalar(c as u32) =~= seq![c as u8],
        (c as u32) >= 128 ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> (#[trigger] encode_scalar(c as u32)[i]) >= 128,
{
    reveal(encode_scalar);
    let v = c as u32;
    assert(v < 128 ==> (v & 0x7f) as u8 == v as u8) by (bit_vector);
    assert((0xC0u8 | ((v >> 6) & 0x1F) as u8) >= 128) by (bit_vector);
    assert((0xE0u8 | ((v >> 12) & 0x0F) as u8) >= 128) by (bit_vector);
    assert((0xF0u8 | ((v >> 18) & 0x07) as u8) >= 128) by (bit_vector);
    assert((0x80u8 | (v & 0x3F) as u8) >= 128) by (bit_vector);
    assert((0x80u8 | ((v >> 6) & 0x3F) as u8) >= 128) by (bit_vector);
    assert((0x80u8 | ((v >> 12) & 0x3F) as u8) >= 128) by (bit_vector);
    assert(leading_byte_width_1(v) == (v & 0x7f) as u8);
    assert(leading_byte_width_2(v) == 0xC0u8 | ((v >> 6) & 0x1F) as u8);
    assert(leading_byte_width_3(v) == 0xE0u8 | ((v >> 12) & 0x0F) as u8);
    assert(leading_byte_width_4(v) == 0xF0u8 | ((v >> 18) & 0x07) as u8);
    assert(last_continuation_byte(v) == 0x80u8 | (v & 0x3F) as u8);
}

proof fn encode_cons(s: Seq<char>)
    requires s.len() > 0,
    ensures encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.skip(1)),
{
    encode_utf8_concat(seq![s[0]], s.skip(1));
    assert(seq![s[0]] + s.skip(1) =~= s);
    encode_utf8_concat(Seq::empty(), Seq::empty()); assert(Seq::<char>::empty() + Seq::empty() =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::empty()) =~= Seq::empty());
    encode_utf8_push(Seq::empty(), s[0]);
    assert(Seq::empty().push(s[0]) =~= seq![s[0]]);
    assert(encode_utf8(seq![s[0]]) =~= encode_scalar(s[0] as u32));
}
/// over the bytes of a text it is the same replacement
proof fn lf_bytes(s: Seq<char>)
    ensures encode_utf8(lf(s)) == lfb(encode_utf8(s)),
    decreases s.len(),
{
    if s.len() == 0 {
        encode_utf8_concat(Seq::empty(), Seq::empty()); assert(Seq::<char>::empty() + Seq::empty() =~= Seq::<char>::empty());
        assert(s =~= Seq::empty()); assert(encode_utf8(s).len() == 0);
    } else {
        let b = encode_utf8(s); let e = encode_scalar(s[0] as u32); let rest = encode_utf8(s.skip(1));
        encode_cons(s); char_bytes(s[0]); clen_bounds(s[0]);
        if s.len() > 1 { encode_cons(s.skip(1)); char_bytes(s[1]); clen_bounds(s[1]); assert(s.skip(1)[0] == s[1]); }
        else { assert(s.skip(1) =~= Seq::empty()); blen_empty(); }
        if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' {
            lf_bytes(s.skip(2));
            assert(s.skip(1).skip(1) =~= s.skip(2));
            let c = encode_utf8(s.skip(2));
            assert(rest =~= seq![10u8] + c);
            assert(b =~= seq![13u8] + rest);
            assert(b.skip(1) =~= rest && rest.skip(1) =~= c);
            let l = seq!['\n'] + lf(s.skip(2));
            encode_cons(l); char_bytes('\n'); assert(l.skip(1) =~= lf(s.skip(2)));
            assert(lfb(rest) =~= seq![10u8] + lfb(c));
        } else {
            lf_bytes(s.skip(1));
            assert forall|i: int| 0 <= i < e.len() implies !crlf(b, i) by {
                assert(b[i] == e[i]);
                if (s[0] as u32) < 128 { assert(i == 0); if b.len() > 1 { assert(s.len() > 1); assert(b[1] == rest[0]); } }
            }
            lfb_skip(b, e.len() as int);
            assert(b.take(e.len() as int) =~= e && b.skip(e.len() as int) =~= rest);
            let l = seq![s[0]] + lf(s.skip(1));
            encode_cons(l); assert(l.skip(1) =~= lf(s.skip(1)));
        }
    }
}
/// a text has a CR exactly when its bytes have one
proof fn cr_bytes(s: Seq<char>)
    ensures s.contains('\r') == encode_utf8(s).contains(13u8),
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= Seq::empty()); blen_empty(); }
    else {
        encode_cons(s); char_bytes(s[0]); clen_bounds(s[0]); cr_bytes(s.skip(1));
        let e = encode_scalar(s[0] as u32); let r = encode_utf8(s.skip(1)); let b = e + r;
        if s.contains('\r') {
            let i = s.index_of('\r');
            if i == 0 { assert(b[0] == 13u8); } else { assert(s.skip(1)[i - 1] == '\r'); let j = r.index_of(13u8); assert(b[e.len() + j] == 13u8); }
        }
        if b.contains(13u8) {
            let i = b.index_of(13u8);
            if i < e.len() { assert(b[i] == e[i]); assert(s[0] == '\r'); } else { assert(r[i - e.len()] == 13u8); let j = s.skip(1).index_of('\r'); assert(s[j + 1] == '\r'); }
        }
    }
}
//@fn sli::LineEndings::normalize::find_crlf ret=r
    ensures match r { Some(i) => crlf(src@, i as int) && forall|j: int| 0 <= j < i ==> !crlf(src@, j), None => forall|j: int| !crlf(src@, j) },
//@endfn
//@fn sli::LineEndings::normalize ret=r
    ensures
        !src@.contains('\r') ==> r.0@ == src@ && r.1 == LineEndings::Unix,
        src@.contains('\r') ==> r.0@ == lf(src@) && r.1 == LineEndings::Dos,
//@locals buf gap_len tail idx
//@at start
    let ghost s0 = src@;
    let ghost orig = encode_utf8(s0);
    let ghost mut done = Seq::<u8>::empty();
    let ghost mut i: int = 0;
    let ghost mut t0 = Seq::<u8>::empty();
    proof { cr_bytes(s0); lf_bytes(s0); }
//@at before_call find_crlf 0
    proof { t0 = tail@; }
//@loop 0
    invariant orig.len() <= isize::MAX, gap_len <= tail@.len(), tail@.len() <= orig.len(), i == orig.len() - (tail@.len() - gap_len), 0 <= i <= orig.len(), tail@.skip(gap_len as int) =~= orig.skip(i),
        fin =~= done + final(tail)@, final(tail)@.len() == tail@.len(), done.len() == orig.len() - tail@.len(), lfb(orig) =~= done + lfb(orig.skip(i)),
    ensures tail@.len() == gap_len,
    decreases tail@.len() - gap_len,
//@at after_call as_mut_slice 0
    let ghost fin = final(tail)@;
    proof { assert(orig.skip(0) =~= orig); }
//@at before_call copy_within 0
    let ghost n = idx - gap_len;
    proof {
        assert forall|j: int| 0 <= j < n implies !crlf(orig.skip(i), j) by { assert(!crlf(t0.skip(gap_len as int), j)); }
        lfb_skip(orig.skip(i), n);
        assert(orig.skip(i).skip(n) =~= orig.skip(i + n));
        if idx < t0.len() { assert(crlf(t0.skip(gap_len as int), n)); assert(orig.skip(i + n).skip(1) =~= orig.skip(i + n + 1)); assert(orig.skip(i)[n] == orig.skip(i + n)[0]); assert(orig.skip(i)[n + 1] == orig.skip(i + n)[1]); }
        done = done + t0.subrange(gap_len as int, idx as int);
        assert(t0.subrange(gap_len as int, idx as int) =~= t0.skip(gap_len as int).take(n));
        i = i + n;
    }
//@at loopend 0
    proof { i = i + 1; }
//@at before_call set_len 0
    proof {
        assert(orig.skip(i) =~= Seq::empty());
        assert(buf@.take(new_len as int) =~= done);
        encode_utf8_decode_utf8(lf(s0));
    }
//@endfn
}
fn main() {}

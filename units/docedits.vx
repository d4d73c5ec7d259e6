//@include base.rs
//@include str.rs
//@include walk.rs
//@include map.rs
//@include iter.rs
//@include tsize.rs
//@include lsptypes.rs
//@include protospec.rs
//@file lu crates/move_language_server/src/lsp_utils.rs
//@shimfn Range::<usize>::from -> vx_urange
//@shim .replace_range -> vx_replace_range
//@strip from_proto
//@include docspec.rs
verus! {
pub fn vx_urange(r: TextRange) -> (u: std::ops::Range<usize>) ensures u.start == r.start, u.end == r.end { r.start as usize..r.end as usize }
/// String::replace_range: both ends have to be boundaries
#[verifier::external_body]
pub fn vx_replace_range(s: &mut String, r: std::ops::Range<usize>, t: &str)
    requires r.start <= r.end, cb(old(s)@, r.start as int), cb(old(s)@, r.end as int),
    ensures final(s)@ == old(s)@.take(cidx(old(s)@, r.start as int)) + t@ + old(s)@.skip(cidx(old(s)@, r.end as int)),
{ s.replace_range(r, t) }
//@proved_in proto
//@fn fp::text_range ret=r
    requires line_index.known(range.start), line_index.known(range.end), forall|a: u32, b: u32| line_index.offset_ok(range.start, a) && line_index.offset_ok(range.end, b) ==> a <= b,
    ensures line_index.offset_ok(range.start, r.start), line_index.offset_ok(range.end, r.end),
//@endfn
//@endproved
proof fn lines_mono(s: Text, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures line_no(s, a) <= line_no(s, b), line_no(s, a) >= 0,
    decreases b - a,
{ if a < b { lines_mono(s, a, b - 1); } line_nonneg(s, a); }
proof fn line_nonneg(s: Text, a: int) ensures line_no(s, a) >= 0 decreases a { if a > 0 { line_nonneg(s, a - 1); } }
/// further on in a line, the column is larger
proof fn col16_mono(s: Text, a: int, b: int)
    requires 0 <= a < b <= s.len(), line_no(s, a) == line_no(s, b),
    ensures col16(s, a) < col16(s, b),
    decreases b - a,
{
    lines_mono(s, a, b - 1); lines_mono(s, b - 1, b);
    if a < b - 1 { col16_mono(s, a, b - 1); }
}
/// a position names one boundary only
proof fn one_span(s: Text, r: lsp_types::Range, a: int, b: int)
    requires span(s, r, a, b),
    ensures from_of(s, r) == a, to_of(s, r) == b,
{
    let x = from_of(s, r); let y = to_of(s, r);
    assert(span(s, r, (a, b).0, (a, b).1));
    assert(span(s, r, x, y));
    if x < a { col16_mono(s, x, a); } else if a < x { col16_mono(s, a, x); }
    if y < b { col16_mono(s, y, b); } else if b < y { col16_mono(s, b, y); }
}
/// up to character m, s and t are the same text: so are their lines and columns
proof fn same_prefix(s: Text, t: Text, m: int, k: int)
    requires 0 <= k <= m, m <= s.len(), m <= t.len(), s.take(m) == t.take(m),
    ensures starts(s, k) == starts(t, k), line_no(s, k) == line_no(t, k), col16(s, k) == col16(t, k), s.take(k) == t.take(k),
    decreases k,
{
    assert(s.take(k) =~= s.take(m).take(k)); assert(t.take(k) =~= t.take(m).take(k));
    if k > 0 { same_prefix(s, t, m, k - 1); assert(s.take(m)[k - 1] == s[k - 1]); assert(t.take(m)[k - 1] == t[k - 1]); }
}
/// s and t are the same up to some character, before which all of the lines of s before `line` end
pub open spec fn agree(s: Text, t: Text, line: int) -> bool {
    exists|m: int| #[trigger] same_to(s, t, m) && forall|k: int| 0 <= k <= s.len() && #[trigger] line_no(s, k) < line ==> k <= m
}
pub open spec fn same_to(s: Text, t: Text, m: int) -> bool { 0 <= m <= s.len() && m <= t.len() && s.take(m) == t.take(m) }
proof fn agree_self(s: Text, line: int) ensures agree(s, s, line) { assert(same_to(s, s, s.len() as int)); }
/// the positions of s on lines before `line` are those of t
proof fn positions_agree(s: Text, t: Text, line: int, k: int)
    requires agree(s, t, line), 0 <= k <= s.len(), line_no(s, k) < line,
    ensures k <= t.len(), line_no(s, k) == line_no(t, k), col16(s, k) == col16(t, k), s.take(k) == t.take(k),
{
    let m = choose|m: int| #[trigger] same_to(s, t, m) && forall|k: int| 0 <= k <= s.len() && #[trigger] line_no(s, k) < line ==> k <= m;
    same_prefix(s, t, m, k);
}
/// replacing from character a on changes nothing before the line of a
proof fn agree_after(s: Text, t: Text, a: int, new: Text)
    requires 0 <= a <= s.len(), same_to(s, t, a), a <= new.len(), new.take(a) == s.take(a),
    ensures agree(new, t, line_no(s, a)),
{
    assert(same_to(new, t, a));
    same_prefix(new, s, a, a);
    assert forall|k: int| 0 <= k <= new.len() && #[trigger] line_no(new, k) < line_no(s, a) implies k <= a by { if k > a { lines_mono(new, a, k); } }
}
//@type lu::IndexValid derive=
impl IndexValid {
    /// the lines of the index that are still those of the text
    pub open spec fn upto(self, s: Text) -> int { match self { IndexValid::All => s.len() as int + 1, IndexValid::UpToLineExclusive(l) => l as int } }
}
//@fn lu::apply_document_changes::IndexValid::covers ret=r
    ensures r == match *self { IndexValid::All => true, IndexValid::UpToLineExclusive(to) => line < to },
//@endfn
//@fn lu::apply_document_changes
    requires all_fit(old(old_text)@, content_changes@),
    ensures final(old_text)@ == run(old(old_text)@, content_changes@, content_changes@.len() as int),
//@locals line_index index_valid
//@attr #[verifier::loop_isolation(false)]
//@at start
    let ghost s0 = old_text@;
    let ghost cs = content_changes@;
    proof { assert(run(s0, cs, 0) == s0); assert(blen(run(s0, cs, 0)) <= u32::MAX); agree_self(s0, s0.len() as int + 1); }
//@at after_call new 0
    proof { assert(line_index.index.of(s0) && agree(s0, s0, s0.len() as int + 1)); }
//@loop 0 next=vx_it:vx_vec_iter
    invariant vx_it_all == cs, vx_it.rest().len() <= cs.len(), vx_it.rest() == cs.skip(cs.len() - vx_it.rest().len()),
        old_text@ == run(s0, cs, cs.len() - vx_it.rest().len()),
        line_index.encoding == OffsetEncoding::Utf16,
        exists|t: Text| #[trigger] line_index.index.of(t) && agree(old_text@, t, index_valid.upto(old_text@)),
    decreases vx_it.rest().len(),
//@at loopstart 0
    let ghost n = cs.len() - vx_it.rest().len() - 1;
    let ghost s = old_text@;
    proof {
        assert(cs.skip(n)[0] == change); assert(cs[n] == change); assert(cs.skip(n).skip(1) =~= cs.skip(n + 1));
        assert(blen(run(s0, cs, n)) <= u32::MAX); assert(fits(s, change)); assert(run(s0, cs, n + 1) == edited(s, change)); assert(blen(run(s0, cs, n + 1)) <= u32::MAX);
    }
    let ghost upto = index_valid.upto(s);
    let ghost t0 = choose|t: Text| #[trigger] line_index.index.of(t) && agree(s, t, upto);
    let ghost kept = match change.range { Some(r) => index_valid is All || r.end.line < upto, None => true };
    let ghost t = if kept { t0 } else { s };
    let ghost all = if kept { upto } else { s.len() as int + 1 };
    let ghost a = match change.range { Some(r) => from_of(s, r), None => 0 };
    let ghost b = match change.range { Some(r) => to_of(s, r), None => 0 };
    proof { agree_self(s, s.len() as int + 1); }
//@at before_call text_range 0
    let ghost asked = range;
    proof {
        assert(change.range == Some(asked));
        let (x, y) = choose|x: int, y: int| #[trigger] span(s, asked, x, y);
        one_span(s, asked, x, y);
        assert(line_index.index.of(t));
        starts_props(s, a); starts_props(s, b); lines_mono(s, a, b);
        positions_agree(s, t, all, a); positions_agree(s, t, all, b);
        assert(pos_of(line_index.encoding, t, a, asked.start)); assert(pos_of(line_index.encoding, t, b, asked.end));
        blen_mono(s, a, b);
    }
//@at before_call replace_range 0
    proof {
        cidx_unique(s, a); cidx_unique(s, b);
        assert(range.start == blen(s.take(a)) && range.end == blen(s.take(b)));
        let new = edited(s, change);
        assert(new.take(a) =~= s.take(a));
        assert(same_to(s, t, a)) by { assert(s.take(a) == t.take(a)); }
        agree_after(s, t, a, new);
    }
//@at loopend 0
    proof {
        assert(old_text@ == edited(s, change));
        assert(line_index.index.of(t));
        if change.range is None { assert(same_to(old_text@, t, 0)) by { assert(old_text@.take(0) =~= t.take(0)); } assert(agree(old_text@, t, 0)) by { assert forall|k: int| 0 <= k <= old_text@.len() && #[trigger] line_no(old_text@, k) < 0 implies k <= 0 by { lines_mono(old_text@, k, k); } } }
        assert(agree(old_text@, t, index_valid.upto(old_text@)));
    }
//@endfn
}
fn main() {}

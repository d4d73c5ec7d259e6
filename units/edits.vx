//@include base.rs
//@include iter.rs
//@include lsptypes.rs
//@file lu crates/move_language_server/src/lsp_utils.rs
//@shim .iter.map -> vx_iter_map &
//@shim .extend -> vx_extend &mut
//@shim .sort_by_key -> vx_sort_by_key &mut
//@shim .iter.skip -> vx_iter_skip &
//@shim .iter.zip.all -> vx_zip_all &
//@closure map |&lsp_types::TextEdit| lsp_types::Range
//@closure sort_by_key |&lsp_types::Range| (lsp_types::Position, lsp_types::Position)
//@closure all |(&lsp_types::Range, &lsp_types::Range)| bool
use lsp_types::{plt, ple, Range, Position};
use vstd::relations::*;
use vstd::seq_lib::*;
use vstd::multiset::*;
verus! {
/// The derived order of a key type (TRUSTED: derived and tuple orders are lexicographic).
pub trait VxKey: Sized { spec fn kle(self, o: Self) -> bool; }
impl VxKey for Position { open spec fn kle(self, o: Position) -> bool { ple(self, o) } }
impl VxKey for (Position, Position) {
    open spec fn kle(self, o: (Position, Position)) -> bool { plt(self.0, o.0) || self.0 == o.0 && ple(self.1, o.1) }
}
pub open spec fn vx_key_le<T, K: VxKey, F: Fn(&T) -> K>(f: F, x: T, y: T) -> bool { exists|a: K, b: K| call_ensures(f, (&x,), a) && call_ensures(f, (&y,), b) && #[trigger] a.kle(b) }
/// v.sort_by_key(f): a stable sort (stability is not used)
#[verifier::external_body]
pub fn vx_sort_by_key<T, K: VxKey, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F)
    requires forall|t: &T| #[trigger] call_requires(f, (t,)),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> vx_key_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }

pub open spec fn range_le() -> spec_fn(Range, Range) -> bool { |a: Range, b: Range| plt(a.start, b.start) || a.start == b.start && ple(a.end, b.end) }
pub open spec fn ranges_of(s: Seq<lsp_types::TextEdit>) -> Seq<Range> { s.map_values(|e: lsp_types::TextEdit| e.range) }
/// the insert range of an insert-or-replace edit is a prefix of its replace range
pub open spec fn prefix_ok(c: lsp_types::CompletionItem) -> bool {
    match c.text_edit {
        Some(lsp_types::CompletionTextEdit::InsertAndReplace(e)) =>
            e.replace.start == e.insert.start && ple(e.insert.start, e.insert.end) && ple(e.insert.end, e.replace.end),
        _ => true,
    }
}
/// every edit of the completion, as listed
pub open spec fn all_ranges(c: lsp_types::CompletionItem, additional: Seq<lsp_types::TextEdit>) -> Seq<Range> {
    (match c.text_edit {
        Some(lsp_types::CompletionTextEdit::Edit(e)) => seq![e.range],
        Some(lsp_types::CompletionTextEdit::InsertAndReplace(e)) => seq![e.replace],
        None => Seq::empty(),
    }) + (match c.additional_text_edits { Some(v) => ranges_of(v@), None => Seq::empty() }) + ranges_of(additional)
}
/// no edit starts before the one before it ends
pub open spec fn adjacent_ok(s: Seq<Range>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> ple((#[trigger] s[i]).end, s[i + 1].start) }
/// P17
pub open spec fn disjoint(s: Seq<Range>) -> bool { adjacent_ok(s.sort_by(range_le())) }

proof fn le_total() ensures total_ordering(range_le())
{
    let le = range_le();
    assert forall|a: Range, b: Range| #[trigger] le(a, b) && #[trigger] le(b, a) implies a == b by { }
}
/// P17: the answer does not depend on the order in which the edits are listed
proof fn order_independent(s: Seq<Range>, t: Seq<Range>)
    requires s.to_multiset() == t.to_multiset(),
    ensures disjoint(s) == disjoint(t),
{
    le_total();
    s.lemma_sort_by_ensures(range_le()); t.lemma_sort_by_ensures(range_le());
    lemma_sorted_unique(s.sort_by(range_le()), t.sort_by(range_le()), range_le());
}
proof fn sorted_is(s: Seq<Range>, t: Seq<Range>)
    requires s.to_multiset() == t.to_multiset(), sorted_by(t, range_le()),
    ensures s.sort_by(range_le()) == t,
{
    le_total();
    s.lemma_sort_by_ensures(range_le());
    lemma_sorted_unique(s.sort_by(range_le()), t, range_le());
}

//@fn lu::all_edits_are_disjoint ret=r bindtail
    ensures r == (prefix_ok(*completion) && disjoint(all_ranges(*completion, additional_edits@))),
//@locals edit_ranges
//@at before_call sort_by_key 0
    let ghost listed = edit_ranges@;
    proof { assert(listed =~= all_ranges(*completion, additional_edits@)); }
//@at end
    proof { sorted_is(listed, edit_ranges@); }
//@endfn
}
fn main() {}

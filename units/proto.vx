//@include base.rs
//@include str.rs
//@include map.rs
//@include iter.rs
//@include tsize.rs
//@include lsptypes.rs
//@include protospec.rs
//@file tp crates/move_language_server/src/to_proto.rs
//@file cf crates/move_language_server/src/config.rs noinline
//@file le crates/move_language_server/src/lsp_ext.rs noinline
//@file gs crates/move_language_server/src/global_state.rs noinline
//@subst self.vfs.read().1[&file_id] =>> vx_endings(self, &file_id)
//@shim .as_deref.unwrap_or_default.iter.any -> vx_any_of &
//@closure any |&String| bool ensures vx_r == ($0@ == "utf-8"@)
//@subst it == "utf-8" =>> vx_str_eq(it, "utf-8")
verus! {
//@fn tp::position ret=r
    requires line_index.index.wf(),
    ensures line_index.position_ok(offset, r),
//@endfn
//@fn tp::range ret=r rename=range_to_proto
    requires line_index.index.wf(),
    ensures line_index.position_ok(range.start, r.start), line_index.position_ok(range.end, r.end),
//@endfn
//@fn fp::offset ret=r
    requires line_index.known(position),
    ensures line_index.offset_ok(position, r),
//@at start
    proof {
        let ix = line_index.index;
        assert forall|s: Seq<char>, k: int| #[trigger] ix.of(s) && 0 <= k <= s.len() && #[trigger] pos_of(line_index.encoding, s, k, position) implies
            position.line < ix.newlines@.len() && ix.newlines@[position.line as int] + col8(s, k) == blen(s.take(k)) && blen(s.take(k)) <= u32::MAX
            && (line_index.encoding == OffsetEncoding::Utf16 ==> ix.to_utf8_pre(position.line, position.character)) by {
            ix.boundary(s, k);
        }
    }
//@endfn
//@fn fp::text_range ret=r
    requires line_index.known(range.start), line_index.known(range.end), forall|a: u32, b: u32| line_index.offset_ok(range.start, a) && line_index.offset_ok(range.end, b) ==> a <= b,
    ensures line_index.offset_ok(range.start, r.start), line_index.offset_ok(range.end, r.end),
//@endfn
/// P08: an offset comes back from its position
fn round_trip(ix: &LineIndex, offset: u32, Ghost(s): Ghost<Seq<char>>, Ghost(k): Ghost<int>) -> (r: u32)
    requires ix.of(s), 0 <= k <= s.len(), offset == blen(s.take(k)),
    ensures r == offset,
{
    let p = position(ix, offset);
    assert(pos_of(ix.encoding, s, k, p));
    crate::offset(ix, p)
}

// ---- the encoding negotiated ----
pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
/// o.as_deref().unwrap_or_default().iter().any(f) (TRUSTED: std)
#[verifier::external_body]
pub fn vx_any_of<F: Fn(&String) -> bool>(o: &Option<Vec<String>>, f: F) -> (r: bool)
    requires forall|t: &String| call_requires(f, (t,)),
    ensures
        r ==> o is Some && exists|i: int| 0 <= i < o->0@.len() && call_ensures(f, (&#[trigger] o->0@[i],), true),
        !r && o is Some ==> forall|i: int| 0 <= i < o->0@.len() ==> call_ensures(f, (&#[trigger] o->0@[i],), false),
{ o.as_deref().unwrap_or_default().iter().any(f) }
}
//@include configspec.rs
verus! {
//@fn le::supports_utf8 ret=r
    ensures r == offers_utf8(*caps),
//@endfn
//@fn cf::Config::offset_encoding ret=r
    ensures r == encoding_of(*self),
//@endfn
//@retype Cancellable<LineIndex> => Result<LineIndex, Cancelled>
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId(pub u32);
pub struct Cancelled;
/// TRUSTED: the analysis answers with the index of the file's text (salsa; LineIndex::new is proved in unit lineindex)
#[verifier::external_body]
pub struct Analysis { a: usize }
impl Analysis {
    pub uninterp spec fn text(&self, f: FileId) -> Seq<char>;
    #[verifier::external_body]
    pub fn file_line_index(&self, file_id: FileId) -> (r: Result<Arc<ide_db::LineIndex>, Cancelled>)
        ensures r is Ok ==> r->Ok_0.of(self.text(file_id)) { unimplemented!() }
}
//@type gs::GlobalStateSnapshot derive= drop=mem_docs,vfs
/// the line endings recorded for a file (TRUSTED: behind a lock)
#[verifier::external_body]
pub fn vx_endings(s: &GlobalStateSnapshot, f: &FileId) -> (r: LineEndings) { unimplemented!() }
//@fn gs::GlobalStateSnapshot::file_line_index ret=r
    ensures r is Ok ==> r->Ok_0.of(self.analysis.text(file_id)) && r->Ok_0.encoding == encoding_of(*self.config),
//@endfn
}
fn main() {}

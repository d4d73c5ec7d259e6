// ---- treespec.rs: the tree being built, as the calls made to rowan's builder (TRUSTED dependency), and the state of TextTreeSink ----
//@file sn crates/syntax/src/syntax_node.rs
//@file tt crates/syntax/src/parsing/text_tree_sink.rs
//@file se crates/syntax/src/syntax_error.rs
//@strip MoveLanguage
//@retype GreenNodeBuilder<'static> => VxGreen
//@retype parser::ParseError => ParseError
//@retype rowan::SyntaxKind => VxRaw
//@retype impl Into<String> => String

verus! {
/// one call to the builder: a node opened, a leaf, a node closed
pub enum Op { Open(SyntaxKind), Leaf(SyntaxKind, Seq<char>), Close }
/// nodes open after the first i calls
pub open spec fn open_after(l: Seq<Op>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { open_after(l, i - 1) + match l[i - 1] { Op::Open(_) => 1int, Op::Close => -1, _ => 0 } } }
/// the leaves among the first i calls
pub open spec fn leaves(l: Seq<Op>, i: int) -> Seq<(SyntaxKind, Seq<char>)>
    decreases i
{ if i <= 0 { seq![] } else { match l[i - 1] { Op::Leaf(k, t) => leaves(l, i - 1).push((k, t)), _ => leaves(l, i - 1) } } }
/// a call but for its text
pub enum Bare { Open(SyntaxKind), Tok(SyntaxKind), Close }
/// the first i calls without blanks and comments: what the tree says of the significant tokens
pub open spec fn bare(l: Seq<Op>, i: int) -> Seq<Bare>
    decreases i
{
    if i <= 0 { seq![] } else { match l[i - 1] {
        Op::Leaf(k, _) => if trivia(k) { bare(l, i - 1) } else { bare(l, i - 1).push(Bare::Tok(k)) },
        Op::Open(k) => bare(l, i - 1).push(Bare::Open(k)),
        Op::Close => bare(l, i - 1).push(Bare::Close),
    } }
}
pub open spec fn bare_tok(k: SyntaxKind) -> Seq<Bare> { if trivia(k) { seq![] } else { seq![Bare::Tok(k)] } }
/// the calls make one tree: the first opens its root, every node is closed, nothing follows
pub open spec fn one_tree(l: Seq<Op>) -> bool {
    &&& l.len() >= 2 && l[0] is Open
    &&& open_after(l, l.len() as int) == 0
    &&& forall|i: int| 0 < i < l.len() ==> #[trigger] open_after(l, i) >= 1
}
pub open spec fn root_kind(l: Seq<Op>) -> SyntaxKind { match l[0] { Op::Open(k) => k, _ => TOMBSTONE } }
/// rowan::SyntaxKind: the number of a kind, from which the kind is found again (unit `kinds`)
#[derive(Clone, Copy)]
pub struct VxRaw { pub kind: SyntaxKind }
/// TRUSTED: rowan::GreenNodeBuilder. It panics when closing what is not open and when finished on anything but one tree.
#[verifier::external_body]
pub struct VxGreen { b: usize }
#[verifier::external_body]
pub struct GreenNode { b: usize }
impl GreenNode {
    /// the calls that built it; the text of the tree is that of its leaves in order
    pub uninterp spec fn log(&self) -> Seq<Op>;
}
impl VxGreen {
    pub uninterp spec fn log(&self) -> Seq<Op>;
    #[verifier::external_body]
    pub fn token(&mut self, kind: VxRaw, text: &str) ensures final(self).log() == old(self).log().push(Op::Leaf(kind.kind, text@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn start_node(&mut self, kind: VxRaw) ensures final(self).log() == old(self).log().push(Op::Open(kind.kind)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_node(&mut self)
        requires open_after(old(self).log(), old(self).log().len() as int) >= 1,
        ensures final(self).log() == old(self).log().push(Op::Close) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: GreenNode) requires one_tree(self.log()) ensures r.log() == self.log() { unimplemented!() }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct TextRange { pub start: TextSize, pub end: TextSize }
impl TextRange {
    pub fn at(offset: TextSize, len: TextSize) -> (r: TextRange)
        requires offset.raw + len.raw <= u32::MAX,
        ensures r.start == offset, r.end.raw == offset.raw + len.raw { TextRange { start: offset, end: TextSize { raw: offset.raw + len.raw } } }
    pub fn empty(offset: TextSize) -> (r: TextRange) ensures r.start == offset, r.end == offset { TextRange { start: offset, end: offset } }
}
//@type se::SyntaxError derive=
//@type sn::SyntaxTreeBuilder derive=
//@type tt::State derive=
//@type tt::TextTreeSink derive=

/// the tokens `ts`, laid end to end, are the whole of `s` and then the end of the file
pub open spec fn tiled(s: Seq<char>, ts: Seq<Token>) -> bool {
    &&& blen(s) <= u32::MAX
    &&& ts.len() > 0 && ts[ts.len() - 1].kind == EOF
    &&& forall|i: int| 0 <= i < ts.len() - 1 ==> (#[trigger] ts[i]).kind != EOF
    &&& forall|i: int| 0 <= i < ts.len() ==> tok_ok(#[trigger] ts[i], s, i as nat)
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] in_text(s, i)
    &&& at(s, (ts.len() - 1) as nat) == s.len()
}
/// leaf i is token i: its text, and its kind (an integer may be called an address)
pub open spec fn leaf_is(leaf: (SyntaxKind, Seq<char>), s: Seq<char>, ts: Seq<Token>, i: int) -> bool {
    kind_fits(ts[i].kind, leaf.0) && leaf.1 == s.subrange(at(s, i as nat), at(s, (i + 1) as nat))
}
/// P06: errors lie at character boundaries of the text, in non-decreasing order, none beyond `pos`
pub open spec fn errors_in(e: Seq<SyntaxError>, s: Seq<char>, pos: int) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1.start == e[i].1.end && cb(s, e[i].1.start.raw as int) && e[i].1.start.raw <= pos
    &&& forall|i: int, j: int| 0 <= i <= j < e.len() ==> (#[trigger] e[i]).1.start.raw <= (#[trigger] e[j]).1.start.raw
}
/// the first token at or after i that is neither blank nor comment
pub open spec fn nx(ts: Seq<Token>, i: int) -> int
    decreases ts.len() - i
{ if i < 0 || i >= ts.len() || !trivia(ts[i].kind) { i } else { nx(ts, i + 1) } }
/// every blank and comment lies strictly before the end of the file
pub proof fn nx_bounds(ts: Seq<Token>, i: int)
    requires 0 <= i < ts.len(), !trivia(ts[ts.len() - 1].kind),
    ensures i <= nx(ts, i) < ts.len(), !trivia(ts[nx(ts, i)].kind), forall|j: int| i <= j < nx(ts, i) ==> trivia((#[trigger] ts[j]).kind),
    decreases ts.len() - i,
{ if trivia(ts[i].kind) { nx_bounds(ts, i + 1); } }
/// the calls in `l` build the tree of the text: one tree, a file at its root, whose leaves are the tokens but for the end of the file
pub open spec fn tree_of(l: Seq<Op>, s: Seq<char>, ts: Seq<Token>) -> bool {
    let v = leaves(l, l.len() as int);
    &&& one_tree(l) && root_kind(l) == SOURCE_FILE
    &&& v.len() == ts.len() - 1
    &&& forall|i: int| 0 <= i < v.len() ==> leaf_is(#[trigger] v[i], s, ts, i)
}
impl<'a> TextTreeSink<'a> {
    /// where the next token of the grammar lies
    pub open spec fn due_at(self) -> int { if self.pos() == 0 { 0 } else { nx(self.tokens@, self.pos()) } }
    pub open spec fn log(self) -> Seq<Op> { self.inner.inner.log() }
    /// nodes that are open, not counting one whose end is only pending
    pub open spec fn d(self) -> int { open_after(self.log(), self.log().len() as int) - if self.state is PendingFinish { 1int } else { 0 } }
    pub open spec fn pos(self) -> int { self.token_pos as int }
    /// what was asked for so far, but for blanks and comments
    pub open spec fn done(self) -> Seq<Bare> {
        bare(self.log(), self.log().len() as int) + if self.state is PendingFinish { seq![Bare::Close] } else { seq![] }
    }
    #[verifier::opaque]
    pub open spec fn ok(self) -> bool {
        let (s, ts, l) = (self.text@, self.tokens@, self.log());
        &&& tiled(s, ts)
        &&& self.pos() < ts.len()
        &&& self.text_pos.raw == blen(s.take(at(s, self.token_pos as nat)))
        &&& leaves(l, l.len() as int).len() == self.pos()
        &&& forall|i: int| 0 <= i < self.pos() ==> leaf_is(#[trigger] leaves(l, l.len() as int)[i], s, ts, i)
        &&& self.d() >= 0
        &&& forall|i: int| 0 < i <= l.len() ==> #[trigger] open_after(l, i) >= 1
        &&& if self.state is PendingStart { l.len() == 0 && self.pos() == 0 } else { l.len() > 0 && l[0] == Op::Open(SOURCE_FILE) }
        &&& errors_in(self.inner.errors@, s, self.text_pos.raw as int)
    }
    pub open spec fn same_source(self, b: TextTreeSink) -> bool { self.text == b.text && self.tokens == b.tokens }
}
}

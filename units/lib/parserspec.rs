// ---- parserspec.rs: the state of Parser and what every step keeps ----
//@file pa crates/parser/src/parser.rs
//@file mk crates/parser/src/marker.rs
//@strip parser marker crate
//@retype Cell<u32> => VxSteps
//@retype DropBomb => VxBomb
verus! {
/// the guard's counter (a Cell) with the ghost state of the parser: `fresh`: reset since the last token was consumed;
/// `live`: markers neither completed nor abandoned; `iced`: events that no marker may change any more;
/// `base`: where the expression being called or accessed begins
pub struct VxSteps { pub cell: VxCell, pub live: Ghost<int>, pub fresh: Ghost<bool>, pub iced: Ghost<ISet<int>>, pub base: Ghost<int> }
#[verifier::external_body]
pub struct VxCell { c: std::cell::Cell<u32> }
impl VxSteps {
    /// TRUSTED: std::cell::Cell. ASSUMED: fewer than 15 million lookups between two consumed tokens (each nesting
    /// level does a few, so that many need a nesting far beyond the thread stack)
    #[verifier::external_body]
    pub fn get(&self) -> (r: u32) requires self.fresh@ ensures r < 15_000_000 { self.cell.c.get() }
    #[verifier::external_body]
    pub fn set_shared(&self, v: u32) { self.cell.c.set(v) }
    #[verifier::external_body]
    pub fn set(&mut self, v: u32) ensures final(self).live == old(self).live, final(self).iced == old(self).iced, final(self).base == old(self).base, final(self).fresh@ == (v == 0) { self.cell.c.set(v) }
}
#[verifier::external_body]
fn vx_steps_new(v: u32) -> (r: VxSteps) ensures r.live@ == 0, r.iced@ == ISet::<int>::empty(), r.fresh@ == (v == 0) { unimplemented!() }
/// drop_bomb::DropBomb: panics when dropped without having been defused (never, by the count of live markers)
#[verifier::external_body]
pub struct VxBomb { b: bool }
impl VxBomb {
    pub uninterp spec fn armed(&self) -> bool;
    #[verifier::external_body]
    pub fn defuse(&mut self) ensures !final(self).armed() { unimplemented!() }
}
#[verifier::external_body]
fn vx_bomb_new(s: &str) -> (r: VxBomb) { unimplemented!() }

//@type mk::Marker derive=
//@type mk::CompletedMarker derive=
//@type pa::Parser

pub spec const TOO_MANY: int = u32::MAX as int;
impl<'t> Parser<'t> {
    pub open spec fn e(self) -> Seq<Event> { self.events@ }
    pub open spec fn lx(self) -> Lexer<'t> { *self.lexer }
    pub open spec fn n(self) -> int { self.events@.len() as int }
    pub open spec fn live(self) -> int { self.steps.live@ }
    pub open spec fn base(self) -> int { self.steps.base@ }
    pub open spec fn iced(self) -> ISet<int> { self.steps.iced@ }
    pub open spec fn text(self) -> Seq<char> { self.lexer.text@ }
    /// kind of the significant token n places ahead
    #[verifier::opaque]
    pub open spec fn k(self, n: nat) -> SyntaxKind { self.lexer.ahead(n) }
    /// what is left of the text
    #[verifier::opaque]
    pub open spec fn rem(self) -> nat { if self.lexer.rem() < 0 { 0 } else { self.lexer.rem() as nat } }
    /// what holds between any two steps of the parser
    #[verifier::opaque]
    pub open spec fn core(self) -> bool {
        &&& self.lexer.wf()
        &&& self.steps.fresh@
        &&& fwd_ok(self.e())
        &&& one_each(self.e())
        &&& all_sealed(self.e(), self.iced())
        &&& depth(self.e(), self.n()) == 0
        &&& forall|i: int| 0 <= i <= self.n() ==> #[trigger] depth(self.e(), i) >= 0
        &&& kinds_fit(due(self.lexer.all_tokens@, self.lexer.all_tokens@.len() as int).drop_last(), taken(self.e(), self.n()))
        &&& forall|i: int| 0 <= i < self.lexer.all_tokens@.len() - 1 ==> (#[trigger] self.lexer.all_tokens@[i]).kind != EOF
        &&& trivia(self.k(0)) ==> self.lexer.all_tokens@.len() == 1 && self.n() <= 1
        &&& trivia(self.lexer.all_tokens@[0].kind) && self.lexer.all_tokens@.len() > 1 ==> self.n() >= 2 && self.e()[1] is Token
    }
    /// ... while a file is parsed: the marker of the whole file stands, and blanks are not looked at
    pub open spec fn ok(self) -> bool { self.core() && self.n() >= 1 && self.e()[0] == tomb() && !trivia(self.k(0)) }
    pub open spec fn same_input(self, b: Parser) -> bool { self.text() == b.text() && self.iced() == b.iced() && self.rem() == b.rem() && self.k(0) == b.k(0) && self.k(1) == b.k(1) }
}
/// the first n events stand as they were
pub open spec fn kept(a: Seq<Event>, b: Seq<Event>, n: int) -> bool {
    n <= b.len() && forall|j: int| 0 <= j < n ==> #[trigger] b[j] == a[j]
}
/// ... and are as changeable as they were
pub open spec fn held(a: Parser, b: Parser, n: int) -> bool {
    kept(a.e(), b.e(), n) && forall|j: int| 0 <= j < n ==> #[trigger] b.iced().contains(j) == a.iced().contains(j)
}
/// the first n events stand as they were but for the parent recorded at s
pub open spec fn kept_but(a: Seq<Event>, b: Seq<Event>, n: int, s: int) -> bool {
    &&& n <= b.len() && forall|j: int| 0 <= j < n && j != s ==> #[trigger] b[j] == a[j]
    &&& 0 <= s < n ==> is_start(b[s]) == is_start(a[s]) && kind_of(b[s]) == kind_of(a[s])
}
pub open spec fn held_but(a: Parser, b: Parser, n: int, s: int) -> bool {
    kept_but(a.e(), b.e(), n, s) && forall|j: int| 0 <= j < n ==> #[trigger] b.iced().contains(j) == a.iced().contains(j)
}
/// what every grammar function does: it only adds events, and leaves no marker open
pub open spec fn after(a: Parser, b: Parser) -> bool {
    b.ok() && held(a, b, a.n()) && b.text() == a.text() && b.live() == a.live() && b.rem() <= a.rem()
}
/// ... and those that complete or abandon the marker at `pos`
pub open spec fn after_m(a: Parser, b: Parser, pos: int) -> bool {
    b.ok() && held(a, b, pos) && b.text() == a.text() && b.live() == a.live() - 1 && b.rem() <= a.rem()
}
/// completing the marker at `pos` makes a grouped operation, and no marker stands within it
pub open spec fn binds(p: Parser, pos: int, kind: SyntaxKind) -> bool {
    let f = p.e().update(pos, Event::Start { kind, forward_parent: None }).push(Event::Finish);
    grouping() ==> exists|a: int, b: int, sh: Shape| #[trigger] sealed(f, p.iced(), a, b, sh) && root_of(sh) == pos
}
/// a marker made by Parser::start, still open
pub open spec fn open_at(p: Parser, m: Marker) -> bool { 0 < m.pos < p.n() && p.e()[m.pos as int] == tomb() && !p.iced().contains(m.pos as int) }
/// a completed node
pub open spec fn done_at(p: Parser, m: CompletedMarker) -> bool {
    0 < m.start_pos < p.n() && p.e()[m.start_pos as int] == (Event::Start { kind: m.kind, forward_parent: None }) && m.kind != TOMBSTONE && !p.iced().contains(m.start_pos as int)
}
/// one token was consumed and recorded
pub open spec fn took(a: Parser, b: Parser, kind: SyntaxKind) -> bool {
    &&& b.core() && !trivia(b.k(0))
    &&& b.e() == a.e().push(Event::Token { kind, n_raw_tokens: 1 })
    &&& b.text() == a.text() && b.live() == a.live() && b.iced() == a.iced() && b.rem() < a.rem()
    &&& b.k(0) == a.k(1)
}
/// everything from s on lies within the node opened at s
pub open spec fn inside(e: Seq<Event>, s: int) -> bool { forall|i: int| s < i < e.len() ==> #[trigger] depth(e, i) >= 1 }
/// a node was parsed: it is the last thing in the events
pub open spec fn made(a: Parser, b: Parser, m: CompletedMarker) -> bool {
    after(a, b) && done_at(b, m) && m.start_pos == a.n() && b.e().last() is Finish && inside(b.e(), a.n())
}
/// where recovery does not consume the current token
pub open spec fn stops(k: SyntaxKind, recovery: TokenSet) -> bool { k == L_BRACE || k == R_BRACE || k == EOF || recovery.has(k) }
}

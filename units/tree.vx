//@include base.rs
//@include str.rs
//@include bytes.rs
//@include kinds.rs
//@include lexspec.rs
//@include textsize.rs
//@include lexapi.rs
//@include lexerstruct.rs
//@include lexend.rs
//@include streamapi.rs
//@include tokenset.rs
//@include evspec.rs
//@include shapes.rs
//@include parserspec.rs
//@include parserapi.rs
//@include mem.rs
//@include treespec.rs
//@include sinkapi.rs
//@include replayspec.rs
//@include groupspec.rs
//@file gr crates/parser/src/grammar.rs noinline
//@include grammarapi.rs
//@file pg crates/syntax/src/parsing.rs
//@file sy crates/syntax/src/lib.rs
//@file bd crates/base_db/src/lib.rs
//@file dg crates/ide_diagnostics/src/lib.rs
//@strip grammar ast parsing syntax_node SyntaxKind
//@retype &mut dyn TreeSink => &mut TextTreeSink<'_>
//@retype PhantomData<fn() -> T> => PhantomData<T>
//@retype &dyn SourceDatabase => &RootDatabase
//@shim .iter.take.map -> vx_map_first &
//@shim .extend -> vx_extend &mut
//@subst forward_parents.drain(..).rev() =>> vx_drain_rev(&mut forward_parents)
//@subst SyntaxNode::new_root(green.clone()) =>> vx_new_root(&green)
//@subst SyntaxNode::new_root(self.green.clone()) =>> vx_new_root(&self.green)
//@subst message.into() =>> message
//@format "Syntax Error: {}" -> vx_shown
//@closure map |&SyntaxError| Diagnostic ensures vx_r.message@ == "Syntax Error: "@ + ($0.0)@ && vx_r.range == $0.1 && vx_r.severity == Severity::Error
use std::sync::Arc;
use std::marker::PhantomData;
verus! {
/// what is left to close from event i on: closings less openings
pub open spec fn suf(e: Seq<Event>, i: int) -> int
    decreases e.len() - i
{ if i >= e.len() { 0 } else { suf(e, i + 1) + if node(e[i]) { -1int } else if e[i] is Finish { 1 } else { 0 } } }
proof fn suf_depth(e: Seq<Event>, i: int)
    requires 0 <= i <= e.len(),
    ensures suf(e, i) == depth(e, i) - depth(e, e.len() as int),
    decreases e.len() - i,
{ if i < e.len() { suf_depth(e, i + 1); } }
/// `ev` from event i on: the original events, but for some Starts that have been read already
pub open spec fn rest_of(e0: Seq<Event>, ev: Seq<Event>, i: int) -> bool {
    &&& ev.len() == e0.len()
    &&& forall|j: int| i <= j < e0.len() ==> (#[trigger] ev[j]) == e0[j] || (is_start(e0[j]) && ev[j] == tomb())
}
proof fn suf_ge(e0: Seq<Event>, ev: Seq<Event>, i: int)
    requires rest_of(e0, ev, i), 0 <= i <= e0.len(),
    ensures suf(ev, i) >= suf(e0, i),
    decreases e0.len() - i,
{ if i < e0.len() { assert(ev[i] == e0[i] || is_start(e0[i])); suf_ge(e0, ev, i + 1); } }
/// reading the Start at idx
proof fn suf_read(ev: Seq<Event>, idx: int, i: int)
    requires 0 <= i, 0 <= idx < ev.len(), is_start(ev[idx]) || idx < i,
    ensures suf(ev.update(idx, tomb()), i) == suf(ev, i) + if i <= idx && node(ev[idx]) { 1int } else { 0 },
    decreases ev.len() - i,
{ if i < ev.len() { suf_read(ev, idx, i + 1); } }
proof fn due_grows(ts: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b,
    ensures due(ts, a).len() <= due(ts, b).len(), forall|x: int| 0 <= x < due(ts, a).len() ==> #[trigger] due(ts, b)[x] == due(ts, a)[x],
    decreases b - a,
{ if a < b { due_grows(ts, a, b - 1); } }
proof fn due_nx(ts: Seq<Token>, p: int, q: int)
    requires 1 <= p <= q <= ts.len(), forall|j: int| p <= j < q ==> trivia((#[trigger] ts[j]).kind),
    ensures due(ts, q) == due(ts, p),
    decreases q - p,
{ if p < q { due_nx(ts, p, q - 1); } }
proof fn taken_grows(e: Seq<Event>, a: int, b: int)
    requires 0 <= a <= b,
    ensures taken(e, a).len() <= taken(e, b).len(), forall|x: int| 0 <= x < taken(e, a).len() ==> #[trigger] taken(e, b)[x] == taken(e, a)[x],
    decreases b - a,
{ if a < b { taken_grows(e, a, b - 1); } }
/// v.drain(..).rev()
#[verifier::external_body]
fn vx_drain_rev<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures final(v)@.len() == 0, r@.len() == old(v)@.len(), forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == old(v)@[r@.len() - 1 - j] { unimplemented!() }

/// the token of the grammar that is to come after m of them
proof fn next_due(ts: Seq<Token>, e: Seq<Event>, pos: int, i: int)
    requires
        whole(e, ts), 0 <= pos < ts.len(), 0 <= i <= e.len(), due(ts, pos).len() == taken(e, i).len(),
    ensures
        i < e.len() && e[i] is Token ==> ({
            let q = if pos == 0 { 0 } else { nx(ts, pos) };
            q < ts.len() - 1 && kind_fits(ts[q].kind, kind_of(e[i])) && due(ts, q + 1).len() == taken(e, i + 1).len()
        }),
        i == e.len() ==> nx(ts, pos) == ts.len() - 1,
        due(ts, if pos == 0 { 0 } else { nx(ts, pos) }).len() == due(ts, pos).len(),
{
    let n = ts.len() as int;
    let q = if pos == 0 { 0 } else { nx(ts, pos) };
    nx_bounds(ts, pos);
    if pos > 0 { due_nx(ts, pos, q); }
    let all = due(ts, n);
    due_grows(ts, q + 1, n);
    due_grows(ts, n - 1, n);
    assert(due(ts, q + 1) == due(ts, q).push(ts[q].kind));
    assert(all == due(ts, n - 1).push(EOF));
    let m = taken(e, i).len() as int;
    if q < n - 1 { due_grows(ts, q + 1, n - 1); }
    assert(all.drop_last().len() == taken(e, e.len() as int).len());
    if i < e.len() && e[i] is Token {
        taken_grows(e, i + 1, e.len() as int);
        assert(taken(e, i + 1)[m] == kind_of(e[i]));
        assert(all[m] == ts[q].kind);
        assert(kind_fits(all.drop_last()[m], taken(e, e.len() as int)[m]));
    }
}
proof fn sink_pos(s: TextTreeSink) requires s.ok() ensures 0 <= s.pos() < s.tokens@.len() { reveal(TextTreeSink::ok); }
//@fn ev::Event::tombstone ret=r
    ensures r == tomb(),
//@endfn
/// one event read
proof fn stepped(e: Seq<Event>, f: Seq<Event>, d: Seq<Bare>, dd: Seq<Bare>, i: int, n: int)
    requires
        0 <= i < n == e.len(),
        if node(e[i]) { f == read(e, i) && dd =~= d + opens(chain(e, i)) } else { same_from(e, f, i + 1) && dd =~= d + plain(e[i]) },
    ensures dd + replay(f, i + 1, n) == d + replay(e, i, n),
{ if !node(e[i]) { replay_same(e, f, i + 1, n); } assert(dd + replay(f, i + 1, n) =~= d + replay(e, i, n)); }
proof fn stepped_all(d: Seq<Bare>, e: Seq<Event>, n: int) ensures d + replay(e, n, n) == d { assert(d + replay(e, n, n) =~= d); }
/// one parent read
proof fn climbed(e: Seq<Event>, fs: Seq<SyntaxKind>, i: int)
    requires 0 <= i < e.len(), fwd_at(e, i),
    ensures
        ({
            let f = e.update(i, tomb());
            let gs = if kind_of(e[i]) != TOMBSTONE { fs.push(kind_of(e[i])) } else { fs };
            &&& gs + (match fp_of(e[i]) { Some(d) => chain(f, i + d), None => seq![] }) == fs + chain(e, i)
            &&& read(e, i) == (match fp_of(e[i]) { Some(d) => read(f, i + d), None => f })
        }),
{
    let f = e.update(i, tomb());
    let gs = if kind_of(e[i]) != TOMBSTONE { fs.push(kind_of(e[i])) } else { fs };
    match fp_of(e[i]) { Some(d) => { chain_same(e, f, i + d); } None => {} }
    assert(gs + (match fp_of(e[i]) { Some(d) => chain(f, i + d), None => seq![] }) =~= fs + chain(e, i));
}
/// the first m of the nodes to open
spec fn opened(ks: Seq<SyntaxKind>, m: int) -> Seq<Bare> { Seq::new(m as nat, |j: int| Bare::Open(ks[ks.len() - 1 - j])) }
proof fn opened_all(ks: Seq<SyntaxKind>) ensures opened(ks, ks.len() as int) == opens(ks), opened(ks, 0) == Seq::<Bare>::empty() { assert(opened(ks, ks.len() as int) =~= opens(ks)); assert(opened(ks, 0) =~= Seq::empty()); }
proof fn opened_one(d: Seq<Bare>, ks: Seq<SyntaxKind>, m: int)
    requires 0 <= m < ks.len(),
    ensures d + opened(ks, m + 1) == (d + opened(ks, m)).push(Bare::Open(ks[ks.len() - 1 - m])),
{ assert(d + opened(ks, m + 1) =~= (d + opened(ks, m)).push(Bare::Open(ks[ks.len() - 1 - m]))); }
//@fn ev::process
    requires
        whole(events@, old(sink).tokens@), old(sink).ok(), old(sink).state is PendingStart, old(sink).d() == 0, old(sink).pos() == 0,
    ensures
        final(sink).ok(), final(sink).same_source(*old(sink)), final(sink).state is PendingFinish, final(sink).d() == 0,
        nx(final(sink).tokens@, final(sink).pos()) == final(sink).tokens@.len() - 1,
        grouping() ==> final(sink).done() == old(sink).done() + replay(events@, 0, events@.len() as int),
//@locals forward_parents idx fp
//@attr #[verifier::rlimit(60)]
//@attr #[verifier::loop_isolation(false)]
//@at start
    hide(replay); hide(read); hide(chain); hide(opens); hide(opened);
    let ghost e0 = events@;
    let ghost ts = sink.tokens@;
    let ghost d0 = sink.done();
    proof { suf_depth(e0, 0); }
//@loop 0 iter=it
    invariant
        it.seq().len() == e0.len(), forall|j: int| 0 <= j < e0.len() ==> it.seq()[j] == j,
        rest_of(e0, events@, it.index@), it.index@ == 0 ==> events@ == e0, forward_parents@.len() == 0,
        sink.ok(), sink.same_source(*old(sink)), 0 <= sink.pos() < ts.len(),
        sink.d() == suf(events@, it.index@),
        grouping() ==> sink.done() + replay(events@, it.index@, e0.len() as int) == d0 + replay(e0, 0, e0.len() as int),
        due(ts, sink.pos()).len() == taken(e0, it.index@).len(),
        if it.index@ == 0 { sink.state is PendingStart && sink.pos() == 0 } else { !(sink.state is PendingStart) && (e0[it.index@ - 1] is Finish ==> sink.state is PendingFinish) },
        it.index@ >= 2 && sink.pos() == 0 ==> !trivia(ts[0].kind),
//@at loopstart 0
    let ghost ev1 = events@;
    let ghost s1 = *sink;
    let ghost mut vx_ks = Seq::<SyntaxKind>::empty();
    proof {
        suf_ge(e0, ev1, i as int); suf_depth(e0, i as int);
        next_due(ts, e0, sink.pos(), i as int);
        suf_read(ev1, i as int, i + 1);
        nx_bounds(ts, sink.pos());
        assert(fwd_at(e0, i as int));
        assert(one_each(e0));
        assert(e0[i as int] is Token || taken(e0, i + 1) == taken(e0, i as int));
    }
//@at after_call push 0
    proof {
        assert(events@ =~= ev1.update(i as int, tomb()));
        if grouping() { climbed(ev1, Seq::empty(), i as int); }
        assert(forward_parents@ =~= seq![kind]);
    }
//@loop 1
    invariant
        0 <= i <= idx < e0.len(), is_start(e0[idx as int]), fp is Some ==> fp == fp_of(e0[idx as int]),
        rest_of(e0, events@, i + 1), forward_parents@.len() >= 1, *sink == s1,
        suf(events@, i + 1) == suf(ev1, i + 1) + forward_parents@.len() - 1,
        grouping() ==> forward_parents@ + (match fp { Some(d) => chain(events@, idx + d), None => seq![] }) == chain(ev1, i as int),
        grouping() ==> read(ev1, i as int) == (match fp { Some(d) => read(events@, idx + d), None => events@ }),
        i == 0 ==> fp is None && forward_parents@.len() == 1 && forward_parents@[0] == SOURCE_FILE,
    decreases e0.len() - idx,
//@at loopstart 1
    let ghost ev2 = events@;
    let ghost vx_f2 = forward_parents@;
    proof { assert(fwd_at(e0, idx as int)); }
//@at loopend 1
    proof { suf_read(ev2, idx as int, i + 1); assert(events@ =~= ev2.update(idx as int, tomb()));
        assert(fwd_at(e0, idx as int));
        if grouping() { climbed(ev2, vx_f2, idx as int); } }
//@at afterloop 1
    proof { vx_ks = forward_parents@; if grouping() { assert(vx_ks =~= chain(ev1, i as int)); } opened_all(vx_ks); assert(s1.done() =~= s1.done() + Seq::<Bare>::empty()); }
//@loop 2 iter=it2
    invariant
        sink.ok(), sink.same_source(*old(sink)), sink.d() == s1.d() + it2.index@,
        it2.seq().len() == vx_ks.len(), grouping() ==> sink.done() == s1.done() + opened(vx_ks, it2.index@), grouping() || vx_ks.len() == 1 ==> forall|j: int| 0 <= j < vx_ks.len() ==> #[trigger] it2.seq()[j] == vx_ks[vx_ks.len() - 1 - j],
        it2.index@ == 0 ==> *sink == s1,
        it2.index@ > 0 ==> sink.state is Normal && sink.pos() == if i == 0 { 0 } else { nx(ts, s1.pos()) },
//@at loopend 2
    proof { if grouping() { opened_one(s1.done(), vx_ks, it2.index@); } }
//@at loopend 0
    proof {
        sink_pos(*sink);
        if !node(ev1[i as int]) { assert(events@ =~= ev1.update(i as int, tomb())); }
        else { opened_all(vx_ks); }
        if grouping() { stepped(ev1, events@, s1.done(), sink.done(), i as int, e0.len() as int); }
    }
//@at afterloop 0
    proof { next_due(ts, e0, sink.pos(), e0.len() as int); if grouping() { stepped_all(sink.done(), events@, e0.len() as int); } }
//@endfn

//@fn pl::parse_with_lexer ret=r
    requires old(lexer).wf(), old(lexer).all_tokens@.len() == 1,
    ensures whole(r.0@, r.1@), all_bound(r.0@), tiled(old(lexer).text@, r.1@),
//@at before_call finish 0
    proof { reveal(Parser::core); reveal(Parser::k); covers(*p.lexer); sealed_bound(p.e(), p.iced()); }
//@endfn
//@fn pg::parse_text ret=r
    requires blen(text@) <= u32::MAX,
    ensures exists|ts: Seq<Token>| tiled(text@, ts) && #[trigger] tree_of(r.0.log(), text@, ts), errors_in(r.1@, text@, blen(text@)), ops_grouped(bare(r.0.log(), r.0.log().len() as int)),
//@at before_call process 0
    let ghost vx_e = events@;
//@at before_call finish 0
    proof { if grouping() { all_grouped(vx_e); assert(tree_sink.done() =~= replay(vx_e, 0, vx_e.len() as int)); } }
//@endfn

/// the leaves' texts one after another
pub open spec fn text_of(v: Seq<(SyntaxKind, Seq<char>)>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { seq![] } else { text_of(v, n - 1) + v[n - 1].1 } }
/// P04: they are the text
proof fn lossless(s: Seq<char>, ts: Seq<Token>, v: Seq<(SyntaxKind, Seq<char>)>, n: int)
    requires tiled(s, ts), v.len() == ts.len() - 1, forall|i: int| 0 <= i < v.len() ==> leaf_is(#[trigger] v[i], s, ts, i), 0 <= n <= v.len(),
    ensures 0 <= at(s, n as nat) <= s.len(), text_of(v, n) == s.take(at(s, n as nat)), n == v.len() ==> text_of(v, n) == s,
    decreases n,
{
    assert(in_text(s, n)); reveal(in_text);
    if n > 0 {
        lossless(s, ts, v, n - 1);
        assert(in_text(s, n - 1));
        assert(leaf_is(v[n - 1], s, ts, n - 1));
        assert(text_of(v, n) =~= s.take(at(s, n as nat)));
    } else { assert(text_of(v, 0) =~= s.take(0)); }
    if n == v.len() { assert(s.take(s.len() as int) =~= s); }
}
/// a tree over the text: one source-file root, and leaves that are the text
pub open spec fn image_of(l: Seq<Op>, s: Seq<char>) -> bool {
    let v = leaves(l, l.len() as int);
    one_tree(l) && root_kind(l) == SOURCE_FILE && text_of(v, v.len() as int) == s && ops_grouped(bare(l, l.len() as int))
}
pub open spec fn parsed_from(green: GreenNode, errors: Seq<SyntaxError>, s: Seq<char>) -> bool {
    image_of(green.log(), s) && errors_in(errors, s, blen(s))
}
/// TRUSTED: rowan's cursors: the root node of a green tree, and the kind of a node
#[verifier::external_body]
pub struct SyntaxNode { n: usize }
impl SyntaxNode {
    pub uninterp spec fn kind_of(&self) -> SyntaxKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: SyntaxKind) ensures r == self.kind_of() { unimplemented!() }
}
#[verifier::external_body]
fn vx_new_root(g: &GreenNode) -> (r: SyntaxNode) ensures r.kind_of() == root_kind(g.log()) { unimplemented!() }
/// the typed view of a file (its cast is under contract in unit `kinds`)
pub struct SourceFile { pub syntax: SyntaxNode }
pub trait AstNode: Sized {
    spec fn fits(k: SyntaxKind) -> bool;
    fn cast(syntax: SyntaxNode) -> (r: Option<Self>) ensures r is Some <==> Self::fits(syntax.kind_of());
}
/// proved for the real `cast` in unit `kinds`
impl AstNode for SourceFile {
    open spec fn fits(k: SyntaxKind) -> bool { k == SOURCE_FILE }
    #[verifier::external_body]
    fn cast(syntax: SyntaxNode) -> (r: Option<Self>) { unimplemented!() }
}
//@type sy::Parse derive=
//@fn sy::Parse::new ret=r
    ensures r.green == green, r.errors@ == errors@,
//@endfn
//@fn sy::Parse::syntax_node ret=r
    ensures r.kind_of() == root_kind(self.green.log()),
//@endfn
//@fn sy::Parse::errors ret=r
    ensures r@ == self.errors@,
//@endfn
//@fn sy::Parse::tree ret=r
    requires T::fits(root_kind(self.green.log())),
//@endfn
//@fn sy::Parse::ok ret=r
    requires T::fits(root_kind(self.green.log())),
    ensures r is Ok <==> self.errors@.len() == 0, r is Err ==> r->Err_0@ == self.errors@,
//@endfn
//@fn sy::SourceFile::parse ret=r
    requires blen(text@) <= u32::MAX,
    ensures parsed_from(r.green, r.errors@, text@),
//@locals green
//@at end
    proof {
        let l = green.log();
        let ts = choose|ts: Seq<Token>| tiled(text@, ts) && #[trigger] tree_of(l, text@, ts);
        lossless(text@, ts, leaves(l, l.len() as int), ts.len() - 1);
    }
//@endfn

// ---- diagnostics of a file ----
/// TRUSTED: salsa answers a query with what its function gives on the current inputs
#[verifier::external_body]
pub struct RootDatabase { b: usize }
#[derive(Clone, Copy)]
pub struct FileId(pub u32);
impl RootDatabase {
    pub uninterp spec fn text(&self, f: FileId) -> Seq<char>;
    /// the errors of the file's parse
    pub uninterp spec fn errors_of(&self, f: FileId) -> Seq<SyntaxError>;
    #[verifier::external_body]
    pub fn file_text(&self, f: FileId) -> (r: Arc<String>) ensures r@ == self.text(f) { unimplemented!() }
    /// the query bound to `parse_query` (below)
    #[verifier::external_body]
    pub fn parse(&self, f: FileId) -> (r: Parse<SourceFile>)
        requires blen(self.text(f)) <= u32::MAX,
        ensures parsed_from(r.green, r.errors@, self.text(f)), r.errors@ == self.errors_of(f) { unimplemented!() }
}
//@fn bd::parse_query ret=r
    requires blen(db.text(file_id)) <= u32::MAX,
    ensures parsed_from(r.green, r.errors@, db.text(file_id)),
//@endfn
/// "Syntax Error: {}" with an error, which displays as its message
#[verifier::external_body]
fn vx_shown(e: &&SyntaxError) -> (r: String) ensures r@ == "Syntax Error: "@ + (*e).0@ { unimplemented!() }
/// s.iter().take(n).map(f), as a list
#[verifier::external_body]
fn vx_map_first<T, U, F: Fn(&T) -> U>(s: &[T], n: usize, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        r@.len() == if s@.len() <= n { s@.len() } else { n as nat },
        forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
fn vx_extend<T>(v: &mut Vec<T>, t: Vec<T>) ensures final(v)@ == old(v)@ + t@ { v.extend(t) }
//@type dg::DiagnosticCode derive=
//@type dg::Severity derive=
//@type dg::Diagnostic derive=
//@fn dg::Diagnostic::new ret=r
    ensures r.message@ == message@, r.range == range, r.severity == Severity::Error,
//@endfn
/// P06: the first 128 syntax errors, in order, with their ranges and messages
pub open spec fn first_errors(d: Seq<Diagnostic>, e: Seq<SyntaxError>) -> bool {
    &&& d.len() == if e.len() <= 128 { e.len() } else { 128 }
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).message@ == "Syntax Error: "@ + e[i].0@ && d[i].range == e[i].1 && d[i].severity == Severity::Error
}
//@fn dg::diagnostics ret=r
    requires blen(db.text(file_id)) <= u32::MAX,
    ensures first_errors(r@, db.errors_of(file_id)), errors_in(db.errors_of(file_id), db.text(file_id), blen(db.text(file_id))),
//@endfn
}
fn main(){}

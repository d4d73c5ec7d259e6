//@include base.rs
//@include str.rs
//@include bytes.rs
//@include kinds.rs
//@include lexspec.rs
//@include textsize.rs
//@include lexapi.rs
//@include lexerstruct.rs
//@include evspec.rs
//@include mem.rs
//@include treespec.rs
//@sliceindex self.tokens
//@subst &self.text[range] =>> vx_text_at(self.text, range)
//@subst self.text_pos += len =>> vx_add_size(&mut self.text_pos, len)
//@subst rowan::SyntaxKind(kind.into()) =>> VxRaw { kind }
//@subst 0.into() =>> vx_text_size(0)
//@subst message.into() =>> message
//@subst SyntaxTreeBuilder::default() =>> vx_new_builder()
//@shim .iter.map.sum -> vx_sum_sizes &
//@shim .iter.take_while.count -> vx_count_while &
//@closure sum |&Token| TextSize
//@closure count |&&Token| bool ensures vx_r == trivia($0.kind)
//@shim .get -> vx_get &
verus! {
/// text[range] by a TextRange
#[verifier::external_body]
fn vx_text_at<'a>(s: &'a str, r: TextRange) -> (t: &'a str)
    requires r.start.raw <= r.end.raw, cb(s@, r.start.raw as int), cb(s@, r.end.raw as int),
    ensures t@ == s@.subrange(cidx(s@, r.start.raw as int), cidx(s@, r.end.raw as int)) { unimplemented!() }
fn vx_add_size(a: &mut TextSize, b: TextSize) requires old(a).raw + b.raw <= u32::MAX ensures final(a).raw == old(a).raw + b.raw { a.raw = a.raw + b.raw; }
#[verifier::external_body]
fn vx_new_builder() -> (r: SyntaxTreeBuilder) ensures r.errors@ == Seq::<SyntaxError>::empty(), r.inner.log() == Seq::<Op>::empty() { unimplemented!() }
/// the sum of the sizes of at most one token
#[verifier::external_body]
fn vx_sum_sizes<F: Fn(&Token) -> TextSize>(s: &[Token], f: F) -> (r: TextSize)
    requires s@.len() <= 1, s@.len() == 1 ==> call_requires(f, (&s@[0],)),
    ensures s@.len() == 1 ==> call_ensures(f, (&s@[0],), r), s@.len() == 0 ==> r.raw == 0 { unimplemented!() }
#[verifier::external_body]
fn vx_count_while<F: Fn(&&Token) -> bool>(s: &[Token], f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&&#[trigger] s@[i],)),
    ensures r <= s@.len(), forall|i: int| 0 <= i < r ==> call_ensures(f, (&&#[trigger] s@[i],), true), r < s@.len() ==> call_ensures(f, (&&s@[r as int],), false) { unimplemented!() }
#[verifier::external_body]
fn vx_get<'a>(s: &'a [Token], i: usize) -> (r: Option<&'a Token>)
    ensures r is Some <==> i < s@.len(), i < s@.len() ==> *r->0 == s@[i as int] { s.get(i) }

/// one more call
proof fn called(l: Seq<Op>, x: Op)
    ensures
        forall|i: int| 0 <= i <= l.len() ==> #[trigger] open_after(l.push(x), i) == open_after(l, i),
        forall|i: int| 0 <= i <= l.len() ==> #[trigger] leaves(l.push(x), i) == leaves(l, i),
        open_after(l.push(x), l.len() as int + 1) == open_after(l, l.len() as int) + match x { Op::Open(_) => 1int, Op::Close => -1, _ => 0 },
        leaves(l.push(x), l.len() as int + 1) == match x { Op::Leaf(k, t) => leaves(l, l.len() as int).push((k, t)), _ => leaves(l, l.len() as int) },
        bare(l.push(x), l.len() as int + 1) == bare(l, l.len() as int) + match x { Op::Leaf(k, _) => bare_tok(k), Op::Open(k) => seq![Bare::Open(k)], Op::Close => seq![Bare::Close] },
{
    let m = l.push(x);
    assert forall|i: int| 0 <= i <= l.len() implies #[trigger] open_after(m, i) == open_after(l, i) by { prefix_same(l, m, i); }
    assert forall|i: int| 0 <= i <= l.len() implies #[trigger] leaves(m, i) == leaves(l, i) by { prefix_same(l, m, i); }
    assert(m[l.len() as int] == x);
    prefix_same(l, m, l.len() as int);
    assert(bare(m, l.len() as int + 1) =~= bare(l, l.len() as int) + match x { Op::Leaf(k, _) => bare_tok(k), Op::Open(k) => seq![Bare::Open(k)], Op::Close => seq![Bare::Close] });
    assert(open_after(m, l.len() as int) == open_after(l, l.len() as int));
    assert(leaves(m, l.len() as int) == leaves(l, l.len() as int));
}
proof fn prefix_same(l: Seq<Op>, m: Seq<Op>, i: int)
    requires i <= l.len() <= m.len(), forall|j: int| 0 <= j < l.len() ==> m[j] == l[j],
    ensures open_after(m, i) == open_after(l, i), leaves(m, i) == leaves(l, i), bare(m, i) == bare(l, i),
    decreases i,
{ if i > 0 { prefix_same(l, m, i - 1); } }
/// n blanks and comments, and then something else
proof fn counted(ts: Seq<Token>, i: int, n: int)
    requires
        0 <= i <= i + n <= ts.len(), forall|j: int| i <= j < i + n ==> trivia((#[trigger] ts[j]).kind), i + n < ts.len() ==> !trivia(ts[i + n].kind),
    ensures nx(ts, i) == i + n,
    decreases n,
{ if n > 0 { counted(ts, i + 1, n - 1); } }
/// where token i lies
proof fn token_at(s: Seq<char>, ts: Seq<Token>, i: int)
    requires tiled(s, ts), 0 <= i < ts.len(),
    ensures
        0 <= at(s, i as nat) <= at(s, (i + 1) as nat) <= s.len(),
        blen(s.take(at(s, (i + 1) as nat))) == blen(s.take(at(s, i as nat))) + ts[i].len.raw,
        blen(s.take(at(s, (i + 1) as nat))) <= u32::MAX,
        cb(s, blen(s.take(at(s, i as nat)))), cidx(s, blen(s.take(at(s, i as nat)))) == at(s, i as nat),
        cb(s, blen(s.take(at(s, (i + 1) as nat)))), cidx(s, blen(s.take(at(s, (i + 1) as nat)))) == at(s, (i + 1) as nat),
{
    assert(in_text(s, i)); reveal(in_text);
    assert(tok_ok(ts[i], s, i as nat));
    let (a, b) = (at(s, i as nat), at(s, (i + 1) as nat));
    cidx_skip(s, a, b - a);
    cidx_unique(s, a); cidx_unique(s, b);
    blen_mono(s, b, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}

//@fn se::SyntaxError::new_at_offset ret=r
    ensures r.0@ == message@, r.1.start == offset, r.1.end == offset,
//@endfn
//@fn se::SyntaxError::range ret=r
    ensures r == self.1,
//@endfn
//@fn sn::MoveLanguage::kind_to_raw ret=r free
    ensures r.kind == kind,
//@endfn
//@fn sn::SyntaxTreeBuilder::finish_raw ret=r
    requires one_tree(self.inner.log()),
    ensures r.0.log() == self.inner.log(), r.1@ == self.errors@,
//@endfn
//@fn sn::SyntaxTreeBuilder::token
    ensures final(self).inner.log() == old(self).inner.log().push(Op::Leaf(kind, text@)), final(self).errors == old(self).errors,
//@endfn
//@fn sn::SyntaxTreeBuilder::start_node
    ensures final(self).inner.log() == old(self).inner.log().push(Op::Open(kind)), final(self).errors == old(self).errors,
//@endfn
//@fn sn::SyntaxTreeBuilder::finish_node
    requires open_after(old(self).inner.log(), old(self).inner.log().len() as int) >= 1,
    ensures final(self).inner.log() == old(self).inner.log().push(Op::Close), final(self).errors == old(self).errors,
//@endfn
//@fn sn::SyntaxTreeBuilder::error
    ensures
        final(self).inner == old(self).inner,
        exists|x: SyntaxError| final(self).errors@ == #[trigger] old(self).errors@.push(x) && x.1.start == text_pos && x.1.end == text_pos && x.0@ == (*error.0)@,
//@endfn
//@fn tt::TextTreeSink::new ret=r
    requires tiled(text@, tokens@),
    ensures r.ok(), r.state is PendingStart, r.text == text, r.tokens == tokens, r.d() == 0, r.pos() == 0, r.done() == Seq::<Bare>::empty(),
//@at start
    proof { reveal(TextTreeSink::ok); assert(text@.take(0) =~= Seq::empty()); blen_empty(); }
//@endfn
//@fn tt::TextTreeSink::do_token
    requires
        old(self).ok(), !(old(self).state is PendingStart), !(old(self).state is PendingFinish), n_tokens == 1, old(self).pos() < old(self).tokens@.len() - 1,
        len == old(self).tokens@[old(self).pos()].len, kind_fits(old(self).tokens@[old(self).pos()].kind, kind),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state == old(self).state, final(self).pos() == old(self).pos() + 1,
        final(self).d() == old(self).d(), final(self).done() == old(self).done() + bare_tok(kind),
//@at start
    proof { reveal(TextTreeSink::ok); token_at(self.text@, self.tokens@, self.pos()); assert(self.tokens.len() <= usize::MAX); }
//@at end
    proof {
        called(old(self).log(), self.log().last());
        assert(self.log() =~= old(self).log().push(self.log().last()));
    }
//@endfn
//@fn tt::TextTreeSink::eat_trivias
    requires old(self).ok(), !(old(self).state is PendingStart), !(old(self).state is PendingFinish),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state == old(self).state, final(self).pos() == nx(old(self).tokens@, old(self).pos()),
        final(self).d() == old(self).d(), final(self).done() == old(self).done(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        self.ok(), self.same_source(*old(self)), self.state == old(self).state, self.d() == old(self).d(), self.done() == old(self).done(),
        nx(self.tokens@, self.pos()) == nx(self.tokens@, old(self).pos()),
    decreases self.tokens@.len() - self.pos(),
//@at loopstart 0
    proof { assert(self.pos() < self.tokens@.len() - 1 || !trivia(self.tokens@[self.pos()].kind)) by { reveal(TextTreeSink::ok); } }
//@at end
    proof { reveal(TextTreeSink::ok); }
//@endfn
//@fn tt::TextTreeSink::eat_n_trivias
    requires
        old(self).ok(), !(old(self).state is PendingStart), !(old(self).state is PendingFinish), old(self).pos() + n < old(self).tokens@.len(),
        forall|i: int| old(self).pos() <= i < old(self).pos() + n ==> trivia((#[trigger] old(self).tokens@[i]).kind),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state == old(self).state, final(self).pos() == old(self).pos() + n,
        final(self).d() == old(self).d(), final(self).done() == old(self).done(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0 iter=it
    invariant
        self.ok(), self.same_source(*old(self)), self.state == old(self).state, self.d() == old(self).d(), self.done() == old(self).done(), self.pos() == old(self).pos() + it.index@,
        it.seq().len() == n,
//@endfn
//@fn tt::TextTreeSink::token
    requires
        old(self).ok(), !(old(self).state is PendingStart), old(self).d() >= 1, n_tokens == 1,
        old(self).due_at() < old(self).tokens@.len() - 1, kind_fits(old(self).tokens@[old(self).due_at()].kind, kind),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is Normal, final(self).pos() == old(self).due_at() + 1,
        final(self).d() == old(self).d(), final(self).done() == old(self).done() + bare_tok(kind),
//@at start
    proof { reveal(TextTreeSink::ok); called(self.log(), Op::Close); nx_bounds(self.tokens@, self.pos()); assert(self.tokens.len() <= usize::MAX); }
//@at before_call eat_trivias 0
    proof { assert(self.ok()); }
//@at before_call do_token 0
    proof { assert(self.ok()); assert(self.tokens@.subrange(self.pos(), self.pos() + 1)[0] == self.tokens@[self.pos()]); }
//@endfn
//@fn tt::TextTreeSink::start_node
    requires
        old(self).ok(), old(self).state is PendingStart ==> kind == SOURCE_FILE, !(old(self).state is PendingStart) ==> old(self).d() >= 1,
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is Normal, final(self).d() == old(self).d() + 1, final(self).done() == old(self).done().push(Bare::Open(kind)),
        final(self).pos() == if old(self).state is PendingStart { 0 } else { nx(old(self).tokens@, old(self).pos()) },
//@at start
    proof { reveal(TextTreeSink::ok); called(self.log(), Op::Close); called(self.log(), Op::Open(kind)); nx_bounds(self.tokens@, self.pos()); }
//@at before_call eat_n_trivias 0
    proof { assert(self.ok()); let t = self.tokens@.subrange(self.pos(), self.tokens@.len() as int);
        assert forall|j: int| self.pos() <= j < self.tokens@.len() implies #[trigger] self.tokens@[j] == t[j - self.pos()] by {}
        counted(self.tokens@, self.pos(), n_trivias as int); }
//@at before_call start_node 1
    proof { called(self.log(), Op::Open(kind)); }
//@endfn
//@fn tt::TextTreeSink::finish_node
    requires old(self).ok(), !(old(self).state is PendingStart), old(self).d() >= 1,
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is PendingFinish, final(self).d() == old(self).d() - 1,
        final(self).pos() == old(self).pos(), final(self).done() == old(self).done().push(Bare::Close),
//@at start
    proof { reveal(TextTreeSink::ok); called(self.log(), Op::Close); }
//@endfn
//@fn tt::TextTreeSink::error
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state == old(self).state, final(self).d() == old(self).d(),
        final(self).pos() == old(self).pos(), final(self).done() == old(self).done(),
//@at start
    proof { reveal(TextTreeSink::ok); token_at(self.text@, self.tokens@, self.pos()); }
//@endfn
//@fn tt::TextTreeSink::finish ret=r
    requires self.ok(), self.state is PendingFinish, self.d() == 0, nx(self.tokens@, self.pos()) == self.tokens@.len() - 1,
    ensures tree_of(r.0.log(), self.text@, self.tokens@), errors_in(r.1@, self.text@, blen(self.text@)), bare(r.0.log(), r.0.log().len() as int) == self.done(),
//@at start
    proof { reveal(TextTreeSink::ok); }
//@at before_call finish_node 0
    proof { called(vx_self.log(), Op::Close); token_at(vx_self.text@, vx_self.tokens@, vx_self.pos()); blen_mono(vx_self.text@, at(vx_self.text@, vx_self.token_pos as nat), vx_self.text@.len() as int); assert(vx_self.text@.take(vx_self.text@.len() as int) =~= vx_self.text@); }
//@endfn
}
fn main(){}

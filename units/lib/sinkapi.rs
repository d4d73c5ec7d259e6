// ---- sinkapi.rs: the contracts of TextTreeSink, proved in unit `sink` (written by tools/mkapi.py) ----
verus! {
//@proved_in sink
//@fn tt::TextTreeSink::new ret=r
    requires tiled(text@, tokens@),
    ensures r.ok(), r.state is PendingStart, r.text == text, r.tokens == tokens, r.d() == 0, r.pos() == 0, r.done() == Seq::<Bare>::empty(),
//@endfn
//@fn tt::TextTreeSink::token
    requires
        old(self).ok(), !(old(self).state is PendingStart), old(self).d() >= 1, n_tokens == 1,
        old(self).due_at() < old(self).tokens@.len() - 1, kind_fits(old(self).tokens@[old(self).due_at()].kind, kind),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is Normal, final(self).pos() == old(self).due_at() + 1,
        final(self).d() == old(self).d(), final(self).done() == old(self).done() + bare_tok(kind),
//@endfn
//@fn tt::TextTreeSink::start_node
    requires
        old(self).ok(), old(self).state is PendingStart ==> kind == SOURCE_FILE, !(old(self).state is PendingStart) ==> old(self).d() >= 1,
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is Normal, final(self).d() == old(self).d() + 1, final(self).done() == old(self).done().push(Bare::Open(kind)),
        final(self).pos() == if old(self).state is PendingStart { 0 } else { nx(old(self).tokens@, old(self).pos()) },
//@endfn
//@fn tt::TextTreeSink::finish_node
    requires old(self).ok(), !(old(self).state is PendingStart), old(self).d() >= 1,
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state is PendingFinish, final(self).d() == old(self).d() - 1,
        final(self).pos() == old(self).pos(), final(self).done() == old(self).done().push(Bare::Close),
//@endfn
//@fn tt::TextTreeSink::error
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).same_source(*old(self)), final(self).state == old(self).state, final(self).d() == old(self).d(),
        final(self).pos() == old(self).pos(), final(self).done() == old(self).done(),
//@endfn
//@fn tt::TextTreeSink::finish ret=r
    requires self.ok(), self.state is PendingFinish, self.d() == 0, nx(self.tokens@, self.pos()) == self.tokens@.len() - 1,
    ensures tree_of(r.0.log(), self.text@, self.tokens@), errors_in(r.1@, self.text@, blen(self.text@)), bare(r.0.log(), r.0.log().len() as int) == self.done(),
//@endfn
//@fn se::SyntaxError::range ret=r
    ensures r == self.1,
//@endfn
//@endproved
}

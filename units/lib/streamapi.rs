// ---- streamapi.rs: the contracts of Lexer's methods, proved in unit `lexstream` (written by tools/mkapi.py) ----
verus! {
//@proved_in lexstream
//@fn lx::Lexer::new ret=r
    requires blen(text@) <= u32::MAX,
    ensures r.wf(), r.text == text, r.all_tokens@.len() == 1, r.token.kind == lex(text@).0, r.end() == lex(text@).1,
//@endfn
//@fn lx::Lexer::current ret=r
    ensures r == self.token
//@endfn
//@fn lx::Lexer::current_text ret=r
    requires self.wf(),
    ensures r@ == self.text@.subrange(at(self.text@, (self.all_tokens@.len() - 1) as nat), self.end()),
//@endfn
//@fn lx::Lexer::lookahead_nth ret=r
    requires self.wf(), n <= 2,
    ensures r.kind == self.ahead(n as nat),
//@endfn
//@fn lx::Lexer::bump
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).text == old(self).text,
        final(self).token.kind == old(self).ahead(1), final(self).end() == next_nt(old(self).text@, old(self).end()).2,
        forall|n: nat| #[trigger] final(self).ahead(n) == old(self).ahead(n + 1),
        old(self).token.kind != EOF ==> final(self).rem() < old(self).rem(),
        old(self).token.kind == EOF ==> final(self).token.kind == EOF && final(self).rem() == old(self).rem(),
        old(self).laid(*final(self)),
//@endfn
//@endproved
}

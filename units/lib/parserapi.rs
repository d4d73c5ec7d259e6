// ---- parserapi.rs: the contracts of Parser and Marker, proved in unit `marker` (written by tools/mkapi.py) ----
verus! {
//@proved_in marker
//@fn pa::Parser::new ret=r
    requires old(lexer).wf(), old(lexer).all_tokens@.len() == 1,
    ensures r.core(), r.n() == 0, r.live() == 0, r.iced() == ISet::<int>::empty(), *r.lexer == *old(lexer),
//@endfn
//@fn pa::Parser::finish ret=r
    ensures r@ == self.e(),
//@endfn
//@fn pa::Parser::current ret=r
    ensures r == self.k(0),
//@endfn
//@fn pa::Parser::nth ret=r
    requires self.core(), n <= 2,
    ensures r == self.k(n as nat),
//@endfn
//@fn pa::Parser::at ret=r
    requires self.core(),
    ensures r == (self.k(0) == kind),
//@endfn
//@fn pa::Parser::nth_at ret=r
    requires self.core(), n <= 2,
    ensures r == (self.k(n as nat) == kind), n == 1 && self.k(0) == EOF ==> self.k(1) == EOF,
//@endfn
//@fn pa::Parser::at_ts ret=r
    ensures r == kinds.has(self.k(0)),
//@endfn
//@fn pa::Parser::start ret=m
    requires old(self).core(), !trivia(old(self).k(0)) || old(self).n() == 0,
    ensures
        final(self).core(), m.pos == old(self).n(), final(self).e() == old(self).e().push(tomb()),
        final(self).live() == old(self).live() + 1, old(self).same_input(*final(self)),
        !trivia(old(self).k(0)) && old(self).ok() ==> final(self).ok() && open_at(*final(self), m), !final(self).iced().contains(m.pos as int),
        unpointed(final(self).e(), m.pos as int),
//@endfn
//@fn pa::Parser::tokens ret=r
    ensures r@ == old(self).lexer.all_tokens@, *final(self) == *old(self),
//@endfn
//@fn pa::Parser::error
    requires old(self).core(), !trivia(old(self).k(0)),
    ensures
        final(self).core(), final(self).n() == old(self).n() + 1, held(*old(self), *final(self), old(self).n()),
        final(self).live() == old(self).live(), old(self).same_input(*final(self)), final(self).e().last() is Error,
        old(self).ok() ==> final(self).ok(),
//@endfn
//@fn pa::Parser::eat ret=r
    requires old(self).core(), old(self).n() >= 1, kind != EOF,
    ensures
        r == (old(self).k(0) == kind), r ==> took(*old(self), *final(self), kind), !r ==> *final(self) == *old(self),
//@endfn
//@fn pa::Parser::bump
    requires old(self).core(), old(self).n() >= 1, kind != EOF, old(self).k(0) == kind,
    ensures took(*old(self), *final(self), kind),
//@endfn
//@fn pa::Parser::bump_any
    requires old(self).core(), old(self).n() >= 1,
    ensures if old(self).k(0) == EOF { *final(self) == *old(self) } else { took(*old(self), *final(self), old(self).k(0)) },
//@endfn
//@fn pa::Parser::bump_remap
    requires old(self).core(), old(self).n() >= 1, old(self).k(0) != EOF, kind != EOF, kind_fits(old(self).k(0), kind),
    ensures took(*old(self), *final(self), kind),
//@endfn
//@fn pa::Parser::expect ret=r
    requires old(self).ok(), kind != EOF,
    ensures
        r == (old(self).k(0) == kind), r ==> took(*old(self), *final(self), kind),
        !r ==> after(*old(self), *final(self)) && old(self).same_input(*final(self)),
//@endfn
//@fn pa::Parser::error_and_skip_until ret=r
    requires old(self).ok(),
    ensures
        made(*old(self), *final(self), r), r.kind == ERROR,
        final(self).k(0) == EOF || end_tokens.has(final(self).k(0)),
        old(self).k(0) != EOF && end_tokens.has(old(self).k(1)) ==> end_tokens.has(final(self).k(0)),
        if old(self).k(0) == EOF || end_tokens.has(old(self).k(0)) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@endfn
//@fn pa::Parser::err_recover
    requires old(self).ok(),
    ensures
        after(*old(self), *final(self)),
        if stops(old(self).k(0), recovery) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@endfn
//@fn pa::Parser::err_and_bump
    requires old(self).ok(),
    ensures
        after(*old(self), *final(self)),
        if stops(old(self).k(0), TokenSet::EMPTY) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@endfn
//@fn mk::Marker::complete ret=r
    requires
        old(p).core(), self.pos < old(p).n(), old(p).e()[self.pos as int] == tomb(), kind != TOMBSTONE, !trivia(old(p).k(0)),
        !old(p).iced().contains(self.pos as int), op_kind(kind) ==> binds(*old(p), self.pos as int, kind),
    ensures
        final(p).core(), final(p).e() == old(p).e().update(self.pos as int, Event::Start { kind, forward_parent: None }).push(Event::Finish),
        final(p).live() == old(p).live() - 1, final(p).base() == old(p).base(), old(p).same_input(*final(p)),
        r.start_pos == self.pos, r.kind == kind,
        old(p).ok() && self.pos > 0 ==> final(p).ok() && done_at(*final(p), r),
        inside(final(p).e(), self.pos as int),
//@endfn
//@fn mk::Marker::abandon
    requires
        old(p).ok(), open_at(*old(p), self), unpointed(old(p).e(), self.pos as int),
    ensures
        final(p).ok(), final(p).live() == old(p).live() - 1, old(p).same_input(*final(p)),
        held(*old(p), *final(p), self.pos as int),
//@endfn
//@fn mk::CompletedMarker::precede ret=m
    requires
        old(p).ok(), done_at(*old(p), self),
    ensures
        final(p).ok(), open_at(*final(p), m), m.pos == old(p).n(), old(p).n() <= u32::MAX, final(p).live() == old(p).live() + 1, old(p).same_input(*final(p)),
        final(p).e() == old(p).e().update(self.start_pos as int, Event::Start { kind: self.kind, forward_parent: Some((old(p).n() - self.start_pos) as u32) }).push(tomb()),
//@endfn
//@fn mk::CompletedMarker::kind ret=r
    ensures r == self.kind,
//@endfn
//@endproved
}

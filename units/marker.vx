//@include base.rs
//@include str.rs
//@include kinds.rs
//@include lexspec.rs
//@include textsize.rs
//@include lexapi.rs
//@include lexerstruct.rs
//@include lexend.rs
//@include streamapi.rs
//@include tokenset.rs
//@include evspec.rs
//@include shapes.rs
//@include parserspec.rs
//@shimfn Cell::new -> vx_steps_new
//@shimfn DropBomb::new -> vx_bomb_new
//@scope pa::Parser::nth
//@shim .set -> vx_steps_set_shared &
//@endscope
//@scope pa::Parser::tokens
//@shim .clone -> vx_clone_tokens &
//@endscope
//@subst Box::new(message.into()) =>> vx_message(message)
verus! {

#[verifier::external_body]
fn vx_steps_set_shared(s: &VxSteps, v: u32) { unimplemented!() }
#[verifier::external_body]
fn vx_clone_tokens(s: &Vec<Token>) -> (r: Vec<Token>) ensures r@ == s@ { s.clone() }
/// the text of a message is not modelled (nothing claimed depends on it)
#[verifier::external_body]
fn vx_message<T>(message: T) -> Box<String> { unimplemented!() }
proof fn depth_same(a: Seq<Event>, b: Seq<Event>, i: int)
    requires kept(a, b, i), i <= a.len(),
    ensures depth(a, i) == depth(b, i), taken(a, i) == taken(b, i),
    decreases i,
{ if i > 0 { assert(b[i - 1] == a[i - 1]); depth_same(a, b, i - 1); } }
proof fn bump_end(p: Parser, q: Parser, kind: SyntaxKind, n_raw_tokens: u8)
    requires
        p.core(), p.n() >= 1, n_raw_tokens == 1, p.k(0) != EOF, kind_fits(p.k(0), kind), kind != EOF,
        q.events@ == p.events@.push(Event::Token { kind, n_raw_tokens }), q.steps.live == p.steps.live, q.steps.iced == p.steps.iced, q.steps.fresh@,
        q.lexer.wf(), q.lexer.text == p.lexer.text, bumped(*p.lexer, *q.lexer),
    ensures
        q.core(), q.e() == p.e().push(Event::Token { kind, n_raw_tokens }),
        q.text() == p.text(), q.live() == p.live(), q.iced() == p.iced(), q.rem() < p.rem(), !trivia(q.k(0)),
        forall|n: nat| #[trigger] q.k(n) == p.k(n + 1),
        p.e()[0] == tomb() ==> q.ok(),
{
    reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem);
    pushed(p.events@, Event::Token { kind, n_raw_tokens });
    if grouping() { sealed_step(p.e(), q.e(), p.iced(), q.iced(), -1); }
    due_laid(*p.lexer, *q.lexer);
    {
        let (a, b) = (*p.lexer, *q.lexer);
        let (s, t) = (a.all_tokens@, b.all_tokens@);
        let (x, y) = (due(s, s.len() as int), due(t, t.len() as int));
        assert(y.drop_last() =~= x);
        assert(x =~= x.drop_last().push(a.token.kind));
        assert(kinds_fit(x, taken(q.e(), q.n())));
        assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by { assert(t.take(s.len() as int)[i] == t[i]); }
        assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).kind != EOF by {
            if i < s.len() - 1 { assert(s[i].kind != EOF); assert(t[i] == s[i]); } else if i == s.len() - 1 { assert(t[i] == s[i]); } else { assert(trivia(t[i].kind)); }
        }
    }
}
proof fn bump_start(p: Parser)
    requires p.core(), p.k(0) != EOF,
    ensures p.lx().wf(), p.lx().ahead(0) != EOF,
{ reveal(Parser::core); reveal(Parser::k); }
/// one more event
proof fn pushed(e: Seq<Event>, x: Event)
    ensures
        forall|i: int| 0 <= i <= e.len() ==> #[trigger] depth(e.push(x), i) == depth(e, i),
        forall|i: int| 0 <= i <= e.len() ==> #[trigger] taken(e.push(x), i) == taken(e, i),
        depth(e.push(x), (e.len() + 1) as int) == depth(e, e.len() as int) + if node(x) { 1int } else if x is Finish { -1 } else { 0 },
        taken(e.push(x), (e.len() + 1) as int) == if x is Token { taken(e, e.len() as int).push(kind_of(x)) } else { taken(e, e.len() as int) },
        fwd_ok(e) && fp_of(x) is None ==> fwd_ok(e.push(x)),
        one_each(e) && (x matches Event::Token { kind, n_raw_tokens } ==> n_raw_tokens == 1 && kind != EOF) ==> one_each(e.push(x)),
{
    let b = e.push(x);
    assert forall|i: int| 0 <= i <= e.len() implies #[trigger] depth(b, i) == depth(e, i) by { depth_same(e, b, i); }
    assert forall|i: int| 0 <= i <= e.len() implies #[trigger] taken(b, i) == taken(e, i) by { depth_same(e, b, i); }
    let n = e.len() as int;
    assert(b[n] == x && depth(b, n) == depth(e, n) && taken(b, n) == taken(e, n));
    if fwd_ok(e) && fp_of(x) is None {
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] fwd_at(b, i) by { if i < e.len() { assert(fwd_at(e, i)); } }
    }
}
/// a Start changed
proof fn updated(e: Seq<Event>, pos: int, x: Event)
    requires 0 <= pos < e.len(), is_start(e[pos]), is_start(x),
    ensures
        forall|i: int| 0 <= i <= e.len() ==> #[trigger] depth(e.update(pos, x), i) == depth(e, i) + if i > pos { (if node(x) { 1int } else { 0 }) - (if node(e[pos]) { 1int } else { 0 }) } else { 0 },
        forall|i: int| 0 <= i <= e.len() ==> #[trigger] taken(e.update(pos, x), i) == taken(e, i),
        fwd_ok(e) && (match fp_of(x) { Some(d) => d >= 1 && pos + d < e.len() && is_start(e[pos + d]), None => true }) ==> fwd_ok(e.update(pos, x)),
        one_each(e) ==> one_each(e.update(pos, x)),
{
    let b = e.update(pos, x);
    assert forall|i: int| 0 <= i <= e.len() implies #[trigger] depth(b, i) == depth(e, i) + if i > pos { (if node(x) { 1int } else { 0 }) - (if node(e[pos]) { 1int } else { 0 }) } else { 0 } by { upd_depth(e, pos, x, i); }
    assert forall|i: int| 0 <= i <= e.len() implies #[trigger] taken(b, i) == taken(e, i) by { upd_depth(e, pos, x, i); }
    if fwd_ok(e) {
        assert forall|i: int| 0 <= i < b.len() implies i == pos || #[trigger] fwd_at(b, i) by { assert(fwd_at(e, i)); }
    }
}
proof fn upd_depth(e: Seq<Event>, pos: int, x: Event, i: int)
    requires 0 <= pos < e.len(), is_start(e[pos]), is_start(x), 0 <= i <= e.len(),
    ensures
        depth(e.update(pos, x), i) == depth(e, i) + if i > pos { (if node(x) { 1int } else { 0 }) - (if node(e[pos]) { 1int } else { 0 }) } else { 0 },
        taken(e.update(pos, x), i) == taken(e, i),
    decreases i,
{ if i > 0 { upd_depth(e, pos, x, i - 1); } }
/// the last Start taken back
proof fn popped(e: Seq<Event>)
    requires e.len() > 0, e.last() == tomb(), fwd_ok(e), unpointed(e, e.len() - 1), one_each(e),
    ensures
        forall|i: int| 0 <= i < e.len() ==> #[trigger] depth(e.drop_last(), i) == depth(e, i),
        depth(e, e.len() - 1) == depth(e, e.len() as int), taken(e.drop_last(), e.len() - 1) == taken(e, e.len() as int),
        fwd_ok(e.drop_last()), one_each(e.drop_last()),
{
    let b = e.drop_last();
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] depth(b, i) == depth(e, i) by { depth_same(b, e, i); }
    depth_same(b, e, e.len() - 1);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] fwd_at(b, i) by { assert(fwd_at(e, i)); assert(fp_of(e[i]) == fp_of(b[i])); }
}
proof fn due_same(a: Seq<Token>, b: Seq<Token>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> #[trigger] b[j] == a[j],
    ensures due(a, n) == due(b, n),
    decreases n,
{ if n > 0 { assert(b[n - 1] == a[n - 1]); due_same(a, b, n - 1); } }
proof fn due_blank(b: Seq<Token>, n: int, m: int)
    requires 1 <= n <= m <= b.len(), forall|i: int| n <= i < m ==> trivia((#[trigger] b[i]).kind),
    ensures due(b, m) == due(b, n),
    decreases m - n,
{ if n < m { assert(trivia(b[m - 1].kind)); due_blank(b, n, m - 1); } }
/// consuming a token: one more is due
proof fn due_laid(a: Lexer, b: Lexer)
    requires a.wf(), b.wf(), a.laid(b),
    ensures due(b.all_tokens@, b.all_tokens@.len() as int) == due(a.all_tokens@, a.all_tokens@.len() as int).push(b.token.kind),
        due(a.all_tokens@, a.all_tokens@.len() as int).len() > 0,
        due(a.all_tokens@, a.all_tokens@.len() as int).last() == a.token.kind || (trivia(a.token.kind) && a.all_tokens@.len() > 1),
{
    let n = a.all_tokens@.len() as int; let m = b.all_tokens@.len() as int;
    let t = b.all_tokens@;
    assert forall|j: int| 0 <= j < n implies #[trigger] t[j] == a.all_tokens@[j] by { assert(t.take(n)[j] == t[j]); }
    due_same(a.all_tokens@, t, n);
    due_blank(t, n, m - 1);
    due_some(a.all_tokens@, n);
    if n == 1 { reveal_with_fuel(due, 2); }
}
spec fn bumped(a: Lexer, b: Lexer) -> bool {
    let (x, y) = (due(a.all_tokens@, a.all_tokens@.len() as int), due(b.all_tokens@, b.all_tokens@.len() as int));
    &&& a.laid(b) && b.wf()
    &&& b.rem() < a.rem() && !trivia(b.token.kind)
    &&& forall|n: nat| #[trigger] b.ahead(n) == a.ahead(n + 1)
    &&& x.len() > 0 && y == x.push(b.token.kind)
    &&& x.last() == a.token.kind || (trivia(a.token.kind) && a.all_tokens@.len() > 1)
}
/// after the end of the file comes the end of the file
proof fn at_end(l: Lexer)
    requires l.wf(),
    ensures l.token.kind == EOF ==> l.ahead(1) == EOF,
{
    if l.token.kind == EOF {
        covers(l);
        let s = l.text@;
        assert(s.skip(s.len() as int) =~= Seq::empty());
        eof_iff(s.skip(s.len() as int));
        reveal_with_fuel(nth_nt, 2);
        assert(next_nt(s, l.end()).0 == EOF);
    }
}
proof fn due_some(t: Seq<Token>, n: int)
    requires 1 <= n <= t.len(),
    ensures due(t, n).len() > 0,
    decreases n,
{ if n > 1 { due_some(t, n - 1); } else { reveal_with_fuel(due, 2); } }

//@fn ev::Event::tombstone ret=r
    ensures r == tomb(),
//@endfn
//@fn pa::Parser::new ret=r
    requires old(lexer).wf(), old(lexer).all_tokens@.len() == 1,
    ensures r.core(), r.n() == 0, r.live() == 0, r.iced() == ISet::<int>::empty(), *r.lexer == *old(lexer),
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); reveal_with_fuel(due, 3); }
//@endfn
//@fn pa::Parser::finish ret=r
    ensures r@ == self.e(),
//@endfn
//@fn pa::Parser::current ret=r
    ensures r == self.k(0),
//@at start
    proof { reveal(Parser::k); }
//@endfn
//@fn pa::Parser::nth ret=r
    requires self.core(), n <= 2,
    ensures r == self.k(n as nat),
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); }
//@endfn
//@fn pa::Parser::at ret=r
    requires self.core(),
    ensures r == (self.k(0) == kind),
//@endfn
//@fn pa::Parser::nth_at ret=r
    requires self.core(), n <= 2,
    ensures r == (self.k(n as nat) == kind), n == 1 && self.k(0) == EOF ==> self.k(1) == EOF,
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); at_end(*self.lexer); }
//@endfn
//@fn pa::Parser::at_ts ret=r
    ensures r == kinds.has(self.k(0)),
//@endfn
//@fn pa::Parser::push_event
    ensures final(self).events@ == old(self).events@.push(event), final(self).steps == old(self).steps, *final(self).lexer == *old(self).lexer,
//@endfn
//@fn pa::Parser::start ret=m
    requires old(self).core(), !trivia(old(self).k(0)) || old(self).n() == 0,
    ensures
        final(self).core(), m.pos == old(self).n(), final(self).e() == old(self).e().push(tomb()),
        final(self).live() == old(self).live() + 1, old(self).same_input(*final(self)),
        !trivia(old(self).k(0)) && old(self).ok() ==> final(self).ok() && open_at(*final(self), m), !final(self).iced().contains(m.pos as int),
        unpointed(final(self).e(), m.pos as int),
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); /* ASSUMED: fewer than 2^32 events */ assume(self.events@.len() < u32::MAX); pushed(self.events@, tomb()); if grouping() { sealed_step(self.e(), self.e().push(tomb()), self.iced(), self.iced(), -1); } }
//@at end
    self.steps.live = Ghost(self.steps.live@ + 1);
    proof {
        let (e, b) = (old(self).e(), self.e());
        assert forall|i: int| 0 <= i < b.len() implies match #[trigger] fp_of(b[i]) { Some(d) => i + d != pos, None => true } by {
            if i < e.len() { assert(fwd_at(e, i)); assert(b[i] == e[i]); }
        }
    }
//@endfn
//@fn pa::Parser::error
    requires old(self).core(), !trivia(old(self).k(0)),
    ensures
        final(self).core(), final(self).n() == old(self).n() + 1, held(*old(self), *final(self), old(self).n()),
        final(self).live() == old(self).live(), old(self).same_input(*final(self)), final(self).e().last() is Error,
        old(self).ok() ==> final(self).ok(),
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); }
//@at before_call push_event 0
    proof { pushed(self.events@, Event::Error { msg }); if grouping() { sealed_step(self.e(), self.e().push(Event::Error { msg }), self.iced(), self.iced(), -1); } }
//@endfn
//@fn pa::Parser::do_bump
    requires
        old(self).core(), old(self).n() >= 1, n_raw_tokens == 1, old(self).k(0) != EOF, kind_fits(old(self).k(0), kind), kind != EOF,
    ensures
        final(self).core(), final(self).e() == old(self).e().push(Event::Token { kind, n_raw_tokens }),
        final(self).text() == old(self).text(), final(self).live() == old(self).live(), final(self).iced() == old(self).iced(), final(self).rem() < old(self).rem(), !trivia(final(self).k(0)),
        forall|n: nat| #[trigger] final(self).k(n) == old(self).k(n + 1),
        old(self).e()[0] == tomb() ==> final(self).ok(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0 iter=it
    invariant
        n_raw_tokens == 1, self.events == old(self).events, self.steps.live == old(self).steps.live, self.steps.iced == old(self).steps.iced, it.seq().len() == 1,
        self.lexer.wf(), self.lexer.text == old(self).lexer.text, it.index@ == 0 ==> *self.lexer == *old(self).lexer,
        it.index@ == 1 ==> bumped(*old(self).lexer, *self.lexer),
//@at start
    // the guard against a stuck parser counts the lookups since the last token taken
    self.steps.fresh = Ghost(false);
    proof { bump_start(*old(self)); }
//@at after_call bump 0
    proof { due_laid(*old(self).lexer, *self.lexer); }
//@at end
    proof { bump_end(*old(self), *self, kind, n_raw_tokens); }
//@endfn
//@fn pa::Parser::tokens ret=r
    ensures r@ == old(self).lexer.all_tokens@, *final(self) == *old(self),
//@endfn
//@fn pa::Parser::eat ret=r
    requires old(self).core(), old(self).n() >= 1, kind != EOF,
    ensures
        r == (old(self).k(0) == kind), r ==> took(*old(self), *final(self), kind), !r ==> *final(self) == *old(self),
//@endfn
//@fn pa::Parser::bump
    requires old(self).core(), old(self).n() >= 1, kind != EOF, old(self).k(0) == kind,
    ensures took(*old(self), *final(self), kind),
//@endfn
//@fn pa::Parser::bump_any
    requires old(self).core(), old(self).n() >= 1,
    ensures if old(self).k(0) == EOF { *final(self) == *old(self) } else { took(*old(self), *final(self), old(self).k(0)) },
//@endfn
//@fn pa::Parser::bump_remap
    requires old(self).core(), old(self).n() >= 1, old(self).k(0) != EOF, kind != EOF, kind_fits(old(self).k(0), kind),
    ensures took(*old(self), *final(self), kind),
//@endfn
//@fn pa::Parser::expect ret=r
    requires old(self).ok(), kind != EOF,
    ensures
        r == (old(self).k(0) == kind), r ==> took(*old(self), *final(self), kind),
        !r ==> after(*old(self), *final(self)) && old(self).same_input(*final(self)),
//@endfn
//@fn pa::Parser::error_and_skip_until ret=r
    requires old(self).ok(),
    ensures
        made(*old(self), *final(self), r), r.kind == ERROR,
        final(self).k(0) == EOF || end_tokens.has(final(self).k(0)),
        old(self).k(0) != EOF && end_tokens.has(old(self).k(1)) ==> end_tokens.has(final(self).k(0)),
        if old(self).k(0) == EOF || end_tokens.has(old(self).k(0)) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@locals end_tokens m
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        self.ok(), open_at(*self, m), m.pos == old(self).n(), held(*old(self), *self, old(self).n()), self.text() == old(self).text(), self.live() == old(self).live() + 1,
        self.rem() <= old(self).rem(), self.rem() == old(self).rem() ==> old(self).same_input(*self),
        old(self).k(0) != EOF && end_tokens.has(old(self).k(1)) ==> old(self).same_input(*self) || self.k(0) == old(self).k(1),
        end_tokens.has(EOF), end_tokens.has(old(self).k(0)) ==> old(self).same_input(*self),
    decreases self.rem(),
//@endfn
//@fn pa::Parser::err_recover
    requires old(self).ok(),
    ensures
        after(*old(self), *final(self)),
        if stops(old(self).k(0), recovery) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@locals m
//@endfn
//@fn pa::Parser::err_and_bump
    requires old(self).ok(),
    ensures
        after(*old(self), *final(self)),
        if stops(old(self).k(0), TokenSet::EMPTY) { old(self).same_input(*final(self)) } else { final(self).rem() < old(self).rem() },
//@at start
    proof { no_kinds(self.k(0)); }
//@endfn
//@fn mk::Marker::new ret=m
    ensures m.pos == pos,
//@endfn
//@fn mk::CompletedMarker::new ret=m
    ensures m.start_pos == start_pos, m.finish_pos == finish_pos, m.kind == kind,
//@endfn
//@fn mk::CompletedMarker::kind ret=r
    ensures r == self.kind,
//@endfn
//@fn mk::Marker::complete ret=r
    requires
        old(p).core(), self.pos < old(p).n(), old(p).e()[self.pos as int] == tomb(), kind != TOMBSTONE, !trivia(old(p).k(0)),
        !old(p).iced().contains(self.pos as int), op_kind(kind) ==> binds(*old(p), self.pos as int, kind),
    ensures
        final(p).core(), final(p).e() == old(p).e().update(self.pos as int, Event::Start { kind, forward_parent: None }).push(Event::Finish),
        final(p).live() == old(p).live() - 1, final(p).base() == old(p).base(), old(p).same_input(*final(p)),
        r.start_pos == self.pos, r.kind == kind,
        old(p).ok() && self.pos > 0 ==> final(p).ok() && done_at(*final(p), r),
        inside(final(p).e(), self.pos as int),
//@locals idx finish_pos
//@at start
    proof {
        reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem);
        let x = Event::Start { kind, forward_parent: None };
        updated(p.events@, self.pos as int, x);
        pushed(p.events@.update(self.pos as int, x), Event::Finish);
        if grouping() { sealed_step(p.e(), p.e().update(self.pos as int, x).push(Event::Finish), p.iced(), p.iced(), if op_kind(kind) { self.pos as int } else { -1 }); }
        /* ASSUMED: fewer than 2^32 events */ assume(p.events@.len() < u32::MAX);
    }
//@at end
    p.steps.live = Ghost(p.steps.live@ - 1);
//@endfn
//@fn mk::Marker::abandon
    requires
        old(p).ok(), open_at(*old(p), self), unpointed(old(p).e(), self.pos as int),
    ensures
        final(p).ok(), final(p).live() == old(p).live() - 1, old(p).same_input(*final(p)),
        held(*old(p), *final(p), self.pos as int),
//@locals idx
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); if self.pos == p.n() - 1 { popped(p.events@); if grouping() { sealed_step(p.e(), p.e().drop_last(), p.iced(), p.iced(), -1); } } }
//@at end
    p.steps.live = Ghost(p.steps.live@ - 1);
//@endfn
//@fn mk::CompletedMarker::precede ret=m
    requires
        old(p).ok(), done_at(*old(p), self),
    ensures
        final(p).ok(), open_at(*final(p), m), m.pos == old(p).n(), old(p).n() <= u32::MAX, final(p).live() == old(p).live() + 1, old(p).same_input(*final(p)),
        final(p).e() == old(p).e().update(self.start_pos as int, Event::Start { kind: self.kind, forward_parent: Some((old(p).n() - self.start_pos) as u32) }).push(tomb()),
//@locals idx new_pos
//@at start
    proof { reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem); }
//@at after_call start 0
    proof {
        let (e, n) = (old(p).e(), old(p).n());
        assert(n <= u32::MAX);
        let x = Event::Start { kind: self.kind, forward_parent: Some((n - self.start_pos) as u32) };
        let e1 = e.push(tomb());
        updated(e1, self.start_pos as int, x);
        let f = e1.update(self.start_pos as int, x);
        if grouping() { assert forall|s: int| 0 <= s < f.len() && s != -1 && #[trigger] op_at(f, s) implies s < e.len() && op_at(e, s) && kind_of(f[s]) == kind_of(e[s]) by { if s < n && s != self.start_pos { assert(f[s] == e[s]); } } }
        assert(e.update(self.start_pos as int, x).push(tomb()) =~= f);
        if grouping() { sealed_step(e, f, p.iced(), p.iced(), -1); }
    }
//@endfn
}
fn main(){}

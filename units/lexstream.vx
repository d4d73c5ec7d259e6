//@include base.rs
//@include str.rs
//@include kinds.rs
//@include lexspec.rs
//@include textsize.rs
//@include lexapi.rs
//@include lexerstruct.rs
//@include lexend.rs
//@strindex all
//@shimfn TextSize::from -> vx_text_size
verus! {
broadcast use {vx_str_fits, cidx_def, cidx_take};

proof fn run_bound(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures 0 <= run(s, p) <= s.len(), s.len() > 0 && p(s[0]) ==> run(s, p) > 0,
    decreases s.len(),
{ if s.len() > 0 && p(s[0]) { run_bound(s.skip(1), p); } }
/// laying one more token
proof fn step(s: Seq<char>, n: nat, r: (SyntaxKind, usize))
    requires 0 <= at(s, n) <= s.len(), find_token_ok(s.skip(at(s, n)), r),
    ensures
        at(s, n) <= at(s, n + 1) <= s.len(), at(s, n) < s.len() ==> at(s, n) < at(s, n + 1),
        blen(s.take(at(s, n + 1))) == blen(s.take(at(s, n))) + r.1, blen(s.take(at(s, n + 1))) <= blen(s),
{
    let p = at(s, n);
    let q = lex(s.skip(p)).1;
    cidx_skip(s, p, q);
    blen_mono(s, p + q, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}

//@fn lx::Token::new ret=r
    requires len <= u32::MAX,
    ensures r.kind == kind, r.len.raw == len,
//@endfn
//@fn lx::Lexer::new ret=r
    requires blen(text@) <= u32::MAX,
    ensures r.wf(), r.text == text, r.all_tokens@.len() == 1, r.token.kind == lex(text@).0, r.end() == lex(text@).1,
//@locals kind len token lexer
//@at start
    proof { assert(text@.skip(0) =~= text@); assert(text@.take(0) =~= Seq::empty()); blen_empty(); blen_bounds(text@); }
//@at after_call find_token 0
    proof { assert(at(text@, 0) == 0); assert(at(text@, 1) == lex(text@).1) by { reveal_with_fuel(at, 3); }
        step(text@, 0, (kind, len)); assert(in_text(text@, 0)) by { reveal(in_text); } }
//@endfn
//@fn lx::Lexer::current ret=r
    ensures r == self.token
//@endfn
//@fn lx::Lexer::peek ret=r
    ensures r == self.token
//@endfn
//@fn lx::Lexer::current_text ret=r
    requires self.wf(),
    ensures r@ == self.text@.subrange(at(self.text@, (self.all_tokens@.len() - 1) as nat), self.end()),
//@at start
    proof { let s = self.text@; let n = self.all_tokens@.len(); blen_mono(s, at(s, (n - 1) as nat), at(s, n)); }
//@endfn
//@fn lx::Lexer::lookahead_from ret=r
    requires blen(self.text@) <= u32::MAX, cb(self.text@, pos as int),
    ensures
        r.0.kind == next_nt(self.text@, cidx(self.text@, pos as int)).0,
        cb(self.text@, r.1 as int), cidx(self.text@, r.1 as int) == next_nt(self.text@, cidx(self.text@, pos as int)).2,
//@locals kind len pos
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        blen(self.text@) <= u32::MAX, cb(self.text@, vx_p0 as int), cb(self.text@, pos as int),
        next_nt(self.text@, cidx(self.text@, pos as int)) == next_nt(self.text@, cidx(self.text@, vx_p0 as int)),
    decreases self.text@.len() - cidx(self.text@, pos as int),
//@at start
    let ghost vx_p0 = pos;
//@at after_call find_token 0
    proof {
        let s = self.text@; let p = cidx(s, pos as int); let q = lex(s.skip(p)).1;
        cidx_skip(s, p, q); blen_mono(s, p + q, s.len() as int); assert(s.take(s.len() as int) =~= s); eof_iff(s.skip(p));
    }
//@endfn
//@fn lx::Lexer::lookahead ret=r
    requires self.wf(),
    ensures r.kind == self.ahead(1),
//@endfn
//@fn lx::Lexer::lookahead_2 ret=r
    requires self.wf(),
    ensures r.0.kind == self.ahead(1), r.1.kind == self.ahead(2),
//@at start
    reveal_with_fuel(nth_nt, 3);
//@endfn
//@fn lx::Lexer::lookahead_nth ret=r
    requires self.wf(), n <= 2,
    ensures r.kind == self.ahead(n as nat),
//@endfn
//@fn lx::Lexer::advance_with_token
    requires
        old(self).text@.len() >= 0, blen(old(self).text@) <= u32::MAX, len <= u32::MAX, old(self).cur_start + len <= usize::MAX,
    ensures
        final(self).text == old(self).text, final(self).cur_start == old(self).cur_start, final(self).cur_end == old(self).cur_start + len,
        final(self).token.kind == kind, final(self).token.len.raw == len, final(self).all_tokens@ == old(self).all_tokens@.push(final(self).token),
//@endfn
//@fn lx::Lexer::bump
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).text == old(self).text,
        final(self).token.kind == old(self).ahead(1), final(self).end() == next_nt(old(self).text@, old(self).end()).2,
        forall|n: nat| #[trigger] final(self).ahead(n) == old(self).ahead(n + 1),
        old(self).token.kind != EOF ==> final(self).rem() < old(self).rem(),
        old(self).token.kind == EOF ==> final(self).token.kind == EOF && final(self).rem() == old(self).rem(),
        old(self).laid(*final(self)),
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@locals text kind len
//@loop 0
    invariant_except_break
        forall|i: int| vx_ts.len() <= i < self.all_tokens@.len() ==> trivia((#[trigger] self.all_tokens@[i]).kind),
        next_nt(self.text@, self.end()) == next_nt(self.text@, vx_e0),
    invariant
        self.wf(), self.text == vx_t0, 0 <= vx_e0 <= self.end(),
        self.token.kind == EOF ==> self.end() == self.text@.len(),
        vx_eof ==> vx_e0 == self.text@.len(),
        vx_ts.len() <= self.all_tokens@.len(), self.all_tokens@.take(vx_ts.len() as int) == vx_ts,
    ensures
        vx_ts.len() < self.all_tokens@.len(), !trivia(self.token.kind),
        forall|i: int| vx_ts.len() <= i < self.all_tokens@.len() - 1 ==> trivia((#[trigger] self.all_tokens@[i]).kind),
        self.token.kind == next_nt(self.text@, vx_e0).0, self.end() == next_nt(self.text@, vx_e0).2,
        self.end() == vx_e0 ==> self.token.kind == EOF,
    decreases self.text@.len() - self.end(),
//@at start
    hide(lex);
    let ghost vx_t0 = self.text;
    let ghost vx_ts = self.all_tokens@;
    proof { assert(vx_ts.take(vx_ts.len() as int) =~= vx_ts); }
    let ghost vx_e0 = self.end();
    let ghost vx_eof = self.token.kind == EOF;
    proof { if vx_eof { covers(*self); } }
//@at loopstart 0
    let ghost vx_all = self.all_tokens@;
    let ghost vx_end = self.end();
    proof { let s = self.text@; cidx_unique(s, vx_end); cidx_skip(s, vx_end, 0); blen_mono(s, vx_end, s.len() as int); }
//@at after_call find_token 0
    proof { step(self.text@, vx_all.len(), (kind, len)); eof_iff(self.text@.skip(vx_end)); }
//@at after_call advance_with_token 0
    proof {
        let s = self.text@;
        assert(self.all_tokens@.len() == vx_all.len() + 1);
        assert(self.all_tokens@.take(vx_ts.len() as int) =~= vx_all.take(vx_ts.len() as int));
        assert forall|i: int| 0 <= i < self.all_tokens@.len() implies tok_ok(#[trigger] self.all_tokens@[i], s, i as nat) by {
            if i < vx_all.len() { assert(self.all_tokens@[i] == vx_all[i]); }
        }
        assert(in_text(s, vx_all.len() as int)) by { reveal(in_text); }
    }
//@at end
    proof { assert forall|n: nat| #[trigger] self.ahead(n) == old(self).ahead(n + 1) by { } }
//@endfn
}
fn main(){}

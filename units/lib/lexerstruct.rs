// ---- lexerstruct.rs: the token stream of a text and the state of Lexer over it ----
verus! {
/// character position where the n-th token starts when tokens are laid end to end
pub open spec fn at(s: Seq<char>, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { let p = at(s, (n - 1) as nat); p + lex(s.skip(p)).1 } }
/// the first token at or after character p that is neither blank nor comment: kind, start, end
pub open spec fn next_nt(s: Seq<char>, p: int) -> (SyntaxKind, int, int)
    decreases s.len() - p
{
    let (k, n) = lex(s.skip(p));
    if trivia(k) && n > 0 && p + n <= s.len() { next_nt(s, p + n) } else { (k, p, p + n) }
}
/// kind of the n-th significant token after character p (0: the next one)
pub open spec fn nth_nt(s: Seq<char>, p: int, n: nat) -> SyntaxKind
    decreases n
{ if n == 0 { next_nt(s, p).0 } else { nth_nt(s, next_nt(s, p).2, (n - 1) as nat) } }

//@type lx::Token derive=Clone,Copy,PartialEq,Eq,Structural
//@type lx::Lexer

pub open spec fn tok_ok(t: Token, s: Seq<char>, n: nat) -> bool {
    let r = s.skip(at(s, n));
    &&& t.kind == lex(r).0
    &&& t.len.raw == blen(r.take(lex(r).1))
}
/// token i lies in the text
#[verifier::opaque]
pub open spec fn in_text(s: Seq<char>, i: int) -> bool { 0 <= at(s, i as nat) <= at(s, (i + 1) as nat) <= s.len() }
impl<'t> Lexer<'t> {
    /// P01: the tokens so far are those of the grammar, laid end to end from the start of the text
    pub open spec fn wf(self) -> bool {
        let s = self.text@;
        let n = self.all_tokens@.len();
        &&& blen(s) <= u32::MAX
        &&& n > 0
        &&& forall|i: int| 0 <= i < n ==> tok_ok(#[trigger] self.all_tokens@[i], s, i as nat)
        &&& forall|i: int| 0 <= i < n ==> #[trigger] in_text(s, i)
        &&& self.token == self.all_tokens@[n - 1]
        &&& 0 <= at(s, (n - 1) as nat) <= at(s, n) <= s.len()
        &&& self.cur_start == blen(s.take(at(s, (n - 1) as nat)))
        &&& self.cur_end == blen(s.take(at(s, n)))
    }
    pub open spec fn end(self) -> int { at(self.text@, self.all_tokens@.len()) }
    /// what is left: decreases with every bump until the end of the file
    pub open spec fn rem(self) -> int { self.text@.len() - self.end() + if self.token.kind == EOF { 0int } else { 1 } }
    /// `b` has laid some blanks and comments and one more significant token
    pub open spec fn laid(self, b: Lexer) -> bool {
        let n = self.all_tokens@.len() as int; let m = b.all_tokens@.len() as int;
        &&& m > n
        &&& b.all_tokens@.take(n) == self.all_tokens@
        &&& forall|i: int| n <= i < m - 1 ==> trivia((#[trigger] b.all_tokens@[i]).kind)
        &&& !trivia(b.token.kind)
    }
    /// the significant token n places ahead
    pub open spec fn ahead(self, n: nat) -> SyntaxKind {
        if n == 0 { self.token.kind } else { nth_nt(self.text@, self.end(), (n - 1) as nat) }
    }
}
}

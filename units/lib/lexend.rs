// ---- lexend.rs: the end of the token stream ----
verus! {
/// only the empty text gives an end-of-file token
proof fn eof_iff(s: Seq<char>)
    ensures lex(s).0 == EOF <==> s.len() == 0, s.len() == 0 ==> lex(s).1 == 0,
{ reveal(keyword); }
/// P01: at the end-of-file token the tokens laid end to end have covered the whole text
proof fn covers(l: Lexer)
    requires l.wf(), l.token.kind == EOF,
    ensures l.end() == l.text@.len(), l.cur_end == blen(l.text@), l.cur_start == l.cur_end,
{
    let s = l.text@;
    let n = l.all_tokens@.len();
    let p = at(s, (n - 1) as nat);
    assert(tok_ok(l.all_tokens@[n - 1], s, (n - 1) as nat));
    eof_iff(s.skip(p));
    assert(s.take(s.len() as int) =~= s);
}
}

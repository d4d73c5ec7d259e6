// ---- grammarapi.rs: the contract of the grammar's entry point, proved in unit `grammar` (written by tools/mkapi.py) ----
verus! {
//@proved_in grammar
//@fn gr::root
    requires old(p).core(), old(p).n() == 0, old(p).live() == 0,
    ensures whole(final(p).e(), final(p).lexer.all_tokens@), final(p).text() == old(p).text(), final(p).live() == 0, final(p).core(), final(p).k(0) == EOF,
//@endfn
//@endproved
}

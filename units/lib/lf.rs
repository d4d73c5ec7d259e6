// ---- lf.rs: a text with its CRLF pairs replaced ----
//@include lineendings.rs
verus! {
// ---- the property, over characters ----
/// the text with every CRLF pair replaced by LF
pub open spec fn lf(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + lf(s.skip(2)) } else { seq![s[0]] + lf(s.skip(1)) }
}
/// nothing to replace
proof fn lf_none(s: Seq<char>)
    requires !s.contains('\r'),
    ensures lf(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[0] != '\r');
        assert forall|c: char| #[trigger] s.skip(1).contains(c) implies s.contains(c) by { let i = s.skip(1).index_of(c); assert(s[i + 1] == c); }
        lf_none(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
}

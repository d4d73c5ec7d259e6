// ---- lexspec.rs: the Move lexical grammar of property P02, written from its statement ----
verus! {
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') || c == '_' }
pub open spec fn is_word(c: char) -> bool { is_alpha(c) || is_digit(c) }
pub open spec fn is_hex(c: char) -> bool { is_digit(c) || ('a' <= c <= 'f') || ('A' <= c <= 'F') }

/// length of the maximal prefix of characters satisfying `p`
pub open spec fn run(s: Seq<char>, p: spec_fn(char) -> bool) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if p(s[0]) { 1 + run(s.skip(1), p) } else { 0 } }

pub open spec fn p2(s: Seq<char>, a: char, b: char) -> bool { s.len() >= 2 && s[0] == a && s[1] == b }
pub open spec fn p3(s: Seq<char>, a: char, b: char, c: char) -> bool { s.len() >= 3 && s[0] == a && s[1] == b && s[2] == c }
pub open spec fn p4(s: Seq<char>, a: char, b: char, c: char, d: char) -> bool { s.len() >= 4 && s[0] == a && s[1] == b && s[2] == c && s[3] == d }

/// the reserved words
pub open spec fn keyword(w: Seq<char>) -> Option<SyntaxKind> {
    if w == "struct"@ { Some(STRUCT_KW) } else if w == "script"@ { Some(SCRIPT_KW) } else if w == "module"@ { Some(MODULE_KW) }
    else if w == "const"@ { Some(CONST_KW) } else if w == "use"@ { Some(USE_KW) } else if w == "as"@ { Some(AS_KW) }
    else if w == "let"@ { Some(LET_KW) } else if w == "mut"@ { Some(MUT_KW) } else if w == "return"@ { Some(RETURN_KW) }
    else if w == "fun"@ { Some(FUN_KW) } else if w == "true"@ { Some(TRUE_KW) } else if w == "false"@ { Some(FALSE_KW) }
    else if w == "move"@ { Some(MOVE_KW) } else if w == "while"@ { Some(WHILE_KW) } else if w == "if"@ { Some(IF_KW) }
    else if w == "else"@ { Some(ELSE_KW) } else if w == "break"@ { Some(BREAK_KW) } else if w == "continue"@ { Some(CONTINUE_KW) }
    else if w == "address"@ { Some(ADDRESS_KW) } else { None }
}

/// number suffix: u8, u64 or u128
pub open spec fn suffix(s: Seq<char>) -> int {
    if p2(s, 'u', '8') { 2 } else if p3(s, 'u', '6', '4') { 3 } else if p4(s, 'u', '1', '2', '8') { 4 } else { 0 }
}
pub open spec fn number(s: Seq<char>) -> int {
    let h = s.skip(2);
    let n = run(h, |c: char| is_hex(c));
    if p2(s, '0', 'x') {
        // "0x" with neither digit nor suffix is the number 0 alone
        if n + suffix(h.skip(n)) > 0 { 2 + n + suffix(h.skip(n)) } else { 1 }
    } else {
        let d = run(s, |c: char| is_digit(c));
        d + suffix(s.skip(d))
    }
}
/// index of the closing quote of a string body: the first quote not preceded by a backslash that is not itself escaped
pub open spec fn closing(s: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s[0] == '\\' { if s.len() == 1 { None } else { match closing(s.skip(2)) { Some(n) => Some(n + 2), None => None } } }
    else if s[0] == '"' { Some(0) }
    else { match closing(s.skip(1)) { Some(n) => Some(n + 1), None => None } }
}
/// the first line of `s`, without its terminator (the trailing "\n" or "\r\n")
pub open spec fn line_len(s: Seq<char>) -> int {
    let n = run(s, |c: char| c != '\n');
    if n < s.len() && n > 0 && s[n - 1] == '\r' { n - 1 } else { n }
}
pub open spec fn punct(s: Seq<char>) -> (SyntaxKind, int) {
    if p4(s, '<', '=', '=', '>') { (LT_EQ_EQ_GT, 4) }
    else if p3(s, '=', '=', '>') { (EQ_EQ_GT, 3) }
    else if p2(s, '&', '&') { (AMP_AMP, 2) } else if p2(s, '|', '|') { (PIPE_PIPE, 2) }
    else if p2(s, '=', '=') { (EQ_EQ, 2) } else if p2(s, '!', '=') { (BANG_EQ, 2) }
    else if p2(s, '<', '=') { (LT_EQ, 2) } else if p2(s, '<', '<') { (LT_LT, 2) }
    else if p2(s, '>', '=') { (GT_EQ, 2) } else if p2(s, '>', '>') { (GT_GT, 2) }
    else if p2(s, ':', ':') { (COLON_COLON, 2) } else if p2(s, '.', '.') { (DOTDOT, 2) }
    else if s[0] == '&' { (AMP, 1) } else if s[0] == '|' { (PIPE, 1) } else if s[0] == '=' { (EQ, 1) } else if s[0] == '!' { (BANG, 1) }
    else if s[0] == '<' { (LT, 1) } else if s[0] == '>' { (GT, 1) } else if s[0] == ':' { (COLON, 1) } else if s[0] == '%' { (MOD, 1) }
    else if s[0] == '(' { (L_PAREN, 1) } else if s[0] == ')' { (R_PAREN, 1) } else if s[0] == '[' { (L_BRACK, 1) } else if s[0] == ']' { (R_BRACK, 1) }
    else if s[0] == '*' { (STAR, 1) } else if s[0] == '+' { (PLUS, 1) } else if s[0] == ',' { (COMMA, 1) } else if s[0] == '-' { (MINUS, 1) }
    else if s[0] == '.' { (DOT, 1) } else if s[0] == '/' { (SLASH, 1) } else if s[0] == ';' { (SEMICOLON, 1) } else if s[0] == '^' { (CARET, 1) }
    else if s[0] == '{' { (L_BRACE, 1) } else if s[0] == '}' { (R_BRACE, 1) } else if s[0] == '#' { (NUMSIGN, 1) } else if s[0] == '@' { (ATSIGN, 1) }
    else { (ERROR, 1) }
}
/// kind and number of characters of the first token of `s`
pub open spec fn lex(s: Seq<char>) -> (SyntaxKind, int) {
    if s.len() == 0 { (EOF, 0) }
    else if is_ws(s[0]) { (WHITESPACE, run(s, |c: char| is_ws(c))) }
    else if p2(s, '/', '/') { let n = run(s, |c: char| c != '\n'); (COMMENT, if n < s.len() { n + 1 } else { n }) }
    else if is_digit(s[0]) { (INTEGER_NUMBER, number(s)) }
    else if p2(s, 'x', '"') || p2(s, 'b', '"') {
        let body = s.take(line_len(s)).skip(2);
        match closing(body) { Some(n) => (BYTE_STRING, n + 3), None => (ERROR, line_len(s)) }
    }
    else if is_alpha(s[0]) {
        let n = run(s, |c: char| is_word(c));
        (match keyword(s.take(n)) { Some(k) => k, None => IDENT }, n)
    }
    else if p4(s, '&', 'm', 'u', 't') && !(s.len() > 4 && is_word(s[4])) { (AMP_MUT, 4) }
    else { punct(s) }
}
/// P02 for one token: find_token returns the kind of the grammar and its extent in bytes
pub open spec fn find_token_ok(s: Seq<char>, r: (SyntaxKind, usize)) -> bool {
    &&& 0 <= lex(s).1 <= s.len()
    &&& s.len() > 0 ==> lex(s).1 > 0
    &&& r.0 == lex(s).0
    &&& r.1 == blen(s.take(lex(s).1))
}
}

//! Reference lexer, written from the lexical grammar in the property statement (P02).
use parser::SyntaxKind::{self, *};

const KW: &[(&str, SyntaxKind)] = &[
    ("struct", STRUCT_KW), ("script", SCRIPT_KW), ("module", MODULE_KW), ("const", CONST_KW), ("use", USE_KW), ("as", AS_KW), ("let", LET_KW),
    ("mut", MUT_KW), ("return", RETURN_KW), ("fun", FUN_KW), ("true", TRUE_KW), ("false", FALSE_KW), ("move", MOVE_KW), ("while", WHILE_KW),
    ("if", IF_KW), ("else", ELSE_KW), ("break", BREAK_KW), ("continue", CONTINUE_KW), ("address", ADDRESS_KW),
];
/// Longest first.
const OPS: &[(&str, SyntaxKind)] = &[
    ("<==>", LT_EQ_EQ_GT), ("==>", EQ_EQ_GT), ("&&", AMP_AMP), ("||", PIPE_PIPE), ("==", EQ_EQ), ("!=", BANG_EQ), ("<=", LT_EQ), ("<<", LT_LT),
    (">=", GT_EQ), (">>", GT_GT), ("::", COLON_COLON), ("..", DOTDOT),
    ("&", AMP), ("|", PIPE), ("=", EQ), ("!", BANG), ("<", LT), (">", GT), (":", COLON), ("%", MOD), ("(", L_PAREN), (")", R_PAREN), ("[", L_BRACK),
    ("]", R_BRACK), ("*", STAR), ("+", PLUS), (",", COMMA), ("-", MINUS), (".", DOT), ("/", SLASH), (";", SEMICOLON), ("^", CARET), ("{", L_BRACE),
    ("}", R_BRACE), ("#", NUMSIGN), ("@", ATSIGN),
];

fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }

pub fn next(t: &str) -> (SyntaxKind, usize) {
    let c = match t.chars().next() { None => return (EOF, 0), Some(c) => c };
    let run = |p: &dyn Fn(char) -> bool, s: &str| -> usize { s.chars().take_while(|&c| p(c)).map(char::len_utf8).sum() };
    if matches!(c, ' ' | '\n' | '\t') { return (WHITESPACE, run(&|c| matches!(c, ' ' | '\n' | '\t'), t)); }
    if t.starts_with("//") { return (COMMENT, t.find('\n').map(|i| i + 1).unwrap_or(t.len())); }
    if c.is_ascii_digit() {
        let mut n = run(&|c| c.is_ascii_digit(), t);
        if let Some(h) = t.strip_prefix("0x") { let k = run(&|c| c.is_ascii_hexdigit(), h); if k > 0 { n = 2 + k; } else { n = 1; } }
        for suf in ["u8", "u64", "u128"] { if t[n..].starts_with(suf) { n += suf.len(); break; } }
        // "0x" not followed by a hex digit is the number 0 alone; "0xu8" (a hex number of no digit with a suffix) is left open
        if ["0xu8", "0xu64", "0xu128"].iter().any(|p| t.starts_with(p)) { return (INTEGER_NUMBER, usize::MAX); }
        if t.starts_with("0x") && run(&|c| c.is_ascii_hexdigit(), &t[2..]) == 0 { n = 1; }
        return (INTEGER_NUMBER, n);
    }
    if t.starts_with("x\"") || t.starts_with("b\"") {
        let line_end = t.find('\n').unwrap_or(t.len());
        let mut it = t[2..line_end].char_indices();
        while let Some((i, c)) = it.next() {
            if c == '\\' { it.next(); } else if c == '"' { return (BYTE_STRING, 2 + i + 1); }
        }
        return (ERROR, usize::MAX); // an error token; its extent is not prescribed
    }
    if c.is_ascii_alphabetic() || c == '_' {
        let n = run(&word, t);
        return (KW.iter().find(|(k, _)| *k == &t[..n]).map(|(_, k)| *k).unwrap_or(IDENT), n);
    }
    if let Some(r) = t.strip_prefix("&mut") { if !r.chars().next().map_or(false, word) { return (AMP_MUT, 4); } }
    for (o, k) in OPS { if t.starts_with(o) { return (*k, o.len()); } }
    (ERROR, c.len_utf8())
}

//! Inputs for the parser and lexer properties.
use crate::common::Rng;

/// One spelling per token class of the language (and some near misses).
pub const ATOMS: &[&str] = &[
    ":", "::", ";", ",", "(", ")", "{", "}", "[", "]", "+", "-", "*", "/", "%", "#", "@", ".", "..",
    "&", "&&", "&mut", "^", "|", "||", "!", "!=", "=", "==", "==>", ">", ">>", ">=", "<", "<<", "<=", "<==>",
    "_", "struct", "script", "module", "const", "use", "as", "let", "mut", "return", "fun", "true", "false",
    "move", "while", "if", "else", "break", "continue", "address", "public",
    "x", "T", "0x1", "42", "7u8", "x\"0f\"", "b\"q\"", "// c\n", "$", "é",
];

/// A context leaves the parser in a given grammar rule; the hole is filled with a token sequence.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("module M {} ", ""),
    ("address ", ""),
    ("address 0x1 { ", " }"),
    ("address 0x1 { module M { ", " } }"),
    ("module ", " { }"),
    ("module 0x1::M { ", " }"),
    ("script { ", " }"),
    ("module M { struct S ", " fun f() {} }"),
    ("module M { struct S { ", " } }"),
    ("module M { struct S { a: ", " } }"),
    ("module M { struct S<", "> {} }"),
    ("module M { struct S<T: ", "> {} }"),
    ("module M { fun f ", " fun g() {} }"),
    ("module M { fun f(", ") {} }"),
    ("module M { fun f(a: ", ") {} }"),
    ("module M { fun f(): ", " {} }"),
    ("module M { fun f() { ", " } }"),
    ("module M { fun f() { let ", "; x } }"),
    ("module M { fun f() { let (", ") = x; } }"),
    ("module M { fun f() { let S { ", " } = x; } }"),
    ("module M { fun f() { let a: ", " = x; } }"),
    ("module M { fun f() { a = ", "; } }"),
    ("module M { fun f() { (", "); } }"),
    ("module M { fun f() { g(", "); } }"),
    ("module M { fun f() { S { ", " }; } }"),
    ("module M { fun f() { a::", "; } }"),
    ("module M { fun f() { a.", "; } }"),
    ("module M { fun f() { @", "; } }"),
    ("module M { fun f() { a + ", " } }"),
    ("module M { fun f() { { ", " } } }"),
];

pub const SEEDS: &[&str] = &[
    "", "\n", "// only a comment", "  // a\n\n  // b\n",
    "script { fun main() { } }",
    "module 0x1::M { struct S { a: u8, b: T } fun f(a: u8, b: &T): u8 { let x = a + b * 2; x } }",
    "address 0x1 { module A {} module B { fun g() { f(1, 2)(3).a.b; } } }",
    "module M { fun f() { let S { a, b: (c, d) } = S { a: 1, b: (2) }; (a = b); !-*x; @0x1; b\"a\\\"b\"; x\"ff\"; } }",
    "module M { struct S<T: copy + drop, U> { x: a::b::C } fun f<>() {} }",
    "address Std {\n    // comment\n    module M {\n        fun f(x: u64) : bool { true }\n    }\n}\n",
];

const CHARS: &[char] = &[
    ' ', '\n', '\t', '\r', 'a', 'b', 'x', 'z', 'A', 'F', 'Z', '_', '0', '1', '8', '9', 'u', '"', '\\', '\'', '/', '&', '|', '=', '!', '<', '>',
    ':', '%', '(', ')', '[', ']', '*', '+', ',', '-', '.', ';', '^', '{', '}', '#', '@', '$', '~', '?', '`', 'é', 'ß', '❤', '𝔘', '\u{0}', '\u{a0}', '\u{2003}', '\u{feff}', '\u{2028}', 'm', 't', 's', '6', '4', '2',
];

pub fn random_chars(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| if r.chance(1, 40) { char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x') } else { *r.pick(CHARS) }).collect()
}

/// Lexically interesting fragments.
pub const FRAGS: &[&str] = &[
    "0x", "0X1", "0x1u8", "0xffu64", "0xAbCdEfg", "00", "1u8", "1u128", "1u16", "12u64x", "u8", "x\"", "b\"", "x\"ab\"", "b\"\\\"\"", "b\"\\\\\"",
    "b\"é\"", "b\"a\nb\"", "b\"\\", "b\"\\\"", "b\"❤\\❤\"z", "xb\"", "bx\"a\"", "&mut", "&mutable", "&mut_", "&mut9", "&mu", "//", "// é\n", "/", "/ /", "//\n", "//\r\n", "==>", "==", "=>", "<==>", "<==", "<=", "<<", "<<=",
    ">>", ">=", "||", "|", "&&", "&", "!=", "!", "::", ":", ":::", "..", "...", "....", ".", "structs", "struct", "_struct", "Struct", "addresss", "address", "_", "__", "a_b", "true1", "  \n\t ", "é", "aé", "1é", "0xé", "&é", "\"a\"", "\r", "\r\n", "breaks", "break", "els", "else", "elsea", "mod", "module", "as", "ass", "use", "used", "iff", "if", "fun", "func", "continu", "continue", "const", "constt", "let", "lett", "mut", "move", "mov", "while", "return", "false", "script",
];

/// One lexeme much longer than usual.
fn long_lexeme(r: &mut Rng) -> String {
    let (open, body, close) = *r.pick(&[("0x", "a1F0", ""), ("0x", "c", "u128"), ("", "1234567890", "u64"), ("", "9", ""), ("", "x_1", ""), ("_", "9", ""), ("b\"", "a\\\"", "\""), ("x\"", "0f", "\""), ("b\"", "é", ""), ("//", " é", "\n"), ("", " ", ""), ("", "\n\t", ""), ("", "fun", "")]);
    let most = if r.chance(1, 8) { 400 } else { 90 };
    let n = 1 + r.below(most);
    format!("{}{}{}", open, body.repeat(n), close)
}

pub fn random_frags(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 6) { s.push_str(&random_chars(r, 3)); } else if r.chance(1, 25) { s.push_str(&long_lexeme(r)); } else { s.push_str(r.pick(FRAGS)); }
        if r.chance(1, 4) { s.push(*r.pick(&[' ', '\n', '\t'])); }
    }
    s
}

pub fn random_tokens(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(ATOMS));
        if r.chance(5, 6) { s.push_str(r.pick::<&str>(&[" ", "\n", "\t", "  ", " // k\n"])); }
    }
    s
}

pub fn mutate(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { c.push('m'); }
        match r.below(5) {
            0 => { let i = r.below(c.len()); let j = (i + 1 + r.below(8)).min(c.len()); c.drain(i..j); }
            1 => { let i = r.below(c.len() + 1); let t: Vec<char> = r.pick(ATOMS).chars().collect(); for (k, ch) in t.into_iter().enumerate() { c.insert(i + k, ch); } }
            2 => { let i = r.below(c.len()); c.truncate(i); }
            3 => { let i = r.below(c.len()); let j = (i + 1 + r.below(12)).min(c.len()); let d: Vec<char> = c[i..j].to_vec(); for (k, ch) in d.into_iter().enumerate() { c.insert(i + k, ch); } }
            _ => { let i = r.below(c.len()); c[i] = *r.pick(CHARS); }
        }
    }
    c.into_iter().collect()
}

/// A random well-formed-ish program.
pub fn program(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        match r.below(4) {
            0 => { s.push_str("script {"); sp(r, &mut s); function(r, &mut s); s.push_str("}"); }
            1 => { s.push_str("address "); s.push_str(*r.pick(&["0x1", "Std"])); s.push_str(" {"); for _ in 0..r.below(3) { module(r, &mut s); } s.push_str("}"); }
            _ => module(r, &mut s),
        }
        sp(r, &mut s);
    }
    s
}
fn sp(r: &mut Rng, s: &mut String) { s.push_str(*r.pick::<&str>(&[" ", "\n", "  ", "\t", " // c é\n", "\n\n// d\n"])); }
fn module(r: &mut Rng, s: &mut String) {
    sp(r, s); s.push_str("module"); sp(r, s);
    if r.chance(1, 3) { s.push_str(*r.pick(&["0x1::", "Std::"])); }
    s.push_str("M {"); sp(r, s);
    for _ in 0..r.below(4) { if r.chance(1, 2) { function(r, s) } else { strukt(r, s) } sp(r, s); }
    s.push('}'); sp(r, s);
}
fn strukt(r: &mut Rng, s: &mut String) {
    s.push_str("struct S");
    if r.chance(1, 3) { s.push_str(*r.pick::<&str>(&["<T>", "<T: copy + drop, U>", "<>"])); }
    if r.chance(1, 5) { s.push(';'); return; }
    s.push_str(" {"); for i in 0..r.below(4) { sp(r, s); s.push_str(&format!("f{}: ", i)); ty(r, s); s.push(','); } s.push('}');
}
fn ty(r: &mut Rng, s: &mut String) { s.push_str(*r.pick::<&str>(&["u8", "&T", "& mut T", "a::b::C", "M::T"])); }
fn function(r: &mut Rng, s: &mut String) {
    s.push_str("fun"); sp(r, s); s.push_str("f("); for i in 0..r.below(3) { s.push_str(&format!("a{}: ", i)); ty(r, s); s.push_str(", "); } s.push(')');
    if r.chance(1, 3) { s.push_str(": "); ty(r, s); } s.push_str(" "); block(r, s, 3);
}
fn block(r: &mut Rng, s: &mut String, d: usize) {
    s.push('{'); sp(r, s);
    for _ in 0..r.below(4) {
        if r.chance(1, 3) { s.push_str("let "); pat(r, s, 2); if r.chance(1, 4) { s.push_str(": "); ty(r, s); } if r.chance(3, 4) { s.push_str(" = "); expr(r, s, d); } s.push(';'); }
        else { expr(r, s, d); s.push(';'); }
        sp(r, s);
    }
    if r.chance(1, 2) { expr(r, s, d); sp(r, s); }
    s.push('}');
}
fn pat(r: &mut Rng, s: &mut String, d: usize) {
    match if d == 0 { r.below(2) } else { r.below(4) } {
        0 => s.push_str("a"), 1 => s.push_str("_"),
        2 => { s.push('('); pat(r, s, d - 1); s.push_str(", "); pat(r, s, d - 1); s.push(')'); }
        _ => { s.push_str("S { a, b: "); pat(r, s, d - 1); s.push_str(" }"); }
    }
}
pub fn expr(r: &mut Rng, s: &mut String, d: usize) {
    match if d == 0 { r.below(4) } else { r.below(12) } {
        0 => s.push_str("a"), 1 => s.push_str("42"), 2 => s.push_str("b\"q\""), 3 => s.push_str("@0x1"),
        4 | 5 | 6 => { expr(r, s, d - 1); s.push_str(*r.pick::<&str>(&[" + ", " * ", "-", " % ", " / ", " & ", " | ", " ^ ", " < ", " > ", " = "])); expr(r, s, d - 1); }
        7 => { s.push_str("f("); expr(r, s, d - 1); s.push_str(", "); expr(r, s, d - 1); s.push(')'); }
        8 => { s.push('('); expr(r, s, d - 1); s.push(')'); }
        9 => { s.push_str(*r.pick::<&str>(&["!", "-", "*"])); expr(r, s, d - 1); }
        10 => { expr(r, s, d - 1); s.push_str(".f"); }
        _ => { s.push_str("S { x: "); expr(r, s, d - 1); s.push_str(" }"); }
    }
}

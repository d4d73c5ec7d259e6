#[path = "../../common/common.rs"]
mod common;
mod gen;
mod reflex;
mod exprs;
mod kinds;
use common::*;
use parser::SyntaxKind::{self, *};
use syntax::syntax_node::{SyntaxElement, SyntaxNode};
use syntax::{AstNode, SourceFile};

pub fn lex_all(text: &str) -> Vec<(SyntaxKind, usize)> {
    let mut lx = parser::Lexer::new(text);
    let mut n = 0;
    while lx.current().kind != EOF {
        lx.bump();
        n += 1;
        if n > text.len() + 8 { panic!("lexer does not advance"); }
    }
    lx.all_tokens.iter().map(|t| (t.kind, usize::from(t.len))).collect()
}

fn check_lossless(text: &str) -> Result<(), String> {
    let toks = lex_all(text);
    let mut pos = 0;
    for (i, (k, n)) in toks.iter().enumerate() {
        if *k == EOF {
            if i + 1 != toks.len() || *n != 0 { return Err(format!("end-of-file token {} of {} has length {}", i, toks.len(), n)); }
            continue;
        }
        if *n == 0 { return Err(format!("token {} ({:?}) at byte {} is empty", i, k, pos)); }
        if pos + n > text.len() { return Err(format!("token {} ({:?}) at byte {} of length {} passes the end of the text ({} bytes)", i, k, pos, n, text.len())); }
        pos += n;
        if !text.is_char_boundary(pos) { return Err(format!("token {} ({:?}) ends at byte {}, inside a character", i, k, pos)); }
    }
    if toks.last().map(|t| t.0) != Some(EOF) { return Err("no end-of-file token".into()); }
    if pos != text.len() { return Err(format!("tokens cover {} of {} bytes", pos, text.len())); }
    Ok(())
}

fn check_classes(text: &str) -> Result<(), String> {
    let toks = lex_all(text);
    let mut pos = 0;
    for (k, n) in toks {
        if !text.is_char_boundary(pos) || pos > text.len() { return Err(format!("token start {} is not a character boundary", pos)); }
        let (ek, en) = reflex::next(&text[pos..]);
        if en == usize::MAX {
            if k != ek || n == 0 { return Err(format!("at byte {}: unterminated string must be an error token, got {:?} of length {}", pos, k, n)); }
        } else if (k, n) != (ek, en) {
            return Err(format!("at byte {}: expected {:?} of length {}, got {:?} of length {}", pos, ek, en, k, n));
        }
        pos += n;
    }
    Ok(())
}

fn leaves(n: &SyntaxNode, out: &mut Vec<(SyntaxKind, String)>) {
    for c in n.children_with_tokens() {
        match c { SyntaxElement::Node(n) => leaves(&n, out), SyntaxElement::Token(t) => out.push((t.kind(), t.text().to_string())) }
    }
}

/// Sink that only checks nesting.
#[derive(Default)]
struct Nest { depth: i64, roots: usize, bad: Option<String>, tokens: usize }
impl parser::TreeSink for Nest {
    fn token(&mut self, k: SyntaxKind, n: u8) { let _ = n; if self.depth < 1 { self.bad.get_or_insert(format!("token {:?} outside the root", k)); } if !k.is_trivia() { self.tokens += 1; } }
    fn start_node(&mut self, k: SyntaxKind) {
        if self.depth == 0 { self.roots += 1; if k != SOURCE_FILE { self.bad.get_or_insert(format!("root is {:?}", k)); } }
        if k == TOMBSTONE { self.bad.get_or_insert("tombstone node".into()); }
        self.depth += 1;
    }
    fn finish_node(&mut self) { self.depth -= 1; if self.depth < 0 { self.bad.get_or_insert("finish without start".into()); } }
    fn error(&mut self, _: parser::ParseError) {}
}

/// a file long enough that its lookups, counted from its start, would trip the guard against a stuck parser
fn p03(ctx: &mut Ctx) -> Outcome {
    let text = format!("module M {{ fun f() {{ {} }} }}", "x * (1 + y);\n".repeat(if ctx.thorough { 600_000 } else { 400_000 }));
    ctx.case("very long file", &text, true, || check_total(&text)).map_err(|v| Violation { input: "\"module M { fun f() { \" + \"x * (1 + y);\\n\" x 400000 + \" } }\"".into(), detail: v.detail })?;
    drop(text);
    texts_parse(ctx, check_total)
}
fn check_total(text: &str) -> Result<(), String> { let p = SourceFile::parse(text); let _ = (p.errors().len(), p.tree()); Ok(()) }

fn check_tree(text: &str) -> Result<(), String> {
    let parse = SourceFile::parse(text);
    let root = parse.syntax_node();
    if root.kind() != SOURCE_FILE { return Err(format!("root is {:?}", root.kind())); }
    if root.text().to_string() != text { return Err(format!("tree text is {:?}", clip(&root.text().to_string(), 300))); }
    let mut ls = vec![]; leaves(&root, &mut ls);
    let toks = lex_all(text);
    let mut pos = 0;
    if ls.len() != toks.len() - 1 { return Err(format!("{} leaves for {} tokens", ls.len(), toks.len() - 1)); }
    for ((k, s), (tk, tn)) in ls.iter().zip(&toks) {
        if s.as_str() != &text[pos..pos + tn] { return Err(format!("leaf {:?} at {} is not the token {:?}", s, pos, &text[pos..pos + tn])); }
        if k != tk && !(*k == DIEM_ADDRESS && *tk == INTEGER_NUMBER) { return Err(format!("leaf at {} has kind {:?}, token {:?}", pos, k, tk)); }
        pos += tn;
    }
    let mut lx = parser::Lexer::new(text);
    let (events, _) = parser::parse_with_lexer(&mut lx);
    let mut sink = Nest::default();
    parser::event::process(&mut sink, events);
    if let Some(b) = sink.bad { return Err(b); }
    if sink.depth != 0 { return Err(format!("{} nodes left open", sink.depth)); }
    if sink.roots != 1 { return Err(format!("{} roots", sink.roots)); }
    let nontrivia = toks.iter().filter(|t| !t.0.is_trivia()).count() - 1;
    if sink.tokens != nontrivia { return Err(format!("{} token events for {} tokens", sink.tokens, nontrivia)); }
    Ok(())
}

thread_local! { static HOST: std::cell::RefCell<ide::AnalysisHost> = std::cell::RefCell::new(ide::AnalysisHost::new()); }
/// the diagnostics of a file are its first 128 errors
fn check_diagnostics(text: &str, errs: &[syntax::syntax_error::SyntaxError]) -> Result<(), String> {
    use ide_db::base_db::{Change, FileId, FileSet, SourceRoot, VfsPath};
    HOST.with(|h| {
        let mut h = h.try_borrow_mut().map_err(|e| e.to_string())?;
        let f = FileId(0);
        let mut set = FileSet::default();
        set.insert(f, VfsPath::new_virtual_path("/f.move".into()));
        let mut c = Change::new();
        c.set_roots(vec![SourceRoot::new_local(set)]);
        c.change_file(f, Some(std::sync::Arc::new(text.to_string())));
        h.apply_change(c);
        let ds = h.analysis().diagnostics(f).map_err(|_| "cancelled".to_string())?;
        if ds.len() != errs.len().min(128) { return Err(format!("{} diagnostics for {} errors", ds.len(), errs.len())); }
        for (i, (d, e)) in ds.iter().zip(errs).enumerate() {
            if d.range != e.range() || d.message != format!("Syntax Error: {}", e) { return Err(format!("diagnostic {i} is {:?} {:?}, error {:?} {}", d.range, d.message, e.range(), e)); }
        }
        Ok(())
    })
}
fn check_errors(text: &str) -> Result<(), String> {
    let parse = SourceFile::parse(text);
    let errs = parse.errors().to_vec();
    let mut last = 0usize;
    for e in &errs {
        let (a, b) = (usize::from(e.range().start()), usize::from(e.range().end()));
        if b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) { return Err(format!("error range {}..{} not in the text ({} bytes)", a, b, text.len())); }
        if a < last { return Err(format!("error at {} after one at {}", a, last)); }
        last = a;
    }
    let n_err_nodes = parse.syntax_node().descendants().filter(|n| n.kind() == ERROR).count();
    if n_err_nodes > 0 && errs.is_empty() { return Err("error node without an error".into()); }
    match parse.clone().ok() {
        Ok(t) => { if !errs.is_empty() { return Err("ok() although there are errors".into()); } if t.syntax().text().to_string() != text { return Err("tree text".into()); } }
        Err(e) => { if errs.is_empty() || e.as_slice() != &errs[..] { return Err("ok() reports other errors".into()); } }
    }
    if errs.len() > 3 || text.len() % 8 == 0 { check_diagnostics(text, &errs)?; }
    Ok(())
}

type Check = fn(&str) -> Result<(), String>;

fn run_text(ctx: &mut Ctx, group: &str, text: &str, f: Check) -> Outcome {
    let nt = text.chars().any(|c| !c.is_whitespace());
    match ctx.case(group, text, nt, || f(text)) {
        Ok(()) => Ok(()),
        Err(v) => {
            if v.detail.contains("hang") { return Err(v); }
            let small = shrink_text(text, |s| matches!(std::panic::catch_unwind(|| f(s)), Ok(Err(_)) | Err(_)));
            match ctx.case("shrunk", &small, false, || f(&small)) { Err(v2) => Err(v2), Ok(()) => Err(v) }
        }
    }
}

fn texts_lex(ctx: &mut Ctx, f: Check) -> Outcome {
    for s in gen::FRAGS { run_text(ctx, "fragments", s, f)?; for t in gen::FRAGS { run_text(ctx, "fragment pairs", &format!("{}{}", s, t), f)?; } }
    for a in gen::ATOMS { for b in gen::ATOMS { run_text(ctx, "token pairs", &format!("{}{}", a, b), f)?; } }
    for c in 0..0x250u32 { if let Some(c) = char::from_u32(c) { run_text(ctx, "single characters", &c.to_string(), f)?; run_text(ctx, "character then newline", &format!("a{}\nb", c), f)?; } }
    for s in gen::SEEDS { run_text(ctx, "seed programs", s, f)?; }
    run_text(ctx, "long", &"// c\n".repeat(300), f)?;
    run_text(ctx, "long", &"a ".repeat(30_000), f)?;
    for n in [255usize, 256, 257, 65_535, 65_536, 70_001] {
        for (a, b, c) in [("", "a", ""), ("", "7", "u8"), ("0x", "f", ";"), ("x\"", "0", "\""), ("b\"", "q", "\""), ("b\"", "\\\"", "\""), ("//", "c", "\n"), ("//", "é", "\n"), ("", " ", "x"), ("", "\n", "x"), ("b\"", "z", "")] {
            run_text(ctx, "long tokens", &format!("{}{}{}", a, b.repeat(n), c), f)?;
        }
    }
    for d in ["8", "16", "32", "64", "128", "256", "", "1", "6", "12", "88"] { for s in ["u", "i", "U", "f"] { for n in ["0", "1", "255", "0x1f", "0x", "00", "9_"] { for e in ["", " ", "x", "8", "_", "u8", ";"] {
        run_text(ctx, "number suffixes", &format!("{}{}{}{}", n, s, d, e), f)?;
    } } } }
    let mut r = Rng::new(ctx.seed, 1);
    while ctx.time_left() {
        for _ in 0..50 {
            let s = match r.below(4) { 0 => gen::random_chars(&mut r, 12), 1 => gen::random_frags(&mut r, 6), 2 => { let b = gen::program(&mut r); gen::mutate(&mut r, &b) } _ => gen::random_tokens(&mut r, 12) };
            run_text(ctx, "random", &s, f)?;
        }
    }
    Ok(())
}

fn texts_parse(ctx: &mut Ctx, f: Check) -> Outcome {
    for s in gen::SEEDS { run_text(ctx, "seed programs", s, f)?; }
    for (p, s) in gen::CONTEXTS {
        run_text(ctx, "contexts, empty", &format!("{}{}", p, s), f)?;
        run_text(ctx, "contexts, cut", p, f)?;
        for a in gen::ATOMS { run_text(ctx, "contexts x one token", &format!("{}{}{}", p, a, s), f)?; run_text(ctx, "contexts x one token, cut", &format!("{}{}", p, a), f)?; }
    }
    for d in ["(", "{", "!", "f(", "S { a: ", "a::", "a + ", "*-", "a = ", "a.b(", "if (a) ", "let a = ", "a<", "while (a) {", "// a\n"] {
        for n in [3usize, 40, 200, 520, 1100, 2100] {
            run_text(ctx, "nested", &format!("module M {{ fun f() {{ {} }} }}", d.repeat(n)), f)?;
            let close: String = d.chars().rev().filter_map(|c| match c { '(' => Some(')'), '{' => Some('}'), '<' => Some('>'), _ => None }).collect();
            run_text(ctx, "nested, closed", &format!("module M {{ fun f() {{ {}a{} }} }}", d.repeat(n), close.repeat(n)), f)?;
        }
    }
    run_text(ctx, "long file", &"module M { fun f(a: u8): u8 { let x = a + 1 * 2; g(x, 3); x } }\n".repeat(400), f)?;
    run_text(ctx, "long file", &format!("module M {{ fun f() {{ {} }} }}", "x * (1 + y);\n".repeat(6000)), f)?;
    run_text(ctx, "long expression", &format!("module M {{ fun f() {{ a{} }} }}", " + a".repeat(1500)), f)?;
    // an operand of more than 65536 tokens or events before the operator that makes it a child
    for n in [300usize, 14_000, 70_000] {
        for (a, b, c) in [("g(", "x, ", "x) + 1"), ("g(", "x, ", "x)(y).z"), ("S { ", "a: 1, ", "b }.c * 2"), ("{ ", "x; ", "}.c")] {
            run_text(ctx, "long operand", &format!("module M {{ fun f() {{ {}{}{}; }} }}", a, b.repeat(n), c), f)?;
        }
    }
    run_text(ctx, "long garbage", &format!("module M {{ fun f() {{ {} }} }}", "+ ".repeat(3000)), f)?;
    run_text(ctx, "long garbage", &"; ".repeat(11000), f)?;
    run_text(ctx, "long list", &format!("module M {{ struct S {{ {} }} }}", "a: T, ".repeat(4000)), f)?;
    for n in [1usize, 2, 100, 126, 127, 128, 129, 130, 255, 256, 257, 700] {
        run_text(ctx, "n errors", &"; ".repeat(n), f)?;
        run_text(ctx, "n errors", &format!("module M {{ fun f() {{ {} }} }}", "let 1; ".repeat(n)), f)?;
    }
    for n in [300usize, 70_000] {
        run_text(ctx, "long tokens", &format!("module {} {{ // {}\n fun f() {{ b\"{}\"; 1 }} }} ) {} +", "M".repeat(n), "é".repeat(n), "q".repeat(n), " ".repeat(n)), f)?;
    }
    run_text(ctx, "long trivia", &"// c\n \n".repeat(2000), f)?;
    let mut r = Rng::new(ctx.seed, 2);
    if !ctx.thorough {
        // a rotating sample of context x two tokens
        let budget = 30_000;
        for _ in 0..budget {
            if !ctx.time_left() { break; }
            let (p, s) = r.pick(gen::CONTEXTS);
            let (a, b) = (r.pick(gen::ATOMS), r.pick(gen::ATOMS));
            let t = if r.chance(1, 4) { format!("{}{} {}", p, a, b) } else { format!("{}{} {}{}", p, a, b, s) };
            run_text(ctx, "contexts x two tokens (sampled)", &t, f)?;
        }
    } else {
        for (p, s) in gen::CONTEXTS { for a in gen::ATOMS { for b in gen::ATOMS {
            run_text(ctx, "contexts x two tokens (all)", &format!("{}{} {}{}", p, a, b, s), f)?;
        } } }
    }
    while ctx.time_left() {
        for _ in 0..20 {
            let s = match r.below(6) {
                0 => { let b = gen::program(&mut r); gen::mutate(&mut r, &b) }
                1 => gen::random_tokens(&mut r, 25),
                2 => { let (p, s) = r.pick(gen::CONTEXTS); format!("{}{}{}", p, gen::random_tokens(&mut r, 6), s) }
                3 => gen::program(&mut r),
                4 => { let b = *r.pick(gen::SEEDS); gen::mutate(&mut r, b) }
                _ => gen::random_frags(&mut r, 12),
            };
            run_text(ctx, "random", &s, f)?;
        }
    }
    Ok(())
}

macro_rules! prop { ($lex:ident, $f:expr, $rule:expr) => { |ctx: &mut Ctx| { ctx.rule = $rule; $lex(ctx, $f) } } }

// nested texts recurse deeply
fn main() {
    let it = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    if it.join().is_err() { std::process::exit(101); }
}
fn run() {
    run_main(&[
        ("P01", prop!(texts_lex, check_lossless, "texts built from all pairs of lexical fragments and token spellings, single characters, seeded random strings; non-trivial = contains a non-blank character")),
        ("P02", prop!(texts_lex, check_classes, "as P01; each token compared with an independent reference lexer")),
        ("P03", |ctx: &mut Ctx| { ctx.rule = "31 grammar contexts x every token spelling (and pairs), deep and long files, seeded random programs, mutations and token soups; non-trivial = contains a non-blank character"; p03(ctx) }),
        ("P04", prop!(texts_parse, check_tree, "as P03; leaves compared with the token sequence, nesting counted by an independent sink")),
        ("P05", exprs::run),
        ("P06", prop!(texts_parse, check_errors, "as P03; every error range checked against the text")),
        ("P18", kinds::run),
    ], &[
        ("P01", |c, t| run_text(c, "given", t, check_lossless)),
        ("P02", |c, t| run_text(c, "given", t, check_classes)),
        ("P03", |c, t| run_text(c, "given", t, check_total)),
        ("P04", |c, t| run_text(c, "given", t, check_tree)),
        ("P06", |c, t| run_text(c, "given", t, check_errors)),
    ]);
}

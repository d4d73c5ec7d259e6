//! P05: random expressions, laid out at random, against an independent precedence reference.
use crate::common::*;
use parser::SyntaxKind::*;
use syntax::syntax_node::{SyntaxElement, SyntaxNode};
use syntax::SourceFile;

#[derive(Clone, Debug)]
enum Tok { Op(&'static str), Pre(&'static str), Atom(&'static str), Post(Vec<&'static str>) }

const OPS: &[(&str, u8)] = &[("*", 11), ("/", 11), ("%", 11), ("+", 10), ("-", 10), ("&", 8), ("^", 7), ("|", 6), ("<", 5), (">", 5), ("=", 1)];
const ATOMS: &[&str] = &["a", "b1", "7", "0x2", "true", "b\"q\"", "m::n", "(c)"];
const POSTS: &[&[&str]] = &[&["(", ")"], &["(", "d", ")"], &[".", "e"]];

/// The expected grouping, fully parenthesised, from precedence levels alone: split a chain of
/// operands and operators at the lowest-precedence operator, rightmost among equals.
fn group(operands: &[String], ops: &[&'static str]) -> String {
    if ops.is_empty() { return operands[0].clone(); }
    let lvl = |o: &str| OPS.iter().find(|x| x.0 == o).unwrap().1;
    let min = ops.iter().map(|o| lvl(o)).min().unwrap();
    let at = ops.iter().rposition(|o| lvl(o) == min).unwrap();
    format!("[{}{}{}]", group(&operands[..=at], &ops[..at]), ops[at], group(&operands[at + 1..], &ops[at + 1..]))
}

fn toks_of_node(n: &SyntaxNode) -> Vec<SyntaxElement> {
    n.children_with_tokens().filter(|c| !matches!(c.kind(), WHITESPACE | COMMENT)).collect()
}
/// The grouping found in the tree, in the same notation; other nodes are printed as their text without blanks.
fn shape(n: &SyntaxNode) -> Result<String, String> {
    let kids = toks_of_node(n);
    match n.kind() {
        BIN_EXPR => {
            if kids.len() != 3 { return Err(format!("binary node with {} children", kids.len())); }
            let (l, o, r) = (&kids[0], &kids[1], &kids[2]);
            match (l, o, r) {
                (SyntaxElement::Node(l), SyntaxElement::Token(o), SyntaxElement::Node(r)) => Ok(format!("[{}{}{}]", shape(l)?, o.text(), shape(r)?)),
                _ => Err("binary node is not operand operator operand".into()),
            }
        }
        PREFIX_EXPR => match (&kids[0], &kids[1]) {
            (SyntaxElement::Token(o), SyntaxElement::Node(x)) if kids.len() == 2 => Ok(format!("<{}{}>", o.text(), shape(x)?)),
            _ => Err("prefix node".into()),
        },
        CALL_EXPR => match (&kids[0], &kids[1]) {
            (SyntaxElement::Node(f), SyntaxElement::Node(a)) if a.kind() == ARG_LIST && kids.len() == 2 => Ok(format!("{{{}{}}}", shape(f)?, flat(a))),
            _ => Err("call node".into()),
        },
        DOT_EXPR => match &kids[0] {
            SyntaxElement::Node(x) => Ok(format!("{{{}{}}}", shape(x)?, kids[1..].iter().map(|k| k.to_string()).collect::<String>())),
            _ => Err("field node".into()),
        },
        _ => Ok(flat(n)),
    }
}
fn flat(n: &SyntaxNode) -> String {
    n.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| !matches!(t.kind(), WHITESPACE | COMMENT)).map(|t| t.text().to_string()).collect()
}

fn operand(r: &mut Rng, toks: &mut Vec<String>, out: &mut String) {
    let mut pre = vec![];
    let many = if r.chance(1, 300) { 70 } else { 2 };
    while r.chance(if many > 2 { 19 } else { 4 }, 20) && pre.len() < many { pre.push(*r.pick(&["!", "-", "*"])); }
    for p in &pre { toks.push(p.to_string()); }
    let a = *r.pick(ATOMS);
    let mut s = String::new();
    match a {
        "m::n" => { for t in ["m", "::", "n"] { toks.push(t.into()); } s.push_str("m::n"); }
        "(c)" => { for t in ["(", "c", ")"] { toks.push(t.into()); } s.push_str("(c)"); }
        a => { toks.push(a.into()); s.push_str(a); }
    }
    let mut n = 0;
    while r.chance(if many > 2 { 19 } else { 4 }, 20) && n < many {
        n += 1;
        let p = *r.pick(POSTS);
        for t in p { toks.push(t.to_string()); }
        s = format!("{{{}{}}}", s, p.concat());
    }
    for p in pre.iter().rev() { s = format!("<{}{}>", p, s); }
    out.push_str(&s);
}

fn layout(r: &mut Rng, toks: &[String]) -> String {
    let mut s = String::new();
    let mode = r.below(4);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let need = joins(toks[i - 1].as_str(), t);
            let gap = match mode { 0 => if need { " " } else { "" }, 1 => " ", 2 => *r.pick(&[" ", "\n", "\t ", " // k\n", "// l\n \n"]), _ => *r.pick(&["", " ", "", "\n", "//m\n"]) };
            if need && gap.is_empty() { s.push(' '); }
            // a slash directly before a comment would start the comment early
            if gap.starts_with("//") && s.ends_with('/') { s.push(' '); }
            s.push_str(gap);
        }
        s.push_str(t);
    }
    s
}
/// Would writing these two tokens without a blank change how they are read?
fn joins(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let (x, y) = (a.chars().last().unwrap(), b.chars().next().unwrap());
    (w(x) && (w(y))) || matches!((x, y), ('&', '&') | ('|', '|') | ('=', '=') | ('=', '>') | ('!', '=') | ('<', '=') | ('<', '<') | ('>', '=') | ('>', '>') | ('/', '/') | (':', ':') | ('.', '.'))
        || (a == "&" && b.starts_with("mut")) || ((a.ends_with('x') || a.ends_with('b')) && b.starts_with('"'))
}

fn find_expr(root: &SyntaxNode) -> Option<SyntaxNode> {
    root.descendants().find(|n| n.kind() == EXPR_STMT).and_then(|s| s.children().next())
}

fn check(text: &str, want: &str) -> Result<(), String> {
    let p = SourceFile::parse(text);
    if !p.errors().is_empty() { return Err(format!("syntax error {} at {:?}", p.errors()[0], p.errors()[0].range())); }
    let e = find_expr(&p.syntax_node()).ok_or("no expression statement")?;
    let got = shape(&e)?;
    if got != want { return Err(format!("grouped as {} instead of {}", got, want)); }
    Ok(())
}

/// The same in other places where an expression stands: the node that covers exactly the expression.
fn check_at(text: &str, from: usize, to: usize, want: &str) -> Result<(), String> {
    let p = SourceFile::parse(text);
    if !p.errors().is_empty() { return Err(format!("syntax error {} at {:?}", p.errors()[0], p.errors()[0].range())); }
    let all = p.syntax_node();
    let e = all.descendants().find(|n| matches!(n.kind(), BIN_EXPR | PREFIX_EXPR | CALL_EXPR | DOT_EXPR) && usize::from(n.text_range().start()) == from && usize::from(n.text_range().end()) == to).ok_or("no node covers the expression")?;
    let got = shape(&e)?;
    if got != want { return Err(format!("grouped as {} instead of {}", got, want)); }
    Ok(())
}
const PLACES: &[(&str, &str)] = &[("let x = ", ";"), ("let x: u8 = ", ";"), ("f(", ");"), ("f(x, ", ", y);"), ("(", ");"), ("{ ", " };"), ("", ""), ("S { x: ", " };"), ("S { y, x: ", ", z };"), ("x.f(", ");"), ("((x + (", ")) * y);")];

pub fn run(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "operator chains over all pairs and triples of the 11 supported operators, then seeded random chains with prefix/postfix operands, each in several layouts and in other places (initialisers, arguments, fields, parentheses, blocks); non-trivial = at least two operators";
    let wrap = |e: &str| format!("module M {{ fun f() {{ {}; }} }}", e);
    let mut r = Rng::new(ctx.seed, 5);
    let names = ["a", "b", "c", "d", "e"];
    // exhaustive: all pairs and triples of operators
    for o1 in OPS { for o2 in OPS { 
        let ops = [o1.0, o2.0];
        case(ctx, &mut r, &names, &ops, &wrap, "operator pairs")?;
        for o3 in OPS { let ops = [o1.0, o2.0, o3.0]; case(ctx, &mut r, &names, &ops, &wrap, "operator triples")?; }
    } }
    // long chains, and an operand of more than 65536 tokens or events
    for n in [40usize, 90, 200] {
        for _ in 0..4 {
            let ops: Vec<&'static str> = (0..n).map(|_| r.pick(OPS).0).collect();
            let operands = vec!["a".to_string(); n + 1];
            let t = wrap(&format!("a {}", ops.iter().map(|o| format!("{} a ", o)).collect::<String>()));
            ctx.case("long chains", &t, true, || check(&t, &group(&operands, &ops)))?;
        }
    }
    for n in [16usize, 33, 65, 129, 300] { for o in OPS { for second in [o.0, "*", "+"] {
        let ops: Vec<&'static str> = (0..n).map(|i| if i % 9 == 8 { second } else { o.0 }).collect();
        let operands = vec!["a".to_string(); n + 1];
        let t = wrap(&format!("a {}", ops.iter().map(|o| format!("{} a ", o)).collect::<String>()));
        ctx.case("chains of one operator", &t, true, || check(&t, &group(&operands, &ops)))?;
    } } }
    for (o1, o2) in [("+", "*"), ("*", "+"), ("=", "-"), ("-", "-"), ("|", "=")] {
        for n in [300usize, 70_000] {
            let list = format!("({}1)", "1,".repeat(n));
            let t = wrap(&format!("g{} {} h{} {} a", list, o1, list, o2));
            let want = group(&[format!("{{g{}}}", list), format!("{{h{}}}", list), "a".into()], &[o1, o2]);
            ctx.case("long operands", &t, true, || check(&t, &want)).map_err(|v| Violation { input: format!("\"module M {{ fun f() {{ g(1,..) {} h(1,..) {} a; }} }}\" with {} arguments in each list", o1, o2, n), detail: clip(&v.detail, 300) })?;
        }
    }
    while ctx.time_left() {
        for _ in 0..30 {
            let n = r.below(8);
            let mut toks = vec![]; let mut operands = vec![]; let mut ops = vec![];
            for i in 0..=n {
                let mut s = String::new();
                operand(&mut r, &mut toks, &mut s);
                operands.push(s);
                if i < n { let o = r.pick(OPS).0; ops.push(o); toks.push(o.to_string()); }
            }
            let want = group(&operands, &ops);
            for _ in 0..2 {
                let e = layout(&mut r, &toks);
                let t = wrap(&e);
                ctx.case("random chains", &t, n >= 2, || check(&t, &want))?;
                if want.starts_with(&['[', '{', '<'][..]) {
                    let (a, b) = *r.pick(PLACES);
                    let head = format!("module M {{ fun f() {{ {}", a);
                    let t = format!("{}{}{} }} }}", head, e, b);
                    ctx.case("in other places", &t, n >= 2, || check_at(&t, head.len(), head.len() + e.len(), &want))?;
                }
            }
        }
    }
    Ok(())
}
fn case(ctx: &mut Ctx, r: &mut Rng, names: &[&str], ops: &[&'static str], wrap: &dyn Fn(&str) -> String, g: &str) -> Outcome {
    let operands: Vec<String> = names[..=ops.len()].iter().map(|s| s.to_string()).collect();
    let mut toks = vec![];
    for (i, o) in operands.iter().enumerate() { toks.push(o.clone()); if i < ops.len() { toks.push(ops[i].to_string()); } }
    let t = wrap(&layout(r, &toks));
    let want = group(&operands, ops);
    ctx.case(g, &t, true, || check(&t, &want))
}

//! P18: token sets and syntax kinds.
#[allow(unused_imports)]
use syntax::ast::AstToken;
use crate::common::*;
use parser::{SyntaxKind, TokenSet};
use syntax::ast::{self, AstNode};

fn all() -> Vec<SyntaxKind> { (0..SyntaxKind::__LAST as u16).map(SyntaxKind::from).chain([SyntaxKind::__LAST]).collect() }

pub fn run(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "every kind and every ordered pair of kinds exhaustively, every 16-bit number, seeded random kind lists; non-trivial = at least one kind";
    ctx.case("round trip", "all kinds", true, || {
        for d in 0..=u16::MAX {
            if d <= SyntaxKind::__LAST as u16 {
                let k = SyntaxKind::from(d);
                if u16::from(k) != d { return Err(format!("{} becomes {:?} becomes {}", d, k, u16::from(k))); }
            } else if std::panic::catch_unwind(|| SyntaxKind::from(d)).is_ok() { return Err(format!("{} accepted as a kind", d)); }
        }
        Ok(())
    })?;
    let ks = all();
    for &a in &ks {
        if a == SyntaxKind::__LAST { continue; }
        ctx.case("singletons", &format!("{{{:?}}}", a), true, || {
            let s = TokenSet::new(&[a]);
            for &b in &ks { if b != SyntaxKind::__LAST && s.contains(b) != (a == b) { return Err(format!("contains({:?}) is {}", b, s.contains(b))); } }
            if TokenSet::EMPTY.contains(a) { return Err("the empty set contains it".into()); }
            Ok(())
        })?;
        for &b in &ks {
            if b == SyntaxKind::__LAST { continue; }
            ctx.case("unions", &format!("{{{:?}}} u {{{:?}}}", a, b), true, || {
                let (s, t) = (TokenSet::new(&[a]).union(TokenSet::new(&[b])), TokenSet::new(&[a, b]));
                for &c in &ks { if c == SyntaxKind::__LAST { continue; } let w = c == a || c == b; if s.contains(c) != w || t.contains(c) != w { return Err(format!("membership of {:?}", c)); } }
                Ok(())
            })?;
        }
    }
    let mut r = Rng::new(ctx.seed, 18);
    let mut i = 0;
    while ctx.time_left() && i < 20_000 {
        i += 1;
        let n = r.below(30);
        let l: Vec<SyntaxKind> = (0..n).map(|_| ks[r.below(ks.len() - 1)]).collect();
        let cut = r.below(n + 1);
        ctx.case("random lists", &format!("{:?} cut {}", l, cut), n > 0, || {
            let (s, u) = (TokenSet::new(&l), TokenSet::new(&l[..cut]).union(TokenSet::new(&l[cut..])));
            for &c in &ks[..ks.len() - 1] { let w = l.contains(&c); if s.contains(c) != w { return Err(format!("contains({:?}) should be {}", c, w)); } if u.contains(c) != w { return Err(format!("union: contains({:?}) should be {}", c, w)); } }
            Ok(())
        })?;
    }
    casts(ctx)
}

fn casts(ctx: &mut Ctx) -> Outcome {
    use SyntaxKind::*;
    let mut b: Vec<SyntaxKind> = all(); b.pop();
    for k in b {
        ctx.case("casts", &format!("{:?}", k), true, || {
            let mut g = rowan::GreenNodeBuilder::new();
            g.start_node(rowan::SyntaxKind(k.into())); g.token(rowan::SyntaxKind(k.into()), "t"); g.finish_node();
            let n = syntax::syntax_node::SyntaxNode::new_root(g.finish());
            if n.kind() != k { return Err(format!("node kind {:?}", n.kind())); }
            macro_rules! one { ($t:ident: $($kind:ident)|+) => {
                let w = matches!(k, $($kind)|+);
                if ast::$t::can_cast(k) != w { return Err(format!("{}::can_cast is {}", stringify!($t), !w)); }
                let c = ast::$t::cast(n.clone());
                if c.is_some() != w { return Err(format!("{}::cast accepts: {}", stringify!($t), !w)); }
                if let Some(c) = c { if c.syntax() != &n { return Err("view of another node".into()); } }
            } }
            one!(SourceFile: SOURCE_FILE); one!(ScriptDef: SCRIPT_DEF); one!(FunctionDef: FUNCTION_DEF); one!(ExprStmt: EXPR_STMT);
            one!(BinExpr: BIN_EXPR); one!(Literal: LITERAL);
            macro_rules! tok { ($t:ident: $kind:ident) => {
                let t = n.first_token().unwrap();
                let w = k == $kind;
                if <ast::$t as AstToken>::can_cast(k) != w { return Err(format!("{}::can_cast is {}", stringify!($t), !w)); }
                if <ast::$t as AstToken>::cast(t).is_some() != w { return Err(format!("{}::cast", stringify!($t))); }
            } }
            tok!(Whitespace: WHITESPACE); tok!(Comment: COMMENT); tok!(HexString: HEX_STRING); 
            Ok(())
        })?;
    }
    Ok(())
}

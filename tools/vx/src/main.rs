//! vx: mechanical extractor.  Reads a unit template (Verus text with `//@`
//! directives), pulls the named items out of /repo's current source, applies the
//! documented rewrite rules, attaches the contracts of the template and writes one
//! Verus file.  It never invents executable code: everything between the contract
//! clauses is the token stream of the real function after the rules R1..R12 listed in
//! DESIGN.md (each application is counted in the report).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Debug)]
pub struct Lost(pub String);
type R<T> = std::result::Result<T, Lost>;
fn lost<T>(s: impl Into<String>) -> R<T> {
    Err(Lost(s.into()))
}

#[derive(Default, Clone)]
struct Config {
    strip: BTreeSet<String>,
    tmap: HashMap<String, String>,
    shims: Vec<(Vec<String>, String, String, Option<usize>, String)>, // chain, fn, autoref, arity, scope
    shimfns: Vec<(String, String)>,
    vecindex: Vec<String>,
    sliceindex: Vec<String>,
    strindex: Vec<String>,
    closures: HashMap<String, (Vec<String>, String)>,
    /// R3: `format!` with this literal -> call of this function on references to the arguments
    formats: Vec<(String, String)>,
    drop_macros: BTreeSet<String>,
    ne: bool,
    retype: Vec<(String, String)>,
    inline_files: Vec<String>,
    known: BTreeSet<String>,
    substs: Vec<(String, String, String)>, // pattern, replacement, scope
    const_fns: BTreeSet<String>,
    /// R21: methods with a function-pointer parameter, which is a type parameter in the extracted text
    fnparams: BTreeSet<String>,
}

#[derive(Clone)]
struct FnSrc {
    file: String,
    line: usize,
    name: String,
    impl_generics: Option<(String, String)>, // (generics decl, self type)
    sig: Signature,
    block: Block,
}

#[derive(Default, Clone)]
struct Contract {
    target: String,
    ret: String,
    spec: String,
    loops: BTreeMap<usize, (Option<String>, String)>,
    ats: Vec<(String, String)>, // anchor, text
    locals: Option<Vec<String>>,
    opts: BTreeSet<String>,
    attrs: Vec<String>,
    nloops: Option<usize>,
    rename: Option<String>,
    proved_in: Option<String>,
    bounds: Option<String>,
}

#[derive(Default)]
struct Report {
    funcs: Vec<(String, String, usize, usize)>,
    rules: BTreeMap<String, usize>,
    dropped: BTreeSet<String>,
    inlined: Vec<String>,
    types: Vec<String>,
    proved_elsewhere: Vec<(String, String)>,
}

fn ts_str(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}
fn rename_self(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(quote::format_ident!("vx_self")),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x,
        })
        .collect()
}
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ---------------------------------------------------------------- item lookup
struct Files {
    files: HashMap<String, (String, File)>,
    order: Vec<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = squash(&ts_str(&a.meta));
        s == "test" || s.starts_with("cfg(test") || s.contains("verif_hooks")
    })
}

/// R15: conditional compilation, resolved as for the released server on this platform (unix, no
/// tests, hooks off); conditions that depend on anything else are left alone.
struct CfgPass { hits: usize }
fn cfg_eval(m: &Meta) -> Option<bool> {
    match m {
        Meta::Path(p) => match p.get_ident()?.to_string().as_str() {
            "unix" => Some(true),
            "windows" | "test" | "verif_hooks" | "doc" | "miri" => Some(false),
            _ => None,
        },
        Meta::List(l) => {
            let parts = l.parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok()?;
            let v: Vec<Option<bool>> = parts.iter().map(cfg_eval).collect();
            match l.path.get_ident()?.to_string().as_str() {
                "not" => v.first().copied().flatten().map(|b| !b),
                "all" => if v.contains(&Some(false)) { Some(false) } else if v.iter().all(|x| *x == Some(true)) { Some(true) } else { None },
                "any" => if v.contains(&Some(true)) { Some(true) } else if v.iter().all(|x| *x == Some(false)) { Some(false) } else { None },
                _ => None,
            }
        }
        Meta::NameValue(nv) => {
            let s = squash(&ts_str(nv));
            if s.starts_with("target_os=") { Some(s == "target_os=\"linux\"") } else if s.starts_with("target_family=") { Some(s == "target_family=\"unix\"") } else { None }
        }
    }
}
impl CfgPass {
    /// false: the thing under these attributes is compiled out
    fn keep(&mut self, attrs: &mut Vec<Attribute>) -> bool {
        let mut keep = true;
        attrs.retain(|a| {
            if let Meta::List(l) = &a.meta {
                if l.path.is_ident("cfg") {
                    if let Ok(m) = l.parse_args::<Meta>() {
                        match cfg_eval(&m) {
                            Some(true) => return false,
                            Some(false) => keep = false,
                            None => {}
                        }
                    }
                }
            }
            true
        });
        if !keep { self.hits += 1; }
        keep
    }
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Block(x) => &mut x.attrs, Expr::If(x) => &mut x.attrs, Expr::Match(x) => &mut x.attrs, Expr::Call(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs, Expr::Assign(x) => &mut x.attrs, Expr::Macro(x) => &mut x.attrs, Expr::Return(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs, Expr::While(x) => &mut x.attrs, Expr::Loop(x) => &mut x.attrs, Expr::Unsafe(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs, Expr::Path(x) => &mut x.attrs, Expr::Lit(x) => &mut x.attrs, Expr::Tuple(x) => &mut x.attrs,
        _ => return None,
    })
}
impl VisitMut for CfgPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut st in std::mem::take(&mut b.stmts) {
            let keep = match &mut st {
                Stmt::Local(l) => self.keep(&mut l.attrs),
                Stmt::Macro(m) => self.keep(&mut m.attrs),
                Stmt::Expr(e, _) => match expr_attrs(e) { Some(a) => self.keep(a), None => true },
                Stmt::Item(_) => true,
            };
            if keep { out.push(st); }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let mut arms = std::mem::take(&mut m.arms);
        arms.retain_mut(|a| self.keep(&mut a.attrs));
        m.arms = arms;
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Some(b) = m.mac.parse_body::<Meta>().ok().and_then(|m| cfg_eval(&m)) {
                    self.hits += 1;
                    *e = if b { parse_quote!(true) } else { parse_quote!(false) };
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain_mut(|i| self.keep_item(i));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content { items.retain_mut(|i| self.keep_item(i)); }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain_mut(|i| if let ImplItem::Fn(f) = i { self.keep(&mut f.attrs) } else { true });
        visit_mut::visit_item_impl_mut(self, m);
    }
}
impl CfgPass {
    fn keep_item(&mut self, i: &mut Item) -> bool {
        match i {
            Item::Fn(x) => self.keep(&mut x.attrs), Item::Impl(x) => self.keep(&mut x.attrs), Item::Mod(x) => self.keep(&mut x.attrs),
            Item::Struct(x) => self.keep(&mut x.attrs), Item::Enum(x) => self.keep(&mut x.attrs), Item::Const(x) => self.keep(&mut x.attrs),
            Item::Use(x) => self.keep(&mut x.attrs), Item::Static(x) => self.keep(&mut x.attrs), Item::Type(x) => self.keep(&mut x.attrs),
            _ => true,
        }
    }
}

fn collect_fns(alias: &str, path: &str, items: &[Item], prefix: &str, out: &mut Vec<(String, FnSrc)>) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                push_fn(alias, path, prefix, None, &f.sig, &f.block, out);
            }
            Item::Impl(im) if !is_test(&im.attrs) => {
                let ty = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    other => squash(&ts_str(other)),
                };
                let gens = ts_str(&im.generics.params);
                let selfty = ts_str(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let trfull = im.trait_.as_ref().map(|t| squash(&ts_str(&t.1)));
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let g = Some((gens.clone(), selfty.clone()));
                        let pre = format!("{prefix}{ty}::");
                        push_fn(alias, path, &pre, g.clone(), &f.sig, &f.block, out);
                        if let Some(tr) = &tr {
                            let pre = format!("{prefix}{ty}.{tr}::");
                            push_fn(alias, path, &pre, g.clone(), &f.sig, &f.block, out);
                        }
                        if let Some(tr) = &trfull {
                            let pre = format!("{prefix}{ty}.{tr}::");
                            push_fn(alias, path, &pre, g.clone(), &f.sig, &f.block, out);
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    collect_fns(alias, path, items, &format!("{prefix}{}::", m.ident), out);
                }
            }
            _ => {}
        }
    }
}
fn push_fn(
    alias: &str,
    path: &str,
    prefix: &str,
    g: Option<(String, String)>,
    sig: &Signature,
    block: &Block,
    out: &mut Vec<(String, FnSrc)>,
) {
    let full = format!("{alias}::{prefix}{}", sig.ident);
    out.push((
        full.clone(),
        FnSrc {
            file: path.to_string(),
            line: sig.ident.span().start().line,
            name: sig.ident.to_string(),
            impl_generics: g,
            sig: sig.clone(),
            block: block.clone(),
        },
    ));
    let nested: Vec<Item> = block.stmts.iter().filter_map(|st| if let Stmt::Item(i) = st { Some(i.clone()) } else { None }).collect();
    collect_fns(alias, path, &nested, &format!("{prefix}{}::", sig.ident), out);
}

fn find_item<'a>(items: &'a [Item], name: &str) -> Option<&'a Item> {
    for it in items {
        let n = match it {
            Item::Struct(s) => s.ident.to_string(),
            Item::Enum(s) => s.ident.to_string(),
            Item::Const(s) => s.ident.to_string(),
            Item::Type(s) => s.ident.to_string(),
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_item(its, name) {
                        return Some(x);
                    }
                }
                continue;
            }
            Item::Impl(im) => {
                if let Some((t, c)) = name.split_once('.') {
                    if squash(&ts_str(&im.self_ty)).split('<').next() == Some(t) {
                        for ii in &im.items {
                            if let ImplItem::Const(k) = ii {
                                if k.ident == c {
                                    return Some(it);
                                }
                            }
                        }
                    }
                }
                continue;
            }
            _ => continue,
        };
        if n == name {
            return Some(it);
        }
    }
    // consts and types local to functions
    for it in items {
        if let Item::Fn(f) = it {
            for st in &f.block.stmts {
                match st {
                    Stmt::Item(i @ Item::Const(ItemConst { ident, .. })) | Stmt::Item(i @ Item::Enum(ItemEnum { ident, .. })) | Stmt::Item(i @ Item::Struct(ItemStruct { ident, .. })) if ident == name => return Some(i),
                    _ => {}
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- rewriting
struct Rewriter<'a> {
    cfg: &'a Config,
    rules: BTreeMap<String, usize>,
    dropped: BTreeSet<String>,
    inserts: Vec<String>,
    loops: usize,
    loop_specs: Vec<Option<(Option<String>, String)>>,
    contract: &'a Contract,
    err: Option<String>,
    method_stack: Vec<String>,
    subst: HashMap<String, String>,
    fns: &'a HashMap<String, Vec<FnSrc>>, // by bare name
    inline_depth: usize,
    inlined: Vec<String>,
    fresh: usize,
    fnname: String,
    closure_count: HashMap<String, usize>,
}

impl<'a> Rewriter<'a> {
    fn hit(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_default() += 1;
    }
    fn marker_stmt(&mut self, text: String) -> Stmt {
        let k = self.inserts.len();
        self.inserts.push(text);
        let id = quote::format_ident!("__vx_ins_{}", k);
        parse_quote!( #id!(); )
    }
    fn marker_expr(&mut self, text: String) -> Expr {
        let k = self.inserts.len();
        self.inserts.push(text);
        let id = quote::format_ident!("__vx_ins_{}", k);
        parse_quote!( #id!() )
    }
    fn tmac(&mut self, m: &Macro) -> Option<String> {
        if m.path.is_ident("T") {
            let key = squash(&m.tokens.to_string());
            let key = key.trim_matches('\'').to_string();
            self.hit("R1-T-macro");
            match self.cfg.tmap.get(&key) {
                Some(v) => Some(v.clone()),
                None => {
                    self.err = Some(format!("unknown token macro T![{key}]"));
                    None
                }
            }
        } else {
            None
        }
    }
    fn strip_path(&mut self, p: &mut Path) {
        if p.segments.len() > 1 {
            let n = p.segments.len();
            let mut keep = 0;
            while keep + 1 < n && self.cfg.strip.contains(&p.segments[keep].ident.to_string()) {
                keep += 1;
            }
            if keep > 0 {
                self.hit("R8-module-path");
                let segs: Vec<_> = p.segments.iter().skip(keep).cloned().collect();
                p.segments = segs.into_iter().collect();
                p.leading_colon = None;
            }
        }
    }
}

/// Does the block contain `return`/`?` outside closures?
struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_ret_e(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}
fn has_ret_b(b: &Block) -> bool {
    let mut h = HasRet(false);
    h.visit_block(b);
    h.0
}

/// Turn `return x` in tail position into `x`, and `if c { return a; } rest` into
/// `if c { a } else { rest }`.  Returns None when a return remains elsewhere.
fn untail(b: &Block) -> Option<Block> {
    if !has_ret_b(b) {
        return Some(b.clone());
    }
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, st) in b.stmts.iter().enumerate() {
        let last = i + 1 == n;
        match st {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
                if has_ret_e(&e) {
                    return None;
                }
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(e, semi) if last && semi.is_none() && has_ret_e(e) => {
                out.push(Stmt::Expr(untail_e(e)?, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(ei), _) if has_ret_e(&Expr::If(ei.clone())) => {
                if ei.else_branch.is_some() || has_ret_e(&ei.cond) {
                    return None;
                }
                // then-branch must end in return
                match ei.then_branch.stmts.last() {
                    Some(Stmt::Expr(Expr::Return(_), _)) => {}
                    _ => return None,
                }
                let th = untail(&ei.then_branch)?;
                let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
                let el = untail(&rest)?;
                let c = &ei.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #th else #el), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            other => {
                let mut h = HasRet(false);
                h.visit_stmt(other);
                if h.0 {
                    return None;
                }
                out.push(other.clone());
            }
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
fn untail_e(e: &Expr) -> Option<Expr> {
    if !has_ret_e(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => {
            let e = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
            if has_ret_e(&e) {
                None
            } else {
                Some(e)
            }
        }
        Expr::If(i) => {
            if has_ret_e(&i.cond) {
                return None;
            }
            let th = untail(&i.then_branch)?;
            let c = &i.cond;
            match &i.else_branch {
                Some((_, el)) => {
                    let el = untail_e(el)?;
                    Some(match el {
                        Expr::If(_) | Expr::Block(_) => parse_quote!(if #c #th else #el),
                        o => parse_quote!(if #c #th else { #o }),
                    })
                }
                None => None,
            }
        }
        Expr::Block(b) => {
            let bb = untail(&b.block)?;
            Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: bb }))
        }
        Expr::Match(m) => {
            if has_ret_e(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in &mut m2.arms {
                a.body = Box::new(untail_e(&a.body)?);
            }
            Some(Expr::Match(m2))
        }
        _ => None,
    }
}

/// R20: `&x` in a pattern becomes `x`, collected in `names`
fn unref(p: &mut Pat, names: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => {
            if let Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() {
                    names.push(i.ident.clone());
                    let q = (*r.pat).clone();
                    *p = q;
                }
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| unref(q, names)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| unref(q, names)),
        Pat::Struct(t) => t.fields.iter_mut().filter(|f| f.colon_token.is_some()).for_each(|f| unref(&mut f.pat, names)),
        _ => {}
    }
}
fn deref_stmts(b: &mut Block, names: &[Ident]) {
    for n in names.iter().rev() {
        b.stmts.insert(0, parse_quote!(let #n = *#n;));
    }
}
/// R14: `continue` of a `for` loop (which Verus has not) to nested branches:
/// `if c { A; continue; } rest` becomes `if c { A } else { rest }`.
struct HasCont(bool);
impl<'ast> Visit<'ast> for HasCont {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_cont_e(e: &Expr) -> bool {
    let mut h = HasCont(false);
    h.visit_expr(e);
    h.0
}
fn has_cont_b(b: &Block) -> bool {
    let mut h = HasCont(false);
    h.visit_block(b);
    h.0
}
fn ends_cont(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(_), _)))
}
fn uncont(b: &Block) -> Option<Block> {
    if !has_cont_b(b) {
        return Some(b.clone());
    }
    let mk = |stmts| Block { brace_token: b.brace_token, stmts };
    let mut out: Vec<Stmt> = vec![];
    for (i, st) in b.stmts.iter().enumerate() {
        let rest = || mk(b.stmts[i + 1..].to_vec());
        match st {
            Stmt::Expr(Expr::Continue(_), _) => return Some(mk(out)),
            Stmt::Expr(Expr::If(ei), _) if has_cont_e(&Expr::If(ei.clone())) => {
                if has_cont_e(&ei.cond) {
                    return None;
                }
                let c = &ei.cond;
                let with = |blk: &Block, more: Block| -> Option<Block> {
                    if ends_cont(blk) {
                        uncont(blk)
                    } else if has_cont_b(blk) && !more.stmts.is_empty() {
                        None
                    } else {
                        let mut x = blk.clone();
                        if let Some(Stmt::Expr(_, semi)) = x.stmts.last_mut() {
                            if semi.is_none() {
                                *semi = Some(Default::default());
                            }
                        }
                        x.stmts.extend(more.stmts);
                        uncont(&x)
                    }
                };
                let th = with(&ei.then_branch, rest())?;
                let el = match &ei.else_branch {
                    None => uncont(&rest())?,
                    Some((_, e)) => match &**e {
                        Expr::Block(eb) => with(&eb.block, rest())?,
                        o => {
                            let o = o.clone();
                            with(&parse_quote!({ #o }), rest())?
                        }
                    },
                };
                out.push(Stmt::Expr(parse_quote!(if #c #th else #el), None));
                return Some(mk(out));
            }
            Stmt::Local(l) if l.init.is_some() => {
                let init = l.init.as_ref().unwrap();
                let pat = &l.pat;
                let (ie, r) = (&init.expr, rest());
                if let Some((_, d)) = &init.diverge {
                    if has_cont_e(d) {
                        let db: Block = match &**d {
                            Expr::Block(x) => x.block.clone(),
                            o => parse_quote!({ #o; }),
                        };
                        let (db, r) = (uncont(&db)?, uncont(&r)?);
                        out.push(Stmt::Expr(parse_quote!(if let #pat = #ie #r else #db), None));
                        return Some(mk(out));
                    }
                }
                if let (Expr::Match(m), true) = (&**ie, has_cont_e(ie)) {
                    if has_cont_e(&m.expr) {
                        return None;
                    }
                    let r = uncont(&r)?;
                    let mut m2 = m.clone();
                    let mut alive = 0;
                    for a in &mut m2.arms {
                        if matches!(&*a.body, Expr::Continue(_)) {
                            a.body = parse_quote!({});
                        } else if matches!(&*a.body, Expr::Block(x) if ends_cont(&x.block)) {
                            let Expr::Block(x) = &*a.body else { return None };
                            let y = uncont(&x.block)?;
                            a.body = parse_quote!(#y);
                        } else if has_cont_e(&a.body) {
                            return None;
                        } else {
                            alive += 1;
                            let (v, rs) = (&a.body, &r.stmts);
                            a.body = parse_quote!({ let #pat = #v; #(#rs)* });
                        }
                    }
                    if alive != 1 {
                        return None;
                    }
                    out.push(Stmt::Expr(Expr::Match(m2), None));
                    return Some(mk(out));
                }
                if has_cont_e(ie) {
                    return None;
                }
                out.push(st.clone());
            }
            Stmt::Expr(Expr::Match(m), _) if has_cont_e(&Expr::Match(m.clone())) => {
                if !rest().stmts.is_empty() && m.arms.iter().filter(|a| !has_cont_e(&a.body)).count() != 1 {
                    return None;
                }
                let mut m2 = m.clone();
                for a in &mut m2.arms {
                    let body: Block = match &*a.body {
                        Expr::Block(x) => x.block.clone(),
                        o => parse_quote!({ #o; }),
                    };
                    let mut nb = body.clone();
                    if ends_cont(&body) || rest().stmts.is_empty() {
                    } else if has_cont_b(&body) {
                        return None;
                    } else {
                        nb.stmts.extend(rest().stmts);
                    }
                    let nb = uncont(&nb)?;
                    a.body = parse_quote!(#nb);
                }
                out.push(Stmt::Expr(Expr::Match(m2), None));
                return Some(mk(out));
            }
            other => {
                let mut h = HasCont(false);
                h.visit_stmt(other);
                if h.0 {
                    return None;
                }
                out.push(other.clone());
            }
        }
    }
    Some(mk(out))
}

struct SelfSubst(Expr);
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}

impl<'a> Rewriter<'a> {
    fn candidate(&self, name: &str, is_method: bool) -> Option<FnSrc> {
        if self.cfg.known.contains(name) || self.inline_depth > 4 {
            return None;
        }
        let v = self.fns.get(name)?;
        let v: Vec<_> = v
            .iter()
            .filter(|f| f.sig.receiver().is_some() == is_method)
            .filter(|f| self.cfg.inline_files.contains(&f.file))
            .collect();
        let mut lines: Vec<_> = v.iter().map(|f| (f.file.clone(), f.line)).collect();
        lines.sort();
        lines.dedup();
        if lines.len() != 1 {
            return None;
        }
        Some(v[0].clone())
    }
    /// R12: inline a helper that has no contract of its own.
    fn try_inline(&mut self, f: &FnSrc, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if !f.sig.generics.params.iter().all(|g| matches!(g, GenericParam::Lifetime(_))) {
            return None;
        }
        let mut body = untail(&f.block)?;
        if has_ret_b(&body) {
            return None;
        }
        if let Some(r) = recv {
            if !simple_place(r) {
                return None;
            }
            SelfSubst(r.clone()).visit_block_mut(&mut body);
        }
        let params: Vec<(Pat, Type)> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        for ((p, t), a) in params.into_iter().zip(args) {
            // a `&mut T` parameter given a plain identifier of the same name is left alone
            let isref = matches!(&t, Type::Reference(r) if r.mutability.is_some());
            if isref {
                if let (Pat::Ident(pi), Expr::Path(ap)) = (&p, &a) {
                    if ap.path.is_ident(&pi.ident) {
                        continue;
                    }
                }
                return None;
            }
            if let (Pat::Ident(pi), Expr::Path(ap)) = (&p, &a) {
                if ap.path.is_ident(&pi.ident) && pi.mutability.is_none() {
                    continue;
                }
            }
            self.fresh += 1;
            let tmp = quote::format_ident!("vx_arg_{}", self.fresh);
            stmts.push(parse_quote!(let #tmp = #a;));
            let _ = &t;
            binds.push(parse_quote!(let #p = #tmp;));
        }
        stmts.extend(binds);
        stmts.extend(body.stmts);
        self.inlined.push(format!("{} into {}", f.name, self.fnname));
        self.hit("R12-inline-helper");
        Some(Expr::Block(ExprBlock {
            attrs: vec![],
            label: None,
            block: Block { brace_token: Default::default(), stmts },
        }))
    }

    fn panic_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let c = args.first()?.clone();
                self.hit("R2-panic-macro");
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let a = args.get(0)?.clone();
                let b = args.get(1)?.clone();
                self.hit("R2-panic-macro");
                Some(parse_quote!(vx_assert((#a) == (#b))))
            }
            "unreachable" | "todo" | "panic" | "unimplemented" => {
                self.hit("R2-panic-macro");
                Some(parse_quote!(vx_unreachable()))
            }
            "format" => {
                if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() {
                        if let Some((_, f)) = self.cfg.formats.iter().find(|(a, _)| *a == l.value()) {
                            let fid: Path = parse_str(f).unwrap();
                            let rest: Vec<Expr> = args.iter().skip(1).cloned().collect();
                            self.hit("R3-format");
                            return Some(parse_quote!(#fid(#(&#rest),*)));
                        }
                    }
                }
                self.hit("R3-format");
                Some(parse_quote!(vx_format()))
            }
            "select" => {
                // R24: `select! { recv(a) -> x => e, .. }` as a match on which channel was taken from
                let f = |input: syn::parse::ParseStream| -> syn::Result<(Vec<Expr>, Vec<(Pat, Expr)>)> {
                    let (mut chans, mut arms) = (vec![], vec![]);
                    while !input.is_empty() {
                        let k: Ident = input.parse()?;
                        if k != "recv" {
                            return Err(input.error("recv"));
                        }
                        let c;
                        parenthesized!(c in input);
                        chans.push(c.parse::<Expr>()?);
                        input.parse::<Token![->]>()?;
                        let p = Pat::parse_single(input)?;
                        input.parse::<Token![=>]>()?;
                        let x: Expr = input.parse()?;
                        let _ = input.parse::<Option<Token![,]>>()?;
                        arms.push((p, x));
                    }
                    Ok((chans, arms))
                };
                let (chans, arms) = syn::parse::Parser::parse2(f, m.tokens.clone()).ok()?;
                let arms: Vec<Arm> = arms
                    .into_iter()
                    .enumerate()
                    .map(|(i, (p, x))| {
                        let v = quote::format_ident!("C{}", i);
                        parse_quote!(VxPick::#v(#p) => #x,)
                    })
                    .collect();
                self.hit("R24-select");
                Some(parse_quote!(match vx_select(self, #(&#chans),*) { #(#arms)* }))
            }
            "matches" => {
                // matches!(e, pat [if g])
                let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let mut i = 0;
                while i < toks.len() {
                    if let TokenTree::Punct(p) = &toks[i] {
                        if p.as_char() == ',' {
                            break;
                        }
                    }
                    i += 1;
                }
                let e: TokenStream = toks[..i].iter().cloned().collect();
                let p: TokenStream = toks[i + 1..].iter().cloned().collect();
                let ps = p.to_string();
                let p: TokenStream = if ps.trim_end().ends_with(',') {
                    let v: Vec<TokenTree> = p.into_iter().collect();
                    v[..v.len() - 1].iter().cloned().collect()
                } else {
                    p
                };
                self.hit("R4-matches");
                syn::parse2(quote!(match #e { #p => true, _ => false })).ok()
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = squash(&ts_str(t));
        for (a, b) in &self.cfg.retype {
            if squash(a) == s {
                *t = parse_str::<Type>(b).expect("retype");
                self.hit("R9-type");
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Macro(m) = p {
            if let Some(v) = self.tmac(&m.mac) {
                let id: Path = parse_str(&v).unwrap();
                *p = parse_quote!(#id);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop nested fns, `use`, logging macros; local consts become lets
        let mut out = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Enum(_)) | Stmt::Item(Item::Struct(_)) | Stmt::Item(Item::Impl(_)) => {
                    self.hit("R5-hoist-nested-fn");
                }
                Stmt::Item(Item::Use(_)) => {
                    self.hit("R8-module-path");
                }
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    self.hit("R6-local-const");
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if self.cfg.drop_macros.contains(&n) {
                        self.dropped.insert(format!("{n}!"));
                        self.hit("R7-drop-logging");
                    } else {
                        let semi = m.semi_token;
                        out.push(Stmt::Expr(
                            Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }),
                            semi.or(Some(Default::default())),
                        ));
                        if semi.is_none() && !matches!(n.as_str(), "unreachable" | "todo" | "panic" | "matches" | "format" | "unimplemented" | "select") {
                            // block-like macro in statement position
                        } else if semi.is_none() {
                            if let Some(Stmt::Expr(_, s)) = out.last_mut() {
                                *s = None;
                            }
                        }
                    }
                }
                o => out.push(o),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R22: `match s { P if g => a, _ => b }` as `match s { P => if g { a } else { b }, _ => b }`: the verifier loses
        // what is known after an arm with a guard whose body writes what is matched
        if let Expr::Match(m) = e {
            let n = m.arms.len();
            if n >= 2 && m.arms[n - 2].guard.is_some() && m.arms[n - 1].guard.is_none() && matches!(m.arms[n - 1].pat, Pat::Wild(_)) {
                let (_, g) = m.arms[n - 2].guard.take().unwrap();
                let (a, b) = (&m.arms[n - 2].body, &m.arms[n - 1].body);
                let x: Expr = parse_quote!(if #g { #a } else { #b });
                m.arms[n - 2].body = Box::new(x);
                self.hit("R22-guard");
            }
        }
        // R23: `a != b` as `!(a == b)`, where the unit asks for it (//@ne)
        if self.cfg.ne {
            if let Expr::Binary(ExprBinary { left, op: BinOp::Ne(_), right, .. }) = e {
                let x: Expr = parse_quote!(!(#left == #right));
                *e = x;
                self.hit("R23-ne");
            }
        }
        // R20: `&x` in a pattern binds x by reference and copies it on entry to the arm
        {
            let mut names = vec![];
            match e {
                Expr::While(ExprWhile { cond, body, .. }) => {
                    if let Expr::Let(l) = &mut **cond {
                        unref(&mut l.pat, &mut names);
                        deref_stmts(body, &names);
                    }
                }
                Expr::If(ExprIf { cond, then_branch, .. }) => {
                    if let Expr::Let(l) = &mut **cond {
                        unref(&mut l.pat, &mut names);
                        deref_stmts(then_branch, &names);
                    }
                }
                Expr::ForLoop(l) => {
                    unref(&mut l.pat, &mut names);
                    deref_stmts(&mut l.body, &names);
                }
                Expr::Match(m) => {
                    for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                        let mut names = vec![];
                        unref(&mut a.pat, &mut names);
                        if !names.is_empty() {
                            let x = &a.body;
                            let mut b: Block = parse_quote!({ #x });
                            deref_stmts(&mut b, &names);
                            a.body = Box::new(parse_quote!(#b));
                            self.hit("R20-ref-pattern");
                        }
                    }
                }
                _ => {}
            }
            if !names.is_empty() {
                self.hit("R20-ref-pattern");
            }
        }
        // R19: a constant whose value is computed by a function without a const version under the verifier
        if let Expr::Path(p) = e {
            let l = p.path.segments.last().unwrap().ident.to_string();
            if self.cfg.const_fns.contains(&l)
                && p.path.segments.iter().rev().skip(1).all(|s| self.cfg.strip.contains(&s.ident.to_string()))
            {
                *e = parse_str::<Expr>(&format!("vx_const_{l}()")).unwrap();
                self.hit("R19-const-fn");
                return;
            }
        }
        // text substitution rules (whole-expression, token-exact), per unit
        if !self.cfg.substs.is_empty() {
            let s = squash(&ts_str(e));
            for (a, b, sc) in &self.cfg.substs {
                if squash(a) == s && self.fnname.starts_with(sc.as_str()) {
                    *e = parse_str::<Expr>(b).expect("subst");
                    self.hit("R13-subst");
                    break;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if self.cfg.fnparams.contains(&m.method.to_string()) {
                if let Some(t) = m.turbofish.as_mut().filter(|t| !matches!(t.args.last(), Some(GenericArgument::Type(Type::Infer(_))))) {
                    t.args.push(parse_quote!(_));
                    self.hit("R21-fn-pointer-param");
                }
            }
        }
        // macros
        if let Expr::Macro(m) = e {
            if let Some(v) = self.tmac(&m.mac) {
                let id: Path = parse_str(&v).unwrap();
                *e = parse_quote!(#id);
                return;
            }
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if self.cfg.drop_macros.contains(&n) {
                self.dropped.insert(format!("{n}!"));
                self.hit("R7-drop-logging");
                *e = parse_quote!(());
                return;
            }
            if let Some(x) = self.panic_macro(&m.mac) {
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::ForLoop(f) = e {
            if has_cont_b(&f.body) {
                if let Some(b) = uncont(&f.body) {
                    f.body = b;
                    self.hit("R14-for-continue");
                }
            }
        }
        // loops: number in source (pre-)order
        match e {
            Expr::While(ExprWhile { body, .. })
            | Expr::Loop(ExprLoop { body, .. })
            | Expr::ForLoop(ExprForLoop { body, .. }) => {
                let k = self.loops;
                self.loops += 1;
                let spec = self.contract.loops.get(&k).cloned();
                self.loop_specs.push(spec.clone());
                let anchors: Vec<(String, String)> = self.contract.ats.clone();
                let mut pre = vec![];
                let mut post = vec![];
                for (a, t) in &anchors {
                    if *a == format!("loopstart {k}") {
                        pre.push(t.clone());
                    }
                    if *a == format!("loopend {k}") {
                        post.push(t.clone());
                    }
                }
                let body: &mut Block = body;
                for t in pre.into_iter().rev() {
                    let s = self.marker_stmt(t);
                    body.stmts.insert(0, s);
                }
                if !post.is_empty() {
                    if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    for t in post {
                        let s = self.marker_stmt(t);
                        body.stmts.push(s);
                    }
                }
                let id = quote::format_ident!("__vx_loop_{}", k);
                body.stmts.insert(0, parse_quote!( #id!(); ));
                // R16: a `for` over an iterator, spelt out as the loop it stands for
                if let (Expr::ForLoop(_), Some((Some(itn), _))) = (&*e, &spec) {
                    if let Some(n) = itn.strip_prefix('!') {
                        self.hit("R16-for-next");
                        visit_mut::visit_expr_mut(self, e);
                        let g = n.split(':').next().unwrap();
                        let ghost = self.marker_stmt(format!("let ghost {g}_all = {g}.rest();\n"));
                        if let Expr::ForLoop(f) = &*e {
                            let (n, conv) = n.split_once(':').unwrap_or((n, ""));
                            let it = quote::format_ident!("{}", n);
                            let (x, p, b) = (&f.expr, &f.pat, &f.body);
                            let x: Expr = if conv.is_empty() { (**x).clone() } else { let c = quote::format_ident!("{}", conv); parse_quote!(#c(#x)) };
                            let w: Expr = parse_quote!({ let mut #it = #x; #ghost while let Some(#p) = #it.next() #b });
                            *e = w;
                        }
                        return;
                    }
                }
                if let (Expr::ForLoop(f), Some((Some(itn), _))) = (&mut *e, spec) {
                    let it = quote::format_ident!("__vx_iter_{}", itn);
                    let x = &f.expr;
                    f.expr = Box::new(parse_quote!(#it(#x)));
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            _ => {}
        }
        // method chains -> shims
        if let Expr::MethodCall(_) = e {
            let mut chain: Vec<(String, Vec<Expr>)> = vec![];
            let mut cur: Expr = e.clone();
            let mut matched = None;
            let max = self.cfg.shims.iter().map(|s| s.0.len()).max().unwrap_or(0);
            let mut recvs = vec![];
            while let Expr::MethodCall(m) = &cur {
                chain.insert(0, (m.method.to_string(), m.args.iter().cloned().collect()));
                let r = (*m.receiver).clone();
                recvs.insert(0, r.clone());
                for (pat, f, auto, arity, sc) in &self.cfg.shims {
                    let total: usize = chain.iter().map(|c| c.1.len()).sum();
                    if pat.len() == chain.len()
                        && pat.iter().zip(&chain).all(|(a, b)| *a == b.0)
                        && arity.map_or(true, |a| a == total)
                        && self.fnname.starts_with(sc.as_str())
                    {
                        matched = Some((f.clone(), auto.clone(), chain.clone(), r.clone()));
                    }
                }
                if chain.len() >= max {
                    break;
                }
                cur = r;
            }
            if let Some((f, auto, chain, recv)) = matched {
                self.hit("R10-std-shim");
                let fid: Path = parse_str(&f).unwrap();
                let mut args: Vec<Expr> = vec![];
                let r: Expr = match auto.as_str() {
                    "&" => parse_quote!(&#recv),
                    "&mut" => parse_quote!(&mut #recv),
                    _ => recv,
                };
                args.push(r);
                let last = chain.last().unwrap().0.clone();
                for (_, a) in chain {
                    args.extend(a);
                }
                let mut call: ExprCall = parse_quote!(#fid(#(#args),*));
                self.method_stack.push(last);
                for a in call.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.method_stack.pop();
                *e = Expr::Call(call);
                return;
            }
        }
        // path calls -> shims
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = squash(&ts_str(&p.path));
                for (a, b) in &self.cfg.shimfns {
                    if *a == s {
                        let np: Path = parse_str(b).unwrap();
                        self.hit("R10-std-shim");
                        c.func = Box::new(parse_quote!(#np));
                        break;
                    }
                }
            }
        }
        // `&mut x[a..]` and `x[a..b]` of slices
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        if self.cfg.sliceindex.contains(&squash(&ts_str(&ix.expr))) {
                            if let (Some(s), None) = (&rg.start, &rg.end) {
                                let b = &ix.expr;
                                *e = parse_quote!(vx_sl_from_mut(#b, #s));
                                self.hit("R11-str-slice");
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = &*ix.index {
                if self.cfg.sliceindex.contains(&squash(&ts_str(&ix.expr))) && matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    let b = &ix.expr;
                    let ne: Option<Expr> = match (&r.start, &r.end) {
                        (Some(s), None) => Some(parse_quote!(*vx_sl_from(#b, #s))),
                        (None, Some(t)) => Some(parse_quote!(*vx_sl_to(#b, #t))),
                        (Some(s), Some(t)) => Some(parse_quote!(*vx_sl_range(#b, #s, #t))),
                        _ => None,
                    };
                    if let Some(ne) = ne {
                        self.hit("R11-str-slice");
                        *e = ne;
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        // string slicing
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = &*ix.index {
                let recv = squash(&ts_str(&ix.expr));
                let vec = self.cfg.vecindex.iter().any(|s| *s == recv);
                let on = self.cfg.strindex.iter().any(|s| s == "all" || *s == recv) || vec;
                if on && matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    self.hit("R11-str-slice");
                    let b = &ix.expr;
                    let ne: Expr = match (&r.start, &r.end) {
                        (Some(s), None) if vec => parse_quote!(*vx_slice_from(&#b, #s)),
                        (None, Some(t)) if vec => parse_quote!(*vx_slice_to(&#b, #t)),
                        (Some(s), Some(t)) if vec => parse_quote!(*vx_slice_range(&#b, #s, #t)),
                        (Some(s), None) => parse_quote!(*vx_str_from(&#b, #s)),
                        (None, Some(t)) => parse_quote!(*vx_str_to(&#b, #t)),
                        (Some(s), Some(t)) => parse_quote!(*vx_str_range(&#b, #s, #t)),
                        (None, None) => parse_quote!(*vx_str_full(&#b)),
                    };
                    *e = ne;
                    visit_mut::visit_expr_mut(self, e);
                    // `& *f(..)` stays valid Rust
                    return;
                }
            }
        }
        // closures
        if let Expr::Closure(c) = e {
            let m = self.method_stack.last().cloned().unwrap_or_default();
            let nth = *self.closure_count.entry(m.clone()).and_modify(|k| *k += 1).or_insert(0);
            let numbered = self.cfg.closures.get(&format!("{}/{m}#{nth}", self.fnname)).or_else(|| self.cfg.closures.get(&format!("{m}#{nth}")));
            let shaped = if numbered.is_some() { numbered } else if matches!(c.inputs.first(), Some(Pat::Tuple(_))) { self.cfg.closures.get(&format!("{m}/tuple")) } else { None };
            if let Some((ptys, rty)) = shaped.or_else(|| self.cfg.closures.get(&m)).cloned() {
                let c = c.clone();
                let mut top = (*c.body).clone();
                self.visit_expr_mut(&mut top);
                let mut plist = vec![];
                let mut lets = String::new();
                let mut ok = true;
                for (i, pp) in c.inputs.iter().enumerate() {
                    let ty = ptys.get(i).cloned().unwrap_or("_".into());
                    let (pat, ty) = match pp {
                        Pat::Type(t) => ((*t.pat).clone(), if ty == "_" { ts_str(&t.ty) } else { ty }),
                        o => (o.clone(), ty),
                    };
                    match pat {
                        Pat::Ident(pi) => plist.push(format!("{}: {}", pi.ident, ty)),
                        Pat::Reference(r) => {
                            let inner = ts_str(&r.pat);
                            let nm = format!("vx_cp{i}");
                            let _ = write!(lets, "let {inner} = *{nm}; ");
                            plist.push(format!("{nm}: {ty}"));
                        }
                        Pat::Tuple(t) => {
                            // |(a, b)| over a tuple type
                            let nm = format!("vx_cp{i}");
                            let inner = ts_str(&t);
                            let _ = write!(lets, "let {inner} = {nm}; ");
                            plist.push(format!("{nm}: {ty}"));
                        }
                        Pat::Wild(_) => plist.push(format!("vx_cp{i}: {ty}")),
                        _ => ok = false,
                    }
                }
                if !ok {
                    self.err = Some("closure pattern".into());
                }
                let body = print_tokens(&top.to_token_stream(), self, 2);
                // RET [requires E] [ensures E]: $0, $1 stand for the parameters
                let names: Vec<String> = plist.iter().map(|p| p.split(':').next().unwrap().trim().to_string()).collect();
                let fill = |t: &str| {
                    let mut t = t.to_string();
                    for (i, n) in names.iter().enumerate() {
                        t = t.replace(&format!("${i}"), n);
                    }
                    t
                };
                let (rty, ens) = match rty.split_once(" ensures ") {
                    Some((a, b)) => (a.to_string(), format!("ensures {} ", fill(b))),
                    None => (rty, String::new()),
                };
                let (rty, req) = match rty.split_once(" requires ") {
                    Some((a, b)) => (a.to_string(), format!("requires {} ", fill(b))),
                    None => (rty, String::new()),
                };
                let mv = if c.capture.is_some() { "move " } else { "" };
                let text = if rty.starts_with('!') || !ens.is_empty() {
                    // no automatic ensures: type only
                    format!("{mv}|{}| -> (vx_r: {}) {req}{ens}{{ {lets} {body} }}", plist.join(", "), rty.trim_start_matches('!'))
                } else {
                    format!(
                        "{mv}|{}| -> (vx_r: {rty}) {req}ensures vx_r == ({{ {lets} {body} }}) {{ {lets} {body} }}",
                        plist.join(", ")
                    )
                };
                self.hit("R5-closure-ensures");
                *e = self.marker_expr(text);
                return;
            }
        }
        // inlining
        let inl = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let mut pp = p.path.clone();
                    let (cfg, mut n) = (self.cfg, 0);
                    while n + 1 < pp.segments.len() && cfg.strip.contains(&pp.segments[n].ident.to_string()) {
                        n += 1;
                    }
                    pp.segments = pp.segments.iter().skip(n).cloned().collect();
                    let single = pp.segments.len() == 1
                        || (pp.segments.len() == 2 && pp.segments[0].ident == "Self");
                    if single {
                        let nm = pp.segments.last().unwrap().ident.to_string();
                        self.candidate(&nm, false)
                            .and_then(|f| self.try_inline(&f, None, c.args.iter().cloned().collect()))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let nm = m.method.to_string();
                self.candidate(&nm, true)
                    .and_then(|f| self.try_inline(&f, Some(&m.receiver), m.args.iter().cloned().collect()))
            }
            _ => None,
        };
        if let Some(x) = inl {
            *e = x;
            self.inline_depth += 1;
            self.visit_expr_mut(e);
            self.inline_depth -= 1;
            return;
        }
        // paths to renamed locals are handled in contract text, not code
        if let Expr::MethodCall(m) = e {
            let nm = m.method.to_string();
            self.visit_expr_mut(&mut m.receiver);
            self.method_stack.push(nm);
            for a in m.args.iter_mut() {
                self.visit_expr_mut(a);
            }
            self.method_stack.pop();
            if let Some(t) = &mut m.turbofish {
                self.visit_angle_bracketed_generic_arguments_mut(t);
            }
            return;
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let nm = p.path.segments.last().unwrap().ident.to_string();
                self.method_stack.push(nm);
                visit_mut::visit_expr_mut(self, e);
                self.method_stack.pop();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
// ---------------------------------------------------------------- printing
fn print_tokens(ts: &TokenStream, rw: &Rewriter, ind: usize) -> String {
    let mut s = String::new();
    pt(ts.clone(), rw, ind, &mut s);
    s
}
fn nl(ind: usize, s: &mut String) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}
fn pt(ts: TokenStream, rw: &Rewriter, ind: usize, s: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) => {
                let t = id.to_string();
                if let Some(k) = t.strip_prefix("__vx_ins_") {
                    let k: usize = k.parse().unwrap();
                    s.push_str(&rw.inserts[k]);
                    s.push(' ');
                    i += 3; // ident ! ()
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ';' && rw.inserts[k].ends_with('\n') {
                            i += 1; // statement marker
                        }
                    }
                    continue;
                }
                if let Some(n) = t.strip_prefix("__vx_iter_") {
                    s.push_str(n);
                    s.push_str(": ");
                    if let TokenTree::Group(g) = &v[i + 1] {
                        pt(g.stream(), rw, ind, s);
                    }
                    i += 2;
                    continue;
                }
                s.push_str(&t);
                s.push(' ');
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    nl(ind, s);
                } else if p.spacing() == Spacing::Alone && p.as_char() != '\'' {
                    s.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut skip = 0;
                    if let Some(TokenTree::Ident(id)) = inner.first() {
                        if let Some(k) = id.to_string().strip_prefix("__vx_loop_") {
                            let k: usize = k.parse().unwrap();
                            if let Some(Some((_, spec))) = rw.loop_specs.get(k) {
                                s.push_str("\n");
                                s.push_str(&rw_subst(spec, &rw.subst));
                                s.push('\n');
                            }
                            skip = 4;
                        }
                    }
                    s.push('{');
                    nl(ind + 1, s);
                    let st: TokenStream = inner.into_iter().skip(skip).collect();
                    pt(st, rw, ind + 1, s);
                    nl(ind, s);
                    s.push('}');
                    nl(ind, s);
                }
                d => {
                    let (o, c) = match d {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    s.push_str(o);
                    pt(g.stream(), rw, ind, s);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            },
        }
        i += 1;
    }
}

fn rw_subst(s: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let mut cur = String::new();
    for ch in s.chars().chain(std::iter::once('\0')) {
        if ch.is_alphanumeric() || ch == '_' {
            cur.push(ch);
        } else {
            if !cur.is_empty() {
                out.push_str(m.get(&cur).unwrap_or(&cur));
                cur.clear();
            }
            if ch != '\0' {
                out.push(ch);
            }
        }
    }
    out
}

// locals in binding order
struct Locals(Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item_fn(&mut self, _: &'ast ItemFn) {}
}
use syn::visit;

fn locals_of(f: &FnSrc) -> Vec<String> {
    let mut l = Locals(vec![]);
    for a in &f.sig.inputs {
        l.visit_fn_arg(a);
    }
    l.visit_block(&f.block);
    l.0
}

/// the last name of a receiver: `c` of `a.b.c`
fn last_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Field(f) => Some(f.member.to_token_stream().to_string()),
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Reference(r) => last_name(&r.expr),
        Expr::Paren(r) => last_name(&r.expr),
        _ => None,
    }
}
/// `name` is a method or function, or `receiver.method`
fn contains_call(st: &Stmt, name: &str) -> bool {
    if name.contains('|') {
        return name.split('|').any(|n| contains_call(st, n));
    }
    struct C<'x>(&'x str, bool);
    impl<'ast, 'x> Visit<'ast> for C<'x> {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            let (recv, name) = match self.0.split_once('.') {
                Some((r, n)) => (Some(r), n),
                None => (None, self.0),
            };
            if m.method == name && recv.map_or(true, |r| last_name(&m.receiver).as_deref() == Some(r)) {
                self.1 = true;
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == self.0 {
                    self.1 = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
        // do not look into nested blocks: the innermost statement is the anchor
        fn visit_block(&mut self, _: &'ast Block) {}
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    let mut c = C(name, false);
    c.visit_stmt(st);
    c.1
}
/// insert proof text before/after the k-th innermost statement containing a call to `name`
struct CallAnchor<'x> {
    name: &'x str,
    k: usize,
    seen: usize,
    before: bool,
    marker: Stmt,
    done: bool,
    tail_after: bool,
}
impl<'x> VisitMut for CallAnchor<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            if contains_call(&b.stmts[i], self.name) {
                if self.seen == self.k {
                    self.done = true;
                    let is_tail = i + 1 == b.stmts.len() && matches!(b.stmts[i], Stmt::Expr(_, None));
                    if self.before {
                        b.stmts.insert(i, self.marker.clone());
                    } else if is_tail {
                        self.tail_after = true;
                        // bind the tail value
                        if let Stmt::Expr(e, None) = &b.stmts[i] {
                            let e = e.clone();
                            b.stmts[i] = parse_quote!(let vx_tail = #e;);
                            b.stmts.push(self.marker.clone());
                            b.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
                        }
                    } else {
                        b.stmts.insert(i + 1, self.marker.clone());
                    }
                    return;
                }
                self.seen += 1;
            }
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            i += 1;
        }
    }
}

fn emit_fn(
    f: &FnSrc,
    c: &Contract,
    cfg: &Config,
    fns: &HashMap<String, Vec<FnSrc>>,
    rep: &mut Report,
) -> R<String> {
    let mut subst = HashMap::new();
    if let Some(base) = &c.locals {
        let cur = locals_of(f);
        let missing = base.iter().any(|b| !cur.contains(b));
        if missing {
            if cur.len() == base.len() {
                for (a, b) in base.iter().zip(&cur) {
                    if a != b {
                        subst.insert(a.clone(), b.clone());
                    }
                }
            } else {
                // try: names of base that are missing matched against new names in order
                let miss: Vec<_> = base.iter().filter(|b| !cur.contains(b)).cloned().collect();
                let new: Vec<_> = cur.iter().filter(|b| !base.contains(b)).cloned().collect();
                let (mut m2, mut n2) = (miss.clone(), new.clone());
                m2.dedup();
                n2.dedup();
                if m2.len() == n2.len() {
                    for (a, b) in m2.iter().zip(&n2) {
                        subst.insert(a.clone(), b.clone());
                    }
                }
            }
        }
    }
    let mut rw = Rewriter {
        cfg,
        rules: BTreeMap::new(),
        dropped: BTreeSet::new(),
        inserts: vec![],
        loops: 0,
        loop_specs: vec![],
        contract: c,
        err: None,
        method_stack: vec![],
        subst,
        fns,
        inline_depth: 0,
        inlined: vec![],
        fresh: 0,
        fnname: c.target.clone(),
        closure_count: HashMap::new(),
    };
    let mut block = f.block.clone();
    // R17: a parameter that is a pattern becomes vx_pN, taken apart on entry
    let mut sig = f.sig.clone();
    let mut binds: Vec<Stmt> = vec![];
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        // R18: `mut self` becomes `self`, moved into the variable `vx_self` on entry
        if let FnArg::Receiver(r) = a {
            if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
                r.mutability = None;
                if let Type::Path(_) = &*r.ty {
                    r.ty = parse_quote!(Self);
                }
                if let Ok(b) = parse2::<Block>(rename_self(block.to_token_stream())) {
                    block = b;
                }
                binds.push(parse_quote!(let mut vx_self = self;));
                *rep.rules.entry("R18-mut-self".to_string()).or_default() += 1;
            }
        }
        if let FnArg::Typed(t) = a {
            if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) {
                let id = quote::format_ident!("vx_p{}", k);
                match &*t.pat {
                    Pat::Reference(r) => { let p = &r.pat; binds.push(parse_quote!(let #p = *#id;)); }
                    p => binds.push(parse_quote!(let #p = #id;)),
                }
                *t.pat = parse_quote!(#id);
                *rep.rules.entry("R17-pattern-param".to_string()).or_default() += 1;
            }
        }
    }
    for (k, st) in binds.into_iter().enumerate() {
        block.stmts.insert(k, st);
    }
    let bare;
    let c = if c.proved_in.is_some() {
        block = parse_quote!({});
        bare = Contract { ats: vec![], loops: BTreeMap::new(), nloops: Some(0), ..c.clone() };
        rw.contract = &bare;
        &bare
    } else {
        c
    };
    if c.proved_in.is_none() && std::env::var("VX_CANARY").is_ok() {
        // vacuity check: `false` must not be provable on entry
        let m = rw.marker_stmt("proof { assert(false); }\n".to_string());
        block.stmts.insert(0, m);
    }
    // anchors on calls, on the original code
    let mut after_loop: Vec<(usize, String)> = vec![];
    for (a, t) in &c.ats {
        let w: Vec<&str> = a.split_whitespace().collect();
        let t = format!("{}\n", rw_subst(t, &rw.subst));
        match w[0] {
            "before_call" | "after_call" => {
                let k: usize = w.get(2).map_or(0, |x| x.parse().unwrap());
                let marker = rw.marker_stmt(t);
                let mut ca = CallAnchor {
                    name: w[1],
                    k,
                    seen: 0,
                    before: w[0] == "before_call",
                    marker,
                    done: false,
                    tail_after: false,
                };
                ca.visit_block_mut(&mut block);
                if !ca.done && !w.contains(&"optional") {
                    return lost(format!("{}: no call #{k} to `{}` to anchor a proof hint", c.target, w[1]));
                }
            }
            "start" => {
                let m = rw.marker_stmt(t);
                block.stmts.insert(0, m);
            }
            "end" => {
                let m = rw.marker_stmt(t);
                let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
                let tail_block = match block.stmts.last() {
                    Some(Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), None)) => true,
                    _ => false,
                };
                if tail && !tail_block {
                    if c.opts.contains("bindtail") {
                        if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                            block.stmts.push(parse_quote!(let vx_tail = #e;));
                            block.stmts.push(m);
                            block.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
                        }
                    } else {
                        let n = block.stmts.len();
                        block.stmts.insert(n - 1, m);
                    }
                } else {
                    block.stmts.push(m);
                }
            }
            "loopstart" | "loopend" => {}
            "afterloop" => {
                after_loop.push((w[1].parse().unwrap(), t));
            }
            o => return lost(format!("bad anchor {o}")),
        }
    }
    // afterloop anchors
    for (k, t) in after_loop {
        struct AL {
            k: usize,
            seen: usize,
            m: Stmt,
            done: bool,
        }
        fn is_loop(e: &Expr) -> bool {
            matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_))
        }
        impl VisitMut for AL {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut i = 0;
                while i < b.stmts.len() && !self.done {
                    let hit = matches!(&b.stmts[i], Stmt::Expr(e, _) if is_loop(e))
                        || matches!(&b.stmts[i], Stmt::Local(l) if l.init.as_ref().map_or(false, |x| is_loop(&x.expr)));
                    if hit {
                        let here = self.seen == self.k;
                        self.seen += 1;
                        if here {
                            self.done = true;
                            b.stmts.insert(i + 1, self.m.clone());
                            return;
                        }
                    }
                    visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                    i += 1;
                }
            }
        }
        let m = rw.marker_stmt(t);
        let mut al = AL { k, seen: 0, m, done: false };
        al.visit_block_mut(&mut block);
        if !al.done {
            return lost(format!("{}: no loop {k}", c.target));
        }
    }
    let mut ats = c.ats.clone();
    for (a, t) in &mut ats {
        if a.starts_with("loopstart") || a.starts_with("loopend") {
            *t = format!("{}\n", rw_subst(t, &rw.subst));
        }
    }
    let c2 = Contract { ats, ..c.clone() };
    rw.contract = &c2;
    rw.visit_block_mut(&mut block);
    if let Some(e) = rw.err.take() {
        return lost(format!("{}: {e}", c.target));
    }
    let want = c.loops.keys().max().map_or(0, |k| k + 1);
    let want = c.nloops.unwrap_or(want);
    if rw.loops != want {
        return lost(format!(
            "{}: the function has {} loops now, its contract has invariants for {}",
            c.target, rw.loops, want
        ));
    }
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => {
                t.attrs.clear();
                rw.visit_type_mut(&mut t.ty)
            }
            FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        rw.visit_type_mut(t);
    }
    // R21: a function pointer parameter is a parameter of any type callable so
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Type::BareFn(bf) = &*t.ty {
                let id = quote::format_ident!("VxF{}", k);
                let ins: Vec<Type> = bf.inputs.iter().map(|x| x.ty.clone()).collect();
                let out = &bf.output;
                let gp: GenericParam = parse_quote!(#id: Fn(#(#ins),*) #out);
                sig.generics.params.push(gp);
                *t.ty = parse_quote!(#id);
                rw.hit("R21-fn-pointer-param");
            }
        }
    }
    if let Some(b) = &c.bounds {
        // the bounds of type parameters, as the contract file states them
        if let Some(w) = &sig.generics.where_clause {
            rw.dropped.insert(format!("bounds of {}: {}", c.target, w.to_token_stream()));
        }
        sig.generics.where_clause = if b.is_empty() { None } else { Some(parse_str(&format!("where {b}")).map_err(|e| Lost(format!("{b}: {e}")))?) };
    }
    let name = c.rename.clone().unwrap_or(f.name.clone());
    let mut s = String::new();
    for a in &c.attrs {
        let _ = writeln!(s, "{a}");
    }
    let gens = print_tokens(&sig.generics.params.to_token_stream(), &rw, 0);
    let gens = if gens.trim().is_empty() { String::new() } else { format!("<{gens}>") };
    let inputs = print_tokens(&sig.inputs.to_token_stream(), &rw, 0);
    let _ = write!(s, "pub fn {name}{gens}({inputs})");
    if let ReturnType::Type(_, t) = &sig.output {
        let _ = write!(s, " -> ({}: {})", if c.ret.is_empty() { "vx_ret" } else { &c.ret }, print_tokens(&t.to_token_stream(), &rw, 0).trim());
    }
    if let Some(w) = &sig.generics.where_clause {
        let _ = write!(s, " {}", print_tokens(&w.to_token_stream(), &rw, 0));
    }
    s.push('\n');
    s.push_str(&rw_subst(&c.spec, &rw.subst));
    s.push('\n');
    if c.proved_in.is_some() {
        s.push_str("{ unimplemented!() }");
        s.insert_str(0, "#[verifier::external_body]\n");
        rep.proved_elsewhere.push((c.target.clone(), c.proved_in.clone().unwrap()));
    } else {
        s.push_str(&print_tokens(&block.to_token_stream(), &rw, 0));
    }
    for (k, v) in rw.rules {
        *rep.rules.entry(k).or_default() += v;
    }
    rep.dropped.extend(rw.dropped);
    rep.inlined.extend(rw.inlined);
    rep.funcs.push((c.target.clone(), f.file.clone(), f.line, rw.loops));
    if c.opts.contains("free") {
        return Ok(s);
    }
    if let Some((g, st)) = &f.impl_generics {
        let mut st2: Type = parse_str(st).unwrap();
        let dummyc = Contract::default();
        let mut rw2 = Rewriter {
            cfg,
            rules: BTreeMap::new(),
            dropped: BTreeSet::new(),
            inserts: vec![],
            loops: 0,
            loop_specs: vec![],
            contract: &dummyc,
            err: None,
            method_stack: vec![],
            subst: HashMap::new(),
            fns,
            inline_depth: 9,
            inlined: vec![],
            fresh: 0,
            fnname: String::new(),
            closure_count: HashMap::new(),
        };
        rw2.visit_type_mut(&mut st2);
        let g = if g.trim().is_empty() { String::new() } else { format!("<{g}>") };
        s = format!("impl{g} {} {{\n{s}\n}}\n", ts_str(&st2));
    }
    Ok(s)
}

fn emit_type(it: &Item, derive: &str, cfg: &Config, spec: &str, rep: &mut Report, opts: &[&str]) -> R<String> {
    let empty = HashMap::new();
    let dc = Contract::default();
    let mut rw = Rewriter {
        cfg,
        rules: BTreeMap::new(),
        dropped: BTreeSet::new(),
        inserts: vec![],
        loops: 0,
        loop_specs: vec![],
        contract: &dc,
        err: None,
        method_stack: vec![],
        subst: HashMap::new(),
        fns: &empty,
        inline_depth: 9,
        inlined: vec![],
        fresh: 0,
        fnname: String::new(),
        closure_count: HashMap::new(),
    };
    let mut it = it.clone();
    let mut head = String::new();
    if !derive.is_empty() {
        head = format!("#[derive({derive})]\n");
    }
    fn clean(f: &mut Field) {
        f.attrs.clear();
        f.vis = parse_quote!(pub);
    }
    let r = match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            s.fields.iter_mut().for_each(clean);
            if let Some(d) = opts.iter().find_map(|o| o.strip_prefix("drop=")) {
                let names: Vec<&str> = d.split(',').collect();
                if let Fields::Named(n) = &mut s.fields {
                    let keep: Vec<Field> = n
                        .named
                        .iter()
                        .filter(|f| !names.contains(&f.ident.as_ref().unwrap().to_string().as_str()))
                        .cloned()
                        .collect();
                    n.named = keep.into_iter().collect();
                    for x in names {
                        rep.dropped.insert(format!("field {}.{}", s.ident, x));
                    }
                }
            }
            rep.types.push(s.ident.to_string());
            rw.visit_item_struct_mut(s);
            if let Some(d) = opts.iter().find_map(|o| o.strip_prefix("ghost=")) {
                // ghost state: name:type (with ~ for spaces)
                let (n, t) = d.split_once(':').unwrap();
                let mut txt = print_tokens(&s.to_token_stream(), &rw, 0);
                let p = txt.rfind('}').unwrap();
                while txt[..p].trim_end().ends_with(',') && false {}
                let before = txt[..p].trim_end().trim_end_matches(',').to_string();
                txt = format!("{before},\n    pub {n}: {}\n}}\n", t.replace('~', " "));
                return Ok(format!("{head}{txt}"));
            }
            print_tokens(&s.to_token_stream(), &rw, 0)
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            rep.types.push(s.ident.to_string());
            rw.visit_item_enum_mut(s);
            print_tokens(&s.to_token_stream(), &rw, 0)
        }
        Item::Type(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            print_tokens(&s.to_token_stream(), &rw, 0)
        }
        Item::Const(k) => {
            k.attrs.clear();
            rw.visit_item_const_mut(k);
            let (n, t, e) = (&k.ident, &k.ty, &k.expr);
            let t = print_tokens(&t.to_token_stream(), &rw, 0);
            let e = print_tokens(&e.to_token_stream(), &rw, 0);
            rep.types.push(n.to_string());
            if opts.contains(&"plain") {
                format!("pub const {n}: {t} = {e};\n")
            } else if opts.contains(&"fn") {
                format!("pub fn vx_const_{n}() -> (r: {t})\n{spec}\n{{ {e} }}\n")
            } else {
                let spec = if spec.trim().is_empty() { "    ensures true,".to_string() } else { spec.to_string() };
                format!("pub exec const {n}: {t}\n{spec}\n{{ {e} }}\n")
            }
        }
        Item::Impl(im) => {
            // an associated constant, as `alias::Type.NAME`
            let name = opts[0].rsplit_once('.').map(|x| x.1).unwrap_or("").to_string();
            let ty = print_tokens(&im.self_ty.to_token_stream(), &rw, 0);
            let k = im.items.iter_mut().find_map(|x| match x { ImplItem::Const(k) if k.ident == name => Some(k), _ => None });
            let Some(k) = k else { return lost("impl const") };
            rw.visit_impl_item_const_mut(k);
            let (t, e) = (print_tokens(&k.ty.to_token_stream(), &rw, 0), print_tokens(&k.expr.to_token_stream(), &rw, 0));
            rep.types.push(name.clone());
            format!("impl {ty} {{ pub const {name}: {t} = {e}; }}\n")
        }
        _ => return lost("unsupported item"),
    };
    if let Some(e) = rw.err {
        return lost(e);
    }
    for (k, v) in rw.rules {
        *rep.rules.entry(k).or_default() += v;
    }
    Ok(format!("{head}{r}\n"))
}

fn parse_tmacro(path: &str, src: &str) -> R<HashMap<String, String>> {
    let f = parse_file(src).map_err(|e| Lost(format!("{path}: {e}")))?;
    let mut m = HashMap::new();
    fn walk(items: &[Item], m: &mut HashMap<String, String>) {
        for it in items {
            match it {
                Item::Macro(mac) if mac.ident.as_ref().map_or(false, |i| i == "T") => {
                    let v: Vec<TokenTree> = mac.mac.tokens.clone().into_iter().collect();
                    let mut i = 0;
                    while i + 3 < v.len() {
                        // [..] = > { $ crate :: SyntaxKind :: X }
                        if let (TokenTree::Group(k), TokenTree::Group(val)) = (&v[i], &v[i + 3]) {
                            let key = squash(&k.stream().to_string());
                            let key = key.trim_matches('\'').to_string();
                            let last = val.stream().into_iter().last().map(|t| t.to_string()).unwrap_or_default();
                            m.insert(key, last);
                        }
                        i += 4;
                        if let Some(TokenTree::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                    }
                }
                Item::Mod(md) => {
                    if let Some((_, its)) = &md.content {
                        walk(its, m)
                    }
                }
                _ => {}
            }
        }
    }
    walk(&f.items, &mut m);
    if m.is_empty() {
        return lost(format!("{path}: no T! macro"));
    }
    Ok(m)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run(tpl: &str, repo: &str, libdir: &str, out: &mut String, rep: &mut Report, map: &mut Vec<(usize, usize, String, String, usize)>) -> R<()> {
    // expand //@include
    fn load(p: &str, libdir: &str, acc: &mut Vec<String>) {
        let src = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
        for l in src.lines() {
            if let Some(x) = l.trim().strip_prefix("//@include ") {
                load(&format!("{libdir}/{}", x.trim()), libdir, acc);
            } else if let Some(x) = l.trim().strip_prefix("//@switch ") {
                // a part of the specification that a property not depending on it leaves out
                let off = std::env::var("VX_OFF").unwrap_or_default();
                acc.push(format!("pub open spec fn {}() -> bool {{ {} }}", x.trim(), !off.split(',').any(|o| o == x.trim())));
            } else {
                acc.push(l.to_string());
            }
        }
    }
    let mut lines = vec![];
    load(tpl, libdir, &mut lines);
    let mut cfg = Config::default();
    let mut files = Files { files: HashMap::new(), order: vec![] };
    // pass 1: configuration and known names
    let mut scope = String::new();
    for l in &lines {
        let t = l.trim();
        if let Some(x) = t.strip_prefix("//@") {
            let w: Vec<&str> = x.split_whitespace().collect();
            match w[0] {
                "file" => {
                    let p = format!("{repo}/{}", w[2]);
                    let src = match std::fs::read_to_string(&p) {
                        Ok(s) => s,
                        Err(e) => return lost(format!("{}: {e}", w[2])),
                    };
                    let mut f = parse_file(&src).map_err(|e| Lost(format!("{}: {e}", w[2])))?;
                    let mut cp = CfgPass { hits: 0 };
                    cp.visit_file_mut(&mut f);
                    if cp.hits > 0 {
                        *rep.rules.entry("R15-cfg".to_string()).or_default() += cp.hits;
                    }
                    files.files.insert(w[1].to_string(), (w[2].to_string(), f));
                    files.order.push(w[1].to_string());
                    if !w.contains(&"noinline") {
                        cfg.inline_files.push(w[2].to_string());
                    }
                }
                "strip" => cfg.strip.extend(w[1..].iter().map(|s| s.to_string())),
                "tmacro" => {
                    let p = format!("{repo}/{}", w[1]);
                    let src = std::fs::read_to_string(&p).map_err(|e| Lost(format!("{p}: {e}")))?;
                    cfg.tmap = parse_tmacro(w[1], &src)?;
                }
                // shims and substitutions that follow apply only inside functions whose target starts so
                "scope" => scope = w[1].to_string(),
                "endscope" => scope.clear(),
                "shim" => {
                    // //@shim .a.b -> f [&|&mut|-] [arity]
                    let chain: Vec<String> = w[1].trim_start_matches('.').split('.').map(|s| s.to_string()).collect();
                    let auto = w.get(4).map_or("", |s| if *s == "-" { "" } else { s }).to_string();
                    let ar = w.get(5).map(|s| s.parse().unwrap());
                    cfg.shims.push((chain, w[3].to_string(), auto, ar, scope.clone()));
                }
                "shimfn" => cfg.shimfns.push((w[1].to_string(), w[3].to_string())),
                "sliceindex" => cfg.sliceindex.extend(w[1..].iter().map(|s| s.to_string())),
                "vecindex" => cfg.vecindex.extend(w[1..].iter().map(|s| s.to_string())),
                "strindex" => cfg.strindex.extend(w[1..].iter().map(|s| s.to_string())),
                "closure" => {
                    // //@closure position |char| bool
                    let rest = x.trim_start()["closure".len()..].trim();
                    let (m, r) = rest.split_once(' ').unwrap();
                    let r = r.trim().strip_prefix('|').unwrap();
                    let (ps, ret) = r.split_once('|').unwrap();
                    cfg.closures.insert(
                        m.to_string(),
                        (ps.split(';').map(|s| s.trim().to_string()).collect(), ret.trim().to_string()),
                    );
                }
                "format" => {
                    let rest = x.trim_start()["format".len()..].trim();
                    let (a, b) = rest.split_once("->").unwrap();
                    cfg.formats.push((a.trim().trim_matches('"').to_string(), b.trim().to_string()));
                }
                "ne" => cfg.ne = true,
                "dropmacro" => cfg.drop_macros.extend(w[1..].iter().map(|s| s.to_string())),
                "retype" => {
                    let rest = x.trim_start()["retype".len()..].trim();
                    let (a, b) = rest.split_once("=>").unwrap();
                    cfg.retype.push((a.trim().to_string(), b.trim().to_string()));
                }
                "subst" => {
                    let rest = x.trim_start()["subst".len()..].trim();
                    let (a, b) = rest.split_once("=>>").unwrap();
                    cfg.substs.push((a.trim().to_string(), b.trim().to_string(), scope.clone()));
                }
                "fn" => {
                    let n = w[1].rsplit("::").next().unwrap();
                    cfg.known.insert(n.to_string());
                }
                "known" => cfg.known.extend(w[1..].iter().map(|s| s.to_string())),
                _ => {}
            }
        } else {
            // names of functions defined by the template itself
            let mut it = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).peekable();
            while let Some(a) = it.next() {
                if a == "fn" {
                    if let Some(n) = it.peek() {
                        cfg.known.insert(n.to_string());
                    }
                }
            }
        }
    }
    let mut all: Vec<(String, FnSrc)> = vec![];
    for a in &files.order {
        let (p, f) = &files.files[a];
        collect_fns(a, p, &f.items, "", &mut all);
    }
    let mut by_full: HashMap<String, FnSrc> = HashMap::new();
    let mut by_name: HashMap<String, Vec<FnSrc>> = HashMap::new();
    for (n, f) in &all {
        by_full.entry(n.clone()).or_insert_with(|| f.clone());
        by_name.entry(f.name.clone()).or_default().push(f.clone());
    }
    for l in &lines {
        if let Some(x) = l.trim().strip_prefix("//@fn ") {
            if let Some(f) = by_full.get(x.split_whitespace().next().unwrap_or("")) {
                if f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.ty, Type::BareFn(_)))) {
                    cfg.fnparams.insert(f.name.clone());
                }
            }
        }
    }
    // pass 2: emit
    let mut i = 0;
    let mut proved_in: Option<String> = None;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        let Some(x) = t.strip_prefix("//@") else {
            out.push_str(&l);
            out.push('\n');
            i += 1;
            continue;
        };
        let w: Vec<&str> = x.split_whitespace().collect();
        match w[0] {
            // contracts from here to //@endproved are discharged in another unit: only the contract is used here
            "proved_in" => proved_in = Some(w[1].to_string()),
            "endproved" => proved_in = None,
            "type" | "const" => {
                let (a, n) = w[1].split_once("::").unwrap();
                let (p, f) = files.files.get(a).ok_or(Lost(format!("alias {a}")))?;
                let it = find_item(&f.items, n).ok_or(Lost(format!("{p}: item `{n}` not found")))?.clone();
                let derive = if w[0] == "type" {
                    w.get(2).filter(|s| s.starts_with("derive=")).map_or("".to_string(), |s| s["derive=".len()..].to_string())
                } else {
                    String::new()
                };
                let mut spec = String::new();
                if w[0] == "const" && !w.contains(&"plain") {
                    i += 1;
                    while lines[i].trim() != "//@endconst" {
                        spec.push_str(&lines[i]);
                        spec.push('\n');
                        i += 1;
                    }
                }
                if w[0] == "const" && w.contains(&"fn") {
                    cfg.const_fns.insert(n.to_string());
                }
                out.push_str(&emit_type(&it, &derive, &cfg, &spec, rep, &w[1..])?);
            }
            "fn" => {
                let mut c = Contract { target: w[1].to_string(), proved_in: proved_in.clone(), ..Default::default() };
                c.opts.extend(w[2..].iter().map(|s| s.to_string()));
                for o in &w[2..] {
                    if let Some(n) = o.strip_prefix("rename=") {
                        c.rename = Some(n.to_string());
                    }
                    if let Some(n) = o.strip_prefix("nloops=") {
                        c.nloops = Some(n.parse().unwrap());
                    }
                    if let Some(n) = o.strip_prefix("ret=") {
                        c.ret = n.to_string();
                    }
                }
                let mut cur: Option<String> = Some("spec".into());
                let mut buf = String::new();
                i += 1;
                loop {
                    if i >= lines.len() {
                        return lost(format!("{}: missing //@endfn", c.target));
                    }
                    let lt = lines[i].trim().to_string();
                    if let Some(d) = lt.strip_prefix("//@") {
                        let one = d.trim();
                        // one-line directives leave the text around them in its section
                        let single = if let Some(r) = one.strip_prefix("ret ") {
                            c.ret = r.trim().to_string();
                            true
                        } else if let Some(r) = one.strip_prefix("where") {
                            c.bounds = Some(r.trim().to_string());
                            true
                        } else if let Some(r) = one.strip_prefix("attr ") {
                            c.attrs.push(r.trim().to_string());
                            true
                        } else if let Some(r) = one.strip_prefix("locals") {
                            c.locals = Some(r.split_whitespace().map(|s| s.to_string()).collect());
                            true
                        } else {
                            false
                        };
                        if single {
                            i += 1;
                            continue;
                        }
                        // flush
                        match cur.take().as_deref() {
                            Some("spec") => c.spec = std::mem::take(&mut buf),
                            Some(s) if s.starts_with("loop ") => {
                                let ws: Vec<&str> = s.split_whitespace().collect();
                                let k: usize = ws[1].parse().unwrap();
                                let it = ws.get(2).and_then(|s| s.strip_prefix("iter=").map(|s| s.to_string()).or_else(|| s.strip_prefix("next=").map(|s| format!("!{s}"))));
                                c.loops.insert(k, (it, std::mem::take(&mut buf)));
                            }
                            Some(s) if s.starts_with("at ") => {
                                c.ats.push((s[3..].trim().to_string(), std::mem::take(&mut buf)))
                            }
                            Some(s) => return lost(format!("{}: unknown directive `{s}`", c.target)),
                            None => {}
                        }
                        buf.clear();
                        let d = d.trim();
                        if d == "endfn" {
                            break;
                        }
                        cur = Some(d.to_string());
                    } else {
                        buf.push_str(&lines[i]);
                        buf.push('\n');
                    }
                    i += 1;
                }
                let f = by_full.get(&c.target).ok_or(Lost(format!("function `{}` not found in the current source", c.target)))?;
                let start = out.lines().count() + 1;
                let s = emit_fn(f, &c, &cfg, &by_name, rep)?;
                out.push_str(&format!("// ---- {} ({}:{})\n", c.target, f.file, f.line));
                out.push_str(&s);
                out.push('\n');
                let end = out.lines().count();
                if c.proved_in.is_none() {
                    map.push((start, end, c.target.clone(), f.file.clone(), f.line));
                }
                if std::env::var("VX_LOCALS").is_ok() {
                    println!("LOCALS {} {}", c.target, locals_of(f).join(" "));
                }
            }
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx TEMPLATE REPO LIBDIR OUT.rs REPORT.json");
        std::process::exit(2);
    }
    let mut out = String::new();
    let mut rep = Report::default();
    let mut map = vec![];
    let r = run(&a[1], &a[2], &a[3], &mut out, &mut rep, &mut map);
    std::fs::write(&a[4], &out).unwrap();
    let mut j = String::from("{");
    let _ = write!(j, "\"ok\": {}, ", r.is_ok());
    if let Err(e) = &r {
        let _ = write!(j, "\"lost\": {}, ", jstr(&e.0));
    }
    let fs: Vec<String> = map
        .iter()
        .map(|(s, e, n, f, l)| format!("{{\"start\":{s},\"end\":{e},\"name\":{},\"file\":{},\"line\":{l}}}", jstr(n), jstr(f)))
        .collect();
    let _ = write!(j, "\"functions\": [{}], ", fs.join(","));
    let rs: Vec<String> = rep.rules.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let _ = write!(j, "\"rules\": {{{}}}, ", rs.join(","));
    let ds: Vec<String> = rep.dropped.iter().map(|s| jstr(s)).collect();
    let _ = write!(j, "\"dropped\": [{}], ", ds.join(","));
    let is: Vec<String> = rep.inlined.iter().map(|s| jstr(s)).collect();
    let ps: Vec<String> = rep.proved_elsewhere.iter().map(|(a, b)| format!("[{},{}]", jstr(a), jstr(b))).collect();
    let _ = write!(j, "\"proved_elsewhere\": [{}], ", ps.join(","));
    let _ = write!(j, "\"inlined\": [{}], ", is.join(","));
    let is: Vec<String> = rep.types.iter().map(|s| jstr(s)).collect();
    let _ = write!(j, "\"types\": [{}]}}", is.join(","));
    std::fs::write(&a[5], j).unwrap();
    if let Err(e) = r {
        eprintln!("LOST: {}", e.0);
        std::process::exit(3);
    }
}

//! P15-P17: diagnostics collection, open documents, completion edits.
use crate::common::*;
use crate::lines::path;
use lsp_types::*;
use move_language_server::verif_hooks::{all_edits_are_disjoint, Diagnostics, Docs};
use std::collections::{BTreeMap, BTreeSet};
use vfs::FileId;

fn diag(k: usize) -> Diagnostic {
    let line = (k % 2) as u32;
    Diagnostic { range: Range::new(Position::new(line, 0), Position::new(line, 1 + (k / 2 % 2) as u32)),
        severity: [None, Some(DiagnosticSeverity::Error), Some(DiagnosticSeverity::Hint)][k / 4 % 3],
        source: [None, Some("a".to_string()), Some("b".to_string())][k / 12 % 3].clone(), message: ["m", "n", ""][k / 36 % 3].into(), ..Default::default() }
}
const KINDS: usize = 108;
#[derive(Debug, Clone)]
enum D { Native(u32, Vec<usize>), Check(u32, usize), Clear, Take }
fn run_diags(ops: &[D], files: u32) -> Result<(), String> {
    let mut c = Diagnostics::default();
    let mut native: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    let mut check: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    let shown = |n: &BTreeMap<u32, Vec<usize>>, k: &BTreeMap<u32, Vec<usize>>, f: u32| -> Vec<usize> { n.get(&f).into_iter().flatten().chain(k.get(&f).into_iter().flatten()).copied().collect() };
    let mut at_take: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    let mut changed: BTreeSet<u32> = BTreeSet::new();
    let mut touched: BTreeSet<u32> = BTreeSet::new();
    for (i, op) in ops.iter().enumerate() {
        let before: Vec<Vec<usize>> = (0..files).map(|f| shown(&native, &check, f)).collect();
        match op {
            D::Native(f, ds) => { native.insert(*f, ds.clone()); touched.insert(*f); c.set_native_diagnostics(FileId(*f), ds.iter().map(|k| diag(*k)).collect()); }
            D::Check(f, k) => { let v = check.entry(*f).or_default(); if !v.contains(k) { v.push(*k); } touched.insert(*f); c.add_check_diagnostic(FileId(*f), diag(*k), vec![]); }
            D::Clear => { touched.extend(check.keys().copied()); check.clear(); c.clear_check(); }
            D::Take => {
                let got = c.take_changes();
                if got.as_ref().map_or(false, |v| v.is_empty()) { return Err(format!("step {}: took an empty set", i)); }
                let got: BTreeSet<u32> = got.into_iter().flatten().map(|f| f.0).collect();
                let _ = &at_take;
                for f in &changed { if !got.contains(f) { return Err(format!("step {}: file {} changed but is not re-published", i, f)); } }
                for f in &got { if !touched.contains(f) { return Err(format!("step {}: file {} is re-published without having been touched", i, f)); } }
                if c.take_changes().is_some() { return Err(format!("step {}: not empty after being taken", i)); }
                changed.clear(); touched.clear();
                at_take = (0..files).map(|f| (f, shown(&native, &check, f))).collect();
            }
        }
        for f in 0..files {
            let want = shown(&native, &check, f);
            if want != before[f as usize] { changed.insert(f); }
            let got = c.diagnostics_for(FileId(f));
            if got != want.iter().map(|k| diag(*k)).collect::<Vec<_>>() { return Err(format!("step {}: file {} shows {} diagnostics {:?}, expected {:?}", i, f, got.len(), got.iter().map(|d| (&d.message, d.severity, &d.source, d.range)).collect::<Vec<_>>(), want)); }
        }
    }
    Ok(())
}
pub fn p15(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "all histories of 4 operations over 2 files and 2 diagnostics; pairs of diagnostics that differ in one respect; random histories of up to 40 operations over 4 files and diagnostics that differ in one field; sessions of the server with open documents";
    let base = [D::Native(0, vec![]), D::Native(0, vec![0]), D::Native(0, vec![0, 1]), D::Native(1, vec![0]), D::Check(0, 0), D::Check(0, 2), D::Check(1, 0), D::Clear, D::Take];
    let mut hs: Vec<Vec<D>> = vec![vec![]];
    for _ in 0..if ctx.thorough { 5 } else { 4 } { let mut n = vec![]; for h in &hs { for b in &base { let mut g = h.clone(); g.push(b.clone()); n.push(g); } } hs = n; }
    for mut h in hs { h.push(D::Take); ctx.case("enumerated", &format!("{:?}", h), true, || run_diags(&h, 4))?; }
    // two diagnostics that differ in one respect
    let plain = Diagnostic { range: Range::new(Position::new(1, 2), Position::new(3, 4)), severity: Some(DiagnosticSeverity::Error), source: Some("s".into()), message: "m".into(), ..Default::default() };
    let mut pairs: Vec<(Diagnostic, Diagnostic)> = vec![];
    for by in [1u32, 2, 255, 256, 1000, 65535, 65536, 1 << 24, 1 << 31] { for f in 0..4 { let mut d = plain.clone(); *[&mut d.range.start.line, &mut d.range.start.character, &mut d.range.end.line, &mut d.range.end.character][f] += by; pairs.push((plain.clone(), d)); } }
    { let mut d = plain.clone(); d.range = Range::new(Position::new(2, 1), Position::new(3, 4)); pairs.push((plain.clone(), d)); let mut d = plain.clone(); d.range = Range::new(Position::new(1, 4), Position::new(3, 2)); pairs.push((plain.clone(), d)); }
    let sev = [None, Some(DiagnosticSeverity::Error), Some(DiagnosticSeverity::Warning), Some(DiagnosticSeverity::Information), Some(DiagnosticSeverity::Hint)];
    for a in &sev { for b in &sev { if a != b { pairs.push((Diagnostic { severity: a.clone(), ..plain.clone() }, Diagnostic { severity: b.clone(), ..plain.clone() })); } } }
    let mut words: Vec<(String, String)> = ["", " m", "m ", "M", "m\n", "n", "mm", "\u{e9}", "e\u{301}"].iter().map(|w| ("m".to_string(), w.to_string())).collect();
    for n in [8usize, 15, 16, 32, 63, 64, 80, 128, 255, 256, 1000, 1024, 4096, 70000] { words.push(("x".repeat(n) + "a", "x".repeat(n) + "b")); words.push(("a".to_string() + &"x".repeat(n), "b".to_string() + &"x".repeat(n))); words.push(("x".repeat(n), "x".repeat(n + 1))); }
    for (a, b) in &words { pairs.push((Diagnostic { message: a.clone(), ..plain.clone() }, Diagnostic { message: b.clone(), ..plain.clone() })); pairs.push((Diagnostic { source: Some(a.clone()), ..plain.clone() }, Diagnostic { source: Some(b.clone()), ..plain.clone() })); pairs.push((Diagnostic { source: None, ..plain.clone() }, Diagnostic { source: Some(b.clone()), ..plain.clone() })); }
    for (a, b) in pairs.iter().flat_map(|(a, b)| [(a, b), (b, a)]) {
        let cut = |d: &Diagnostic| { let s = format!("{:?}", d); s.chars().take(400).collect::<String>() + if s.chars().count() > 400 { "\u{2026}" } else { "" } };
        ctx.case("two that differ in one respect", &format!("{}, then {}", cut(a), cut(b)), true, || {
            let f = FileId(3);
            for (at, n) in [(0usize, 1usize), (0, 2), (1, 2), (69, 70)] {
                let set = |d: &Diagnostic| (0..n).map(|i| if i == at { d.clone() } else { plain.clone() }).collect::<Vec<_>>();
                let mut c = Diagnostics::default();
                c.set_native_diagnostics(f, set(a)); c.take_changes(); c.set_native_diagnostics(f, set(b));
                if c.diagnostics_for(f) != set(b) { return Err(format!("native set of {}: the old one is kept", n)); }
                if c.take_changes() != Some(vec![f]) { return Err(format!("native set of {}: not re-published", n)); }
            }
            let mut c = Diagnostics::default();
            c.add_check_diagnostic(f, a.clone(), vec![]); c.take_changes(); c.add_check_diagnostic(f, b.clone(), vec![]);
            if c.diagnostics_for(f) != [a.clone(), b.clone()] { return Err("the second check diagnostic is taken for the first".into()); }
            if c.take_changes() != Some(vec![f]) { return Err("check: not re-published".into()); }
            c.add_check_diagnostic(f, a.clone(), vec![]); c.add_check_diagnostic(f, b.clone(), vec![]);
            if c.diagnostics_for(f).len() != 2 { return Err("the same check diagnostic twice".into()); }
            Ok(())
        })?;
    }
    let mut r = Rng::new(ctx.seed, 15);
    crate::server::diagnostics_session(ctx, &mut r, Some(140))?;
    while ctx.time_left() {
        for _ in 0..60 {
            let pool: Vec<usize> = if r.chance(1, 2) { let k = r.below(KINDS); [1usize, 2, 4, 12, 36, 8, 24, 72].iter().map(|d| (k + d) % KINDS).chain([k]).collect() } else { (0..KINDS).collect() };
            let (steps, files) = if r.chance(1, 20) { (200, 4) } else if r.chance(1, 40) { (150, *r.pick(&[20, 70, 300])) } else { (40, 4) };
            let ops: Vec<D> = (0..1 + r.below(steps)).map(|_| match r.below(10) { 0 => D::Clear, 1 | 2 => D::Take, 3..=5 => { let n = if r.chance(1, 20) { r.below(30) } else { r.below(4) }; D::Native(r.below(files) as u32, (0..n).map(|_| *r.pick(&pool)).collect()) } _ => D::Check(r.below(files) as u32, *r.pick(&pool)) }).collect();
            ctx.case("random", &format!("{:?}", ops), true, || run_diags(&ops, files as u32))?;
        }
        crate::server::diagnostics_session(ctx, &mut r, None)?;
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum O { Open(usize, i32), Change(usize, i32), Close(usize), Flag }
const DOCS: &[&str] = &["/a.move", "/a.mov", "/b/a.move", "/é.move"];
fn doc(k: usize) -> String { DOCS.get(k).map_or_else(|| format!("/d{}/{}.move", k % 7, k), |d| d.to_string()) }
fn run_docs(ops: &[O], docs: usize) -> Result<(), String> {
    let mut d = Docs::default(); let mut m: BTreeMap<usize, i32> = BTreeMap::new(); let mut flag = false;
    for (i, op) in ops.iter().enumerate() {
        let bad = |s: String| Err(format!("step {}: {}", i, s));
        match op {
            O::Open(k, v) => { let known = m.insert(*k, *v).is_some(); flag = true; if d.insert(path(&doc(*k)), *v).is_err() != known { return bad(format!("open reported {}", if known { "success" } else { "an error" })); } }
            O::Change(k, v) => { let known = m.contains_key(k); if known { m.insert(*k, *v); } if d.set_version(&path(&doc(*k)), *v) != known { return bad("change".into()); } }
            O::Close(k) => { let known = m.remove(k).is_some(); flag = true; if d.remove(&path(&doc(*k))).is_ok() != known { return bad(format!("close reported {}", if known { "an error" } else { "success" })); } }
            O::Flag => { let f = d.take_changes(); if f != flag { return bad(format!("flag is {}, expected {}", f, flag)); } flag = false; if d.take_changes() { return bad("flag not lowered by reading".into()); } }
        }
        for k in 0..docs { let n = &doc(k);
            if d.contains(&path(n)) != m.contains_key(&k) { return bad(format!("{} known: {}", n, !m.contains_key(&k))); }
            if d.version(&path(n)) != m.get(&k).copied() { return bad(format!("{} has version {:?}, expected {:?}", n, d.version(&path(n)), m.get(&k))); }
        }
        let mut got = d.paths(); got.sort(); let mut want: Vec<_> = m.keys().map(|k| path(&doc(*k))).collect(); want.sort();
        if got != want { return bad(format!("listing {:?}", got)); }
    }
    Ok(())
}
pub fn p16(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "all histories of 4 operations over 2 documents, random histories of up to 40 over 4; sessions of notifications through the server";
    let base = [O::Open(0, 1), O::Open(0, 2), O::Open(1, 1), O::Change(0, 3), O::Change(1, 3), O::Close(0), O::Close(1), O::Flag];
    let mut hs: Vec<Vec<O>> = vec![vec![]];
    for _ in 0..if ctx.thorough { 5 } else { 4 } { let mut n = vec![]; for h in &hs { for b in &base { let mut g = h.clone(); g.push(b.clone()); n.push(g); } } hs = n; }
    for mut h in hs { h.push(O::Flag); ctx.case("enumerated", &format!("{:?}", h), true, || run_docs(&h, 4))?; }
    let mut r = Rng::new(ctx.seed, 16);
    while ctx.time_left() {
        for _ in 0..60 {
            let (docs, steps) = if r.chance(1, 40) { (*r.pick(&[20, 40, 100]), 250) } else { (4, 40) };
            let version = |r: &mut Rng| if r.chance(1, 5) { *r.pick(&[0, 1, -1, i32::MAX, i32::MIN]) } else { r.below(1000) as i32 - 10 };
            let ops: Vec<O> = (0..1 + r.below(steps)).map(|_| match r.below(8) { 0..=2 => O::Open(r.below(docs), version(&mut r)), 3 | 4 => O::Change(r.below(docs), version(&mut r)), 5 | 6 => O::Close(r.below(docs)), _ => O::Flag }).collect();
            ctx.case("random", &format!("{:?}", ops), true, || run_docs(&ops, docs))?;
        }
        crate::server::documents_session(ctx, &mut r)?;
        crate::server::diagnostics_session(ctx, &mut r, None)?;
    }
    Ok(())
}

fn rg(a: u32, b: u32) -> Range { let p = |x: u32| Position::new(x / 3, x % 3); Range::new(p(a), p(b)) }
fn te(r: Range) -> TextEdit { TextEdit::new(r, "x".into()) }
#[derive(Debug, Clone)]
struct Completion { main: Option<(Range, Option<Range>)>, own: Option<Vec<Range>>, extra: Vec<Range> }
fn item(c: &Completion) -> CompletionItem {
    CompletionItem { text_edit: c.main.map(|(r, ins)| match ins { None => CompletionTextEdit::Edit(te(r)), Some(i) => CompletionTextEdit::InsertAndReplace(InsertReplaceEdit { new_text: "y".into(), insert: i, replace: r }) }),
        additional_text_edits: c.own.clone().map(|v| v.into_iter().map(te).collect()), ..Default::default() }
}
fn check_completion(c: &Completion) -> Result<(), String> {
    let mut all: Vec<Range> = vec![]; let mut want = true;
    if let Some((r, ins)) = c.main { all.push(r); if let Some(i) = ins { want &= i.start == r.start && i.start <= i.end && i.end <= r.end; } }
    all.extend(c.own.iter().flatten().copied()); all.extend(c.extra.iter().copied());
    for i in 0..all.len() { for j in 0..i { let (a, b) = (all[i], all[j]); want &= a.end <= b.start || b.end <= a.start; } }
    let got = all_edits_are_disjoint(&item(c), &c.extra.iter().copied().map(te).collect::<Vec<_>>());
    if got != want { return Err(format!("accepted: {}, expected {}", got, want)); }
    // the order of listing does not matter
    for k in 0..c.extra.len() { let mut e = c.extra.clone(); e.rotate_left(k); e.reverse(); if all_edits_are_disjoint(&item(c), &e.into_iter().map(te).collect::<Vec<_>>()) != got { return Err("depends on the order".into()); } }
    Ok(())
}
pub fn p17(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "all completions with up to two extra edits over the ranges of 5 positions on two lines (insert ranges too), random ones with up to 7, 40 or 300 edits, positions up to the largest; ranges with start <= end";
    let mut rs = vec![]; for a in 0..5 { for b in a..5 { rs.push(rg(a, b)); } }
    for a in &rs { for b in &rs {
        ctx.case("insert and replace", &format!("replace {:?} insert {:?}", a, b), true, || check_completion(&Completion { main: Some((*a, Some(*b))), own: None, extra: vec![] }))?;
        for cc in &rs { for shape in 0..4 {
            let c = match shape { 0 => Completion { main: Some((*a, None)), own: Some(vec![*b]), extra: vec![*cc] }, 1 => Completion { main: None, own: Some(vec![*a, *b]), extra: vec![*cc] }, 2 => Completion { main: Some((*a, Some(*b))), own: None, extra: vec![*cc] }, _ => Completion { main: None, own: None, extra: vec![*a, *b, *cc] } };
            ctx.case("three edits", &format!("{:?}", c), true, || check_completion(&c))?;
        } }
    } }
    // positions whose columns grow while the lines go back
    let mut r = Rng::new(ctx.seed, 17);
    while ctx.time_left() { for _ in 0..200 {
        let span = match r.below(4) { 0 | 1 => 9, 2 => 40, _ => 400 };
        let any = |r: &mut Rng| { let a = r.below(span) as u32; let w = if r.chance(1, 2) { 3 } else { 12 }; let b = a + r.below(w) as u32; rg(a, b) };
        let chain = r.chance(1, 2);
        let mut at = 0u32;
        let mut next = |r: &mut Rng| if chain { let a = at + r.below(3) as u32; let b = a + r.below(3) as u32; at = if r.chance(1, 15) { a } else { b }; rg(a, b) } else { any(r) };
        let count = if r.chance(1, 60) { 300 } else if r.chance(1, 10) { 40 } else { 7 };
        let mut v: Vec<Range> = (0..r.below(count)).map(|_| next(&mut r)).collect();
        for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
        let main = if v.is_empty() || r.chance(1, 3) { None } else { let m = v.pop().unwrap(); Some((m, if r.chance(1, 2) { None } else if r.chance(1, 2) { Some(any(&mut r)) } else { Some(Range::new(m.start, if r.chance(1, 2) { m.start } else { m.end })) })) };
        let k = r.below(v.len() + 1); let extra = v.split_off(k);
        let c = Completion { main, own: if r.chance(1, 4) && v.is_empty() { None } else { Some(v) }, extra };
        // the same far away: lines and columns up to the largest
        let c = if !r.chance(1, 8) { c } else {
            let by = *r.pick(&[0u32, 250, 65_530, (1 << 31) - 5]); let last = r.chance(1, 2); let columns = r.chance(1, 2);
            let all: Vec<&Range> = c.main.iter().flat_map(|(a, b)| std::iter::once(a).chain(b)).chain(c.own.iter().flatten()).chain(&c.extra).collect();
            let top = all.iter().map(|r| if columns { r.start.character.max(r.end.character) } else { r.start.line.max(r.end.line) }).max().unwrap_or(0);
            let by = if last { u32::MAX - top } else { by };
            let far = |r: &Range| { let mut r = *r; for p in [&mut r.start, &mut r.end] { if columns { p.character += by } else { p.line += by } } r };
            Completion { main: c.main.as_ref().map(|(a, b)| (far(a), b.as_ref().map(far))), own: c.own.as_ref().map(|v| v.iter().map(far).collect()), extra: c.extra.iter().map(far).collect() }
        };
        ctx.case("random", &format!("{:?}", c), true, || check_completion(&c))?;
    } }
    Ok(())
}

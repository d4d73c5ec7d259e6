//! lib/stdpath.rs and the shims over paths (unix)
use crate::*;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};
#[derive(Clone, Debug, PartialEq)]
enum C { Root, Cur, Parent, Normal(Vec<u8>) }
const P: &[&str] = &["/", "/", "//", "a", "b", ".", "..", "./", "../", "é", "a.b", ".c", "c.", "a.b.c", " ", "x.move", "...", "\u{0}"];
fn comps(p: &Path) -> Vec<C> { p.components().map(|c| match c { Component::RootDir => C::Root, Component::CurDir => C::Cur, Component::ParentDir => C::Parent, Component::Normal(n) => C::Normal(n.as_bytes().to_vec()), Component::Prefix(_) => panic!("a prefix on unix") }).collect() }
fn name_ok(n: &[u8]) -> bool { !n.is_empty() && !n.contains(&b'/') && n != b"." && n != b".." }
fn abs_comps(c: &[C]) -> bool { c.first() == Some(&C::Root) && c[1..].iter().all(|x| match x { C::Root => false, C::Normal(n) => name_ok(n), _ => true }) }
fn clean(c: &[C]) -> bool { c.first() == Some(&C::Root) && c[1..].iter().all(|x| match x { C::Normal(n) => name_ok(n), _ => false }) }
fn enc(c: &[C]) -> Vec<u8> {
    match c.split_last() { None => vec![], Some((C::Normal(n), rest)) => { let mut p = enc(rest); if !p.is_empty() && p.last() != Some(&b'/') { p.push(b'/') } p.extend(n); p } Some(_) => vec![b'/'] }
}
fn ext(c: &[C]) -> Option<Vec<u8>> { match c.last() { Some(C::Normal(n)) => n.iter().rposition(|b| *b == b'.').filter(|i| *i > 0).map(|i| n[i + 1..].to_vec()), _ => None } }
fn tidy(p: &Path) -> bool { p.as_os_str().as_bytes() == &enc(&comps(p))[..] }
pub fn all(r: &mut Rng, t: &mut Tally) {
    let s = if r.below(3) > 0 { format!("/{}", r.text(P, 7)) } else { r.text(P, 7) }; let p = Path::new(&s); let c = comps(p);
    t.is("Path::is_absolute", &s, p.is_absolute() == abs_comps(&c) && PathBuf::from(&s).is_absolute() == abs_comps(&c));
    t.is("components have no prefix", &s, c.iter().skip(1).all(|x| *x != C::Root) && c.iter().all(|x| if let C::Normal(n) = x { name_ok(n) } else { true }));
    let mut it = p.components().peekable(); let mut rest = c.clone();
    loop { t.is("vx_peek_cloned", &s, it.peek().cloned().is_some() == !rest.is_empty()); match it.next() { Some(x) => { let y = rest.remove(0); t.is("Component::as_os_str", &s, match (&y, x.as_os_str().as_bytes()) { (C::Root, b) => b == b"/", (C::Normal(n), b) => b == &n[..], _ => true }) } None => break } }
    t.is("VxComps::next", &s, rest.is_empty() && it.next().is_none());
    let u = if r.below(2) == 0 { s.clone() } else if r.below(3) > 0 { format!("/{}", r.text(P, 5)) } else { r.text(P, 4) }; let (q, d) = (Path::new(&u), comps(Path::new(&u)));
    t.is("Path::starts_with", &(&s, &u), p.starts_with(q) == (d.len() <= c.len() && c[..d.len()] == d[..])); t.is("Path == Path", &(&s, &u), (p == q) == (c == d));
    t.is("Path::extension", &s, p.extension().map(|e| e.as_bytes().to_vec()) == ext(&c)); 
    t.is("vx_file_stem", &s, p.file_stem().map(|e| e.as_bytes().to_vec()) == match c.last() { Some(C::Normal(n)) => Some(match ext(&c) { Some(e) => n[..n.len() - e.len() - 1].to_vec(), None => n.clone() }), _ => None });
    { let mut b = s.clone().into_bytes(); if r.below(3) == 0 { b.insert(r.below(b.len() + 1), *r.pick(&[0xffu8, 0xc3, 0x80, 0xed])); } let o = std::ffi::OsStr::from_bytes(&b); t.is("vx_to_str", &b, o.to_str().map(|x| x.as_bytes()) == std::str::from_utf8(&b).ok().map(|x| x.as_bytes())); }
    t.is("OsStr == str", &(&s, &u), (p.as_os_str() == &u[..]) == (p.as_os_str().as_bytes() == u.as_bytes()));
    t.is("one_path", &s, PathBuf::from(&s) == p.to_path_buf() && p.as_os_str().as_bytes() == s.as_bytes());
    // built up from nothing, as normalize_path does
    let mut b = PathBuf::new(); let mut l: Vec<C> = vec![]; t.is("PathBuf::new", &(), comps(&b).is_empty() && b.as_os_str().is_empty()); b.push("/"); l.push(C::Root);
    for x in &c { match x {
        C::Root => { b.push("/"); l = vec![C::Root] }
        C::Parent => { let was = b.clone(); let can = l.last().map_or(false, |x| *x != C::Root); let got = b.pop(); t.is("PathBuf::pop", &s, got == can && (got || b.as_os_str() == was.as_os_str())); if can { l.pop(); } }
        C::Normal(n) => { b.push(std::ffi::OsStr::from_bytes(n)); l.push(C::Normal(n.clone())) }
        C::Cur => {}
    } t.is("PathBuf::push", &s, comps(&b) == l); t.is("push and pop keep a path tidy", &s, tidy(&b)); }
    t.is("clean paths are absolute and tidy ones are their components", &s, clean(&l) && b.is_absolute() && Path::new(std::ffi::OsStr::from_bytes(&enc(&l))) == b);
    let mut e = PathBuf::from(&s); let can = c.last().map_or(false, |x| *x != C::Root); let got = e.pop();
    t.is("PathBuf::pop (any path)", &s, if abs_comps(&c) { got == can && comps(&e) == if can { c[..c.len() - 1].to_vec() } else { c.clone() } } else { true });
    if p.is_absolute() {
        let w = if d.first() == Some(&C::Root) { d.clone() } else { let mut w = c.clone(); w.extend(d.iter().filter(|x| **x != C::Cur).cloned()); w };
        t.is("vx_path_join", &(&s, &u), comps(&p.join(&u)) == w && p.join(&u).is_absolute());
    }
    t.is("vx_first_component", &s, c.first().map(|x| *x == C::Root) == p.components().next().map(|x| x == Component::RootDir));
    // URLs of files
    if p.is_absolute() && !s.contains('\u{0}') { let url = lsp_types::Url::from_file_path(p); t.is("Url::from_file_path", &s, url.is_ok());
        if let Ok(url) = url { t.is("Url::to_file_path", &s, url.to_file_path().map_or(false, |q| comps(&q) == c || !clean(&c))); if clean(&c) { t.is("Url of a clean path", &s, comps(&url.to_file_path().unwrap()) == c) }
            if clean(&c) { t.is("Url read back", &s, lsp_types::Url::parse(url.as_str()).map_or(false, |v| v == url)); } } }
    const U: &[&str] = &["file://", "file:///", "/", "a", "%2F", "%C3%A9", "%FF", "..", "é", "http://", "untitled:", "localhost", "?", "#", " "];
    let w = format!("{}{}", *r.pick(&U[..2]), r.text(U, 5)); if let Ok(url) = lsp_types::Url::parse(&w) { if let Ok(q) = url.to_file_path() { t.is("vx_to_file_path is absolute", &w, abs_comps(&comps(&q))) } }
}

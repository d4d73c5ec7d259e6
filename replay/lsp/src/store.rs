//! P11-P14: file store, file sets, paths, watched scope.
use crate::common::*;
use crate::lines::path;
use paths::{AbsPath, AbsPathBuf};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};
use vfs::file_set::{FileSet, FileSetConfig};
use vfs::loader::{Directories, Entry};
use vfs::{AnchoredPath, ChangeKind, FileId, Vfs, VfsPath};

fn virt(s: &str) -> VfsPath { VfsPath::new_virtual_path(s.into()) }
const NAMES: &[&str] = &["/a", "/ab", "/a/b", "/a.b", "/a/b/c.move", "/a/bc", "/b", "/é", "/a/é.move", "/A", "/a b", "/x/y/z", "/"];
fn any_path(r: &mut Rng) -> VfsPath { let n = *r.pick(&NAMES[..12]); if r.chance(1, 3) { virt(n) } else { path(n) } }

pub fn p11(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "random histories of up to 40 writes over 24 paths (real and virtual) and 5 contents, the whole observable state compared after every write; all histories of 4 writes over 2 paths and 3 contents; contents of up to 1 MB that differ in one place; up to 400 files";
    // enumerated: 2 paths x {None, "", "x"} + take
    let mut hist: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if ctx.thorough { 6 } else { 4 } { let mut n = vec![]; for h in &hist { for k in 0..7 { let mut g = h.clone(); g.push(k); n.push(g); } } hist = n; }
    for h in hist {
        let ops: Vec<Op> = h.iter().map(|k| if *k == 6 { Op::Take } else { Op::Write([path("/a"), virt("/a")][k / 3].clone(), [None, Some(vec![]), Some(b"x".to_vec())][k % 3].clone()) }).collect();
        ctx.case("enumerated", &format!("{:?}", ops), true, || run_store(&ops))?;
    }
    for len in [1usize, 7, 8, 63, 64, 255, 256, 1023, 1024, 4096, 8192, 65535, 65536, 65537, 1 << 20] { for at in [0, len / 2, len - 1, len] {
        ctx.case("long contents that differ in one place", &format!("{} bytes, the difference at {}", len, at), true, || {
            let (p, mut v) = (path("/a"), Vfs::default());
            let a = vec![b'x'; len]; let mut b = a.clone(); if at < len { b[at] = b'y' } else { b.push(b'x') }
            for c in [&a, &b, &a] {
                if !v.set_file_contents(p.clone(), Some(c.clone())) { return Err("the new contents are taken for the old".into()); }
                if v.set_file_contents(p.clone(), Some(c.clone())) { return Err("the same contents are taken for new".into()); }
                if v.file_contents(v.file_id(&p).unwrap()) != &c[..] { return Err("the new contents are not stored".into()); }
            }
            if v.take_changes().len() != 3 { return Err("log".into()); }
            Ok(())
        })?;
    } }
    let mut r = Rng::new(ctx.seed, 11);
    while ctx.time_left() { for _ in 0..20 {
        let n = 1 + r.below(40);
        let ops: Vec<Op> = (0..n).map(|_| if r.chance(1, 8) { Op::Take } else { Op::Write(any_path(&mut r), r.pick(&[None, Some(vec![]), Some(b"x".to_vec()), Some(b"y".to_vec()), Some(vec![0xff]), Some(b"x\r".to_vec()), Some(b"x\n".to_vec()), Some(b"X".to_vec()), Some(b"x ".to_vec()), Some(vec![0])]).clone()) }).collect();
        ctx.case("random", &format!("{:?}", ops), true, || run_store(&ops))?;
    }
        if r.chance(1, 4) {
            // one new file after another, all of them looked at each time
            let n = 60 + r.below(300); let gone = r.below(n);
            ctx.case("one by one", &format!("{} new files one after another, number {} deleted at once", n, gone), true, || {
                let mut v = Vfs::default(); let mut have: Vec<(VfsPath, usize, FileId)> = vec![];
                for i in 0..n {
                    let p = if i % 3 == 0 { virt(&format!("/v{}", i)) } else { path(&format!("/w/{}.move", i)) };
                    let c = i.to_string().into_bytes();
                    if !v.set_file_contents(p.clone(), Some(c.clone())) { return Err(format!("file {}: not new", i)); }
                    if i == gone { v.set_file_contents(p, None); } else { let id = v.file_id(&p).ok_or(format!("file {} has no id", i))?; have.push((p, i, id)); }
                    if i % 16 == 0 || i + 70 > n {
                        for (p, k, id) in &have { if v.file_id(p) != Some(*id) || v.file_contents(*id) != k.to_string().as_bytes() || v.file_path(*id) != *p { return Err(format!("after {} files, file {}", i + 1, k)); } }
                        let l: Vec<_> = v.iter().map(|(a, b)| (b.clone(), a)).collect();
                        if l.len() != have.len() { return Err(format!("after {} files {} are listed", i + 1, l.len())); }
                    }
                }
                let want = n + 1;
                if v.take_changes().len() != want { return Err("log".into()); }
                Ok(())
            })?;
        }
        // many files, long contents that differ in one byte
        let (files, len) = (1 + r.below(400), r.below(3000));
        let ops: Vec<(usize, u8)> = (0..r.below(900)).map(|_| (r.below(files), r.below(6) as u8)).collect();
        ctx.case("many files", &format!("{} files, contents of {} bytes, writes (file, contents; 0 deletes) {:?}", files, len, ops), true, || {
            let mut v = Vfs::default(); let mut m: BTreeMap<usize, u8> = BTreeMap::new(); let mut ids: BTreeMap<usize, FileId> = BTreeMap::new(); let mut log = vec![];
            let name = |f: usize| path(&format!("/d{}/{}{}.move", f % 7, "n".repeat(f % 90), f));
            let bytes = |c: u8| { let mut b = vec![b'x'; len]; if len > 0 { b[c as usize * 37 % len] = b'0' + c; } else if c % 2 == 0 { b.push(b'q'); } b };
            for (f, c) in &ops {
                let old = m.get(f).map(|c| bytes(*c)); let new = (*c != 0).then(|| bytes(*c));
                let kind = match (&old, &new) { (None, Some(_)) => Some(ChangeKind::Create), (Some(_), None) => Some(ChangeKind::Delete), (Some(a), Some(b)) if a != b => Some(ChangeKind::Modify), _ => None };
                if v.set_file_contents(name(*f), new.clone()) != kind.is_some() { return Err(format!("writing {} to {}: expected to report {:?}", c, f, kind)); }
                if let Some(k) = kind { log.push((*f, k)); }
                if new.is_some() { m.insert(*f, *c); } else { m.remove(f); }
            }
            let got: Vec<(VfsPath, ChangeKind)> = v.take_changes().into_iter().map(|c| (v.file_path(c.file_id), c.change_kind)).collect();
            if got != log.iter().map(|(f, k)| (name(*f), *k)).collect::<Vec<_>>() { return Err("log".into()); }
            for f in 0..files { match (v.file_id(&name(f)), m.get(&f)) {
                (None, None) => {}
                (Some(id), Some(c)) => { if v.file_contents(id) != &bytes(*c)[..] { return Err(format!("contents of {}", f)); } if v.file_path(id) != name(f) { return Err(format!("path of {}", f)); } ids.insert(f, id); }
                (a, b) => return Err(format!("file {}: id {:?}, contents {:?}", f, a, b)),
            } }
            if ids.values().collect::<BTreeSet<_>>().len() != ids.len() || v.iter().count() != m.len() { return Err("identities".into()); }
            Ok(())
        })?;
    }
    Ok(())
}
#[derive(Debug, Clone)]
enum Op { Write(VfsPath, Option<Vec<u8>>), Take }
fn run_store(ops: &[Op]) -> Result<(), String> {
    let mut v = Vfs::default();
    let mut model: BTreeMap<VfsPath, Vec<u8>> = BTreeMap::new();
    let mut ids: BTreeMap<VfsPath, FileId> = BTreeMap::new();
    let mut log: Vec<(VfsPath, ChangeKind)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let at = |m: String| format!("step {}: {}", i, m);
        match op {
            Op::Write(p, c) => {
                let old = model.get(p).cloned();
                let kind = match (&old, c) { (None, Some(_)) => Some(ChangeKind::Create), (Some(_), None) => Some(ChangeKind::Delete), (Some(a), Some(b)) if a != b => Some(ChangeKind::Modify), _ => None };
                match c { Some(c) => { model.insert(p.clone(), c.clone()); } None => { model.remove(p); } }
                if let Some(k) = kind { log.push((p.clone(), k)); }
                let said = v.set_file_contents(p.clone(), c.clone());
                if said != kind.is_some() { return Err(at(format!("write reported {}, expected {}", said, kind.is_some()))); }
            }
            Op::Take => {
                let got: Vec<(VfsPath, ChangeKind)> = v.take_changes().into_iter().map(|c| {
                    assert_eq!(c.exists(), c.change_kind != ChangeKind::Delete); assert_eq!(c.is_created_or_deleted(), c.change_kind != ChangeKind::Modify);
                    (v.file_path(c.file_id), c.change_kind) }).collect();
                if got != log { return Err(at(format!("log {:?}, expected {:?}", got, log))); }
                log.clear();
                if !v.take_changes().is_empty() { return Err(at("log not emptied".into())); }
            }
        }
        if v.has_changes() != !log.is_empty() { return Err(at("has_changes".into())); }
        for n in NAMES { for p in [path(n), virt(n)] {
            let id = v.file_id(&p);
            match (model.get(&p), id) {
                (None, None) => {}
                (None, Some(_)) => return Err(at(format!("{:?} has no contents but an id", p))),
                (Some(_), None) => return Err(at(format!("{:?} has contents but no id", p))),
                (Some(c), Some(id)) => {
                    if v.file_contents(id) != c.as_slice() { return Err(at(format!("{:?} has contents {:?}, expected {:?}", p, v.file_contents(id), c))); }
                    if v.file_path(id) != p { return Err(at(format!("path of {:?} is {:?}, expected {:?}", id, v.file_path(id), p))); }
                    if *ids.entry(p.clone()).or_insert(id) != id { return Err(at(format!("{:?} changed its id", p))); }
                }
            }
        } }
        let mut seen = BTreeSet::new();
        for (p, id) in &ids { if !seen.insert(*id) { return Err(at(format!("{:?} shares its id", p))); } if v.file_path(*id) != *p { return Err(at(format!("{:?} lost its id", p))); } }
        let mut listed: Vec<VfsPath> = v.iter().map(|(id, p)| { assert_eq!(Some(id), v.file_id(p)); p.clone() }).collect();
        listed.sort();
        let want: Vec<VfsPath> = model.keys().cloned().collect();
        if listed != want { return Err(at(format!("listing {:?}, expected {:?}", listed, want))); }
    }
    Ok(())
}

/// Components of a path of either kind: (is virtual, components).
pub fn comps(p: &VfsPath) -> (bool, Vec<Vec<u8>>) {
    use std::os::unix::ffi::OsStrExt;
    let (v, s) = match p.as_path() { Some(a) => (false, a.as_os_str().as_bytes().to_vec()), None => (true, p.to_string().into_bytes()) };
    (v, s.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect())
}
pub fn is_ancestor(root: &VfsPath, p: &VfsPath) -> bool {
    let (a, b) = (comps(root), comps(p)); a.0 == b.0 && b.1.starts_with(&a.1)
        // a virtual root written with a final slash is not above the path without it
        && (!a.0 || !root.to_string().ends_with('/') || p.to_string().starts_with(&root.to_string()))
}
/// The sets a path may be put in: those that list the longest root above it.
pub fn classes(sets: &[Vec<VfsPath>], p: &VfsPath) -> Vec<usize> {
    let best = sets.iter().flatten().filter(|r| is_ancestor(r, p)).map(|r| comps(r).1.len()).max();
    match best { None => vec![sets.len()], Some(n) => (0..sets.len()).filter(|i| sets[*i].iter().any(|r| is_ancestor(r, p) && comps(r).1.len() == n)).collect() }
}
const SEGS: &[&str] = &["a", "ab", "b", "a.b", "a-b", "a b", "é", "ét", "A", "c.move", "0"];
pub fn tree_path(r: &mut Rng, max: usize) -> String { let n = 1 + r.below(max); (0..n).map(|_| { let k = if r.chance(1, 2) { 3 } else { 11 }; format!("/{}", r.pick(&SEGS[..k])) }).collect() }
fn run_sets(sets: &[Vec<VfsPath>], files: &[(VfsPath, bool)]) -> Result<(), String> {
    let mut b = FileSetConfig::builder();
    for s in sets { b.add_file_set(s.clone()); }
    if b.len() != sets.len() { return Err("builder length".into()); }
    let cfg = b.build();
    let mut v = Vfs::default();
    for (p, keep) in files { v.set_file_contents(p.clone(), Some(vec![1])); if !keep { v.set_file_contents(p.clone(), None); } }
    let parts = cfg.partition(&v);
    if parts.len() != sets.len() + 1 { return Err(format!("{} sets", parts.len())); }
    let exist: Vec<VfsPath> = v.iter().map(|x| x.1.clone()).collect();
    for p in &exist {
        let id = v.file_id(p).unwrap();
        let inn: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].path_for_file(&id).is_some()).collect();
        let want = classes(sets, p);
        if inn.len() != 1 || !want.contains(&inn[0]) { return Err(format!("{:?} is in sets {:?}, expected one of {:?}", p, inn, want)); }
        let s = &parts[inn[0]];
        if s.path_for_file(&id) != Some(p) || s.file_for_path(p) != Some(&id) { return Err(format!("{:?}: lookups are not inverse", p)); }
        for (i, o) in parts.iter().enumerate() { if i != inn[0] && o.file_for_path(p).is_some() { return Err(format!("{:?} also found in set {}", p, i)); } }
    }
    let total: usize = parts.iter().map(|s| s.iter().count()).sum();
    let lens: usize = parts.iter().map(|s| s.len()).sum();
    if total != exist.len() || lens != exist.len() { return Err(format!("{} entries for {} files", total, exist.len())); }
    for s in &parts { for id in s.iter() {
        let p = s.path_for_file(&id).ok_or("no path")?;
        if s.file_for_path(p) != Some(&id) { return Err(format!("{:?}: lookups are not inverse", p)); }
        for rel in ["c.move", "../a", "b/a", "../../b"] {
            let want = { let mut base = p.clone(); base.pop(); base.join(rel).and_then(|q| s.file_for_path(&q).copied()) };
            let got = s.resolve_path(AnchoredPath { anchor: id, path: rel });
            if got != want { return Err(format!("resolving {:?} from {:?}: {:?}, expected {:?}", rel, p, got, want)); }
        }
    } }
    Ok(())
}
pub fn p12(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "random configurations of up to 5 sets with up to 3 roots each and up to 25 files (some deleted), over a small tree with sibling names that share prefixes; pairs of roots and files enumerated; up to 4000 sets, roots of up to 8000 bytes";
    let small = ["/", "/a", "/ab", "/a/b", "/a/ab", "/a/b/a", "/ab/a", "/a.b", "/a-b/c"];
    for x in small { for y in small { for virtual_ in [false, true] {
        let mk = |s: &str| if virtual_ { virt(s) } else { path(s) };
        let sets = vec![vec![mk(x)], vec![mk(y)]];
        let files: Vec<(VfsPath, bool)> = small[1..].iter().map(|s| (mk(s), true)).collect();
        ctx.case("pairs of roots", &format!("roots {:?}, files {:?}", sets, files), x != y, || run_sets(&sets, &files))?;
        let f2: Vec<(VfsPath, bool)> = small[1..].iter().flat_map(|s| [(path(s), true), (virt(s), true)]).collect();
        ctx.case("mixed kinds", &format!("roots {:?}, files {:?}", sets, f2), x != y, || run_sets(&sets, &f2))?;
    } } }
    for n in (1..300).chain([511, 512, 513, 1023, 1024, 4000]) {
        let (a, b) = (format!("/{}", "n".repeat(n)), "/d".repeat(n));
        let sets = vec![vec![path("/n"), path("/d")], vec![path(&a)], vec![path(&b)]];
        let files: Vec<(VfsPath, bool)> = [format!("{}/x", a), format!("{}n/x", a), format!("{}/x/y", b), format!("{}d/x", b), a.clone()].iter().map(|s| (path(s), true)).collect();
        ctx.case("long roots", &format!("roots /n, /d; /\"n\"x{}; \"/d\"x{}", n, n), true, || run_sets(&sets, &files))?;
        let sets: Vec<Vec<VfsPath>> = (0..n).map(|i| vec![path(&format!("/r/s{}", i))]).collect();
        let files: Vec<(VfsPath, bool)> = (0..n + 1).step_by(1 + n / 90).chain([n - 1]).map(|i| (path(&format!("/r/s{}/m", i)), true)).collect();
        ctx.case("numbers of sets", &format!("{} sets, /r/s0, ...", n), true, || run_sets(&sets, &files))?;
    }
    let mut r = Rng::new(ctx.seed, 12);
    while ctx.time_left() { for _ in 0..30 {
        let root = |r: &mut Rng| { let s = if r.chance(1, 12) { "/".to_string() } else { tree_path(r, 3) }; if r.chance(1, 4) { virt(&if s != "/" && r.chance(1, 4) { s + "/" } else { s }) } else { path(&s) } };
        let sets: Vec<Vec<VfsPath>> = (0..r.below(6)).map(|_| (0..r.below(4)).map(|_| root(&mut r)).collect()).collect();
        let many = if r.chance(1, 40) { 300 } else { 26 };
        let files: Vec<(VfsPath, bool)> = (0..r.below(many)).map(|_| { let s = tree_path(&mut r, 5); (if r.chance(1, 4) { virt(&s) } else { path(&s) }, !r.chance(1, 5)) }).collect();
        ctx.case("random", &format!("roots {:?}, files {:?}", sets, files), true, || run_sets(&sets, &files))?;
        if r.chance(1, 400) {
            // many sets, roots of any length
            let n = 100 + r.below(300); let virtual_ = r.chance(1, 5);
            let mk = |s: &str| if virtual_ { virt(s) } else { path(s) };
            let roots: Vec<String> = (0..n).map(|i| match i % 5 { 0 => format!("/r{}", i), 1 => format!("/r{}/d{}", i - 1, i % 10), 2 => format!("/r{}", i / 10), 3 => format!("/{}/{}", "long".repeat(i % 80), i), _ => "/p".repeat(1 + i) }).collect();
            let sets: Vec<Vec<VfsPath>> = if r.chance(1, 2) { roots.iter().map(|s| vec![mk(s)]).collect() } else { roots.chunks(1 + r.below(40)).map(|c| c.iter().map(|s| mk(s)).collect()).collect() };
            let files: Vec<(VfsPath, bool)> = (0..300).map(|_| { let b = r.pick(&roots).clone(); (mk(&match r.below(4) { 0 => format!("{}x", b), 1 => format!("{}/a/b.move", b), _ => format!("{}/m.move", b) }), true) }).collect();
            ctx.case("many sets", &format!("{} sets, roots {:?}, files {:?}", sets.len(), roots, files), true, || run_sets(&sets, &files))?;
        }
        // a file set filled by hand
        let mut s = FileSet::default(); let mut m: BTreeMap<u32, VfsPath> = BTreeMap::new();
        let (n, ids) = if r.chance(1, 10) { (120, 700) } else { (8, 20) };
        for _ in 0..r.below(n) { let p = { let t = tree_path(&mut r, 3); path(&t) }; if m.values().any(|q| *q == p) { continue; } let id = r.below(ids as usize) as u32; if m.contains_key(&id) { continue; } m.insert(id, p.clone()); s.insert(FileId(id), p); }
        ctx.case("file set", &format!("{:?}", m), true, || {
            if s.len() != m.len() { return Err("length".into()); }
            for i in 0..ids { if s.path_for_file(&FileId(i)) != m.get(&i) { return Err(format!("path of {}", i)); } }
            for (i, p) in &m { if s.file_for_path(p) != Some(&FileId(*i)) { return Err(format!("file of {:?}", p)); } }
            Ok(())
        })?;
    } }
    Ok(())
}

fn norm_oracle(s: &str) -> String {
    let mut st: Vec<&str> = vec![];
    for c in s.split('/') { match c { "" | "." => {} ".." => { st.pop(); } c => st.push(c) } }
    format!("/{}", st.join("/"))
}
fn text_of(p: &VfsPath) -> String { p.to_string() }
fn last_dot(name: &str) -> (String, Option<String>) {
    match name.rfind('.') { Some(i) if i > 0 => (name[..i].into(), Some(name[i + 1..].into())), _ => (name.into(), None) }
}
fn check_real(s: &str, rel: &str) -> Result<(), String> {
    let a = AbsPathBuf::assert(PathBuf::from(s));
    let n = a.normalize();
    let want = norm_oracle(s);
    if n.as_os_str().to_str() != Some(want.as_str()) { return Err(format!("normalised to {:?}, expected {:?}", n, want)); }
    if n.normalize() != n { return Err("not idempotent".into()); }
    let p: &Path = n.as_ref();
    if !p.is_absolute() || p.components().any(|c| matches!(c, Component::CurDir | Component::ParentDir)) { return Err(format!("{:?} is not normal", n)); }
    let v = VfsPath::from(a.clone());
    if text_of(&v) != want { return Err(format!("stored as {}", v)); }
    if !rel.starts_with('/') {
        let j = v.join(rel).ok_or("join of a real path failed")?;
        let w = norm_oracle(&format!("{}/{}", want, rel));
        if text_of(&j) != w { return Err(format!("{} joined with {:?} is {}, expected {}", v, rel, j, w)); }
        if AbsPath::join(&a, rel).normalize().as_os_str().to_str() != Some(norm_oracle(&format!("{}/{}", s, rel)).as_str()) { return Err("AbsPath::join".into()); }
    }
    let par = want.rfind('/').map(|i| if i == 0 { "/".to_string() } else { want[..i].to_string() });
    let par = if want == "/" { None } else { par };
    if v.parent().map(|p| text_of(&p)) != par { return Err(format!("parent of {} is {:?}, expected {:?}", v, v.parent(), par)); }
    let name = want.rsplit('/').next().unwrap();
    let got = v.name_and_extension().map(|(a, b)| (a.to_string(), b.map(|b| b.to_string())));
    let w = if name.is_empty() { None } else { Some(last_dot(name)) };
    if got != w { return Err(format!("name and extension of {} are {:?}, expected {:?}", v, got, w)); }
    Ok(())
}
fn check_virtual(s: &str, rel: &str) -> Result<(), String> {
    let v = virt(s);
    if text_of(&v) != s || v.as_path().is_some() { return Err("text".into()); }
    // parent: cut at the last slash
    let par = s[..s.rfind('/').unwrap()].to_string();
    if v.parent().map(|p| text_of(&p)) != Some(par.clone()) { return Err(format!("parent is {:?}, expected {:?}", v.parent(), par)); }
    let mut q = v.clone();
    let mut n = 0; while q.pop() { n += 1; if n > 100 { return Err("popping does not end".into()); } }
    if n != s.matches('/').count() || text_of(&q) != "" { return Err(format!("popped {} times down to {:?}", n, q)); }
    // join
    let mut base = s.to_string(); let mut rest = rel; let mut ok = true;
    while rest.starts_with("../") { match base.rfind('/') { Some(i) => base.truncate(i), None => { ok = false; break; } } rest = &rest[3..]; }
    let mut tail = rest; while tail.starts_with("./") { tail = &tail[2..]; }
    let want = ok.then(|| format!("{}/{}", base, tail));
    let got = v.join(rel).map(|p| text_of(&p));
    if got != want { return Err(format!("joined with {:?}: {:?}, expected {:?}", rel, got, want)); }
    // name
    let t = s.strip_suffix('/').unwrap_or(s);
    let name = t.rsplit('/').next().unwrap();
    let w = if name.is_empty() { None } else { Some(last_dot(name)) };
    let got = v.name_and_extension().map(|(a, b)| (a.to_string(), b.map(|b| b.to_string())));
    if got != w { return Err(format!("name and extension {:?}, expected {:?}", got, w)); }
    Ok(())
}
pub fn p13(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "every absolute path of up to 4 segments over {a, ., .., empty, a.b}, random paths and relative paths, names with dots in every place; paths of up to 1000 components and as many climbs";
    let segs = ["a", ".", "..", "", "a.b"];
    let mut all = vec![String::new()]; let mut last = vec![String::new()];
    for _ in 0..if ctx.thorough { 6 } else { 4 } { let mut n = vec![]; for t in &last { for s in segs { n.push(format!("{}/{}", t, s)); } } all.extend(n.iter().cloned()); last = n; }
    let rels = ["b", "../b", "../../b", "./b", "../../../b", "./../b", "", "..", ".", "a/../b", "././x.y", "...", "../", ".././b", ".b"];
    for s in &all { if s.is_empty() { continue; } for r in rels { ctx.case("enumerated", &format!("real {:?} with {:?}", s, r), true, || check_real(s, r))?; ctx.case("enumerated virtual", &format!("virtual {:?} with {:?}", s, r), true, || check_virtual(s, r))?; } }
    for n in ["foo", "foo.bar", ".foo", "foo.", "foo.bar.baz", "..", "...", "a..b", ".a.b", "é.ü", "a.b.", "..a", "-.-"] { for pre in ["", "/x", "/x.y"] {
        ctx.case("names", &format!("{}/{}", pre, n), true, || { check_virtual(&format!("{}/{}", pre, n), "z")?; check_virtual(&format!("{}/{}/", pre, n), "z")?; check_real(&format!("{}/{}", pre, n), "z") })?; } }
    for n in 0..40usize { for m in 0..40usize {
        let (s, rel) = ("/d".repeat(n) + "/x", "../".repeat(m) + "y.z");
        ctx.case("climbs", &format!("\"/d\"x{} + /x with \"../\"x{} + y.z", n, m), true, || { check_virtual(&s, &rel)?; check_real(&s, &rel) })?;
        let rel = "../".repeat(m) + &"./".repeat(n) + "q/../r";
        ctx.case("climbs", &format!("\"/d\"x{} + /x with \"../\"x{} + \"./\"x{} + q/../r", n, m, n), true, || { check_virtual(&s, &rel)?; check_real(&s, &rel) })?;
    } }
    for n in [64, 127, 128, 129, 255, 256, 257, 300, 1000] { for m in [0, 1, n - 1, n, n + 1] {
        let (s, rel) = ("/d".repeat(n) + "/x", "../".repeat(m) + &"é".repeat(n) + ".z");
        ctx.case("climbs", &format!("\"/d\"x{} + /x with \"../\"x{} + \"é\"x{}.z", n, m, n), true, || { if n < 100 { check_virtual(&s, &rel)?; } check_real(&s, &rel)?; check_real(&format!("{}{}", s, "/..".repeat(m)), "z") })?;
    } }
    let mut r = Rng::new(ctx.seed, 13);
    let parts = ["a", "b", ".", "..", "", "c.d", ".e", "f.", "é", "...", "x y"];
    while ctx.time_left() { for _ in 0..100 {
        let s: String = (0..1 + r.below(8)).map(|_| format!("/{}", r.pick(&parts))).collect();
        let n = 1 + r.below(6); let rel = (0..n).map(|_| if r.chance(1, 3) { ".." } else { *r.pick(&parts) }).collect::<Vec<_>>().join("/");
        ctx.case("random", &format!("real {:?} with {:?}", s, rel), true, || check_real(&s, &rel))?;
        ctx.case("random virtual", &format!("virtual {:?} with {:?}", s, rel), true, || check_virtual(&s, &rel))?;
    } }
    Ok(())
}

fn under(p: &str, base: &str) -> bool { let c = |s: &str| s.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>(); c(p).starts_with(&c(base)) }
fn depth(p: &str) -> usize { p.split('/').filter(|x| !x.is_empty()).count() }
fn check_scope(ext: &[String], inc: &[String], exc: &[String], probes: &[String]) -> Result<(), String> {
    let abs = |v: &[String]| v.iter().map(|s| AbsPathBuf::assert(s.into())).collect::<Vec<_>>();
    let d = Directories { extensions: ext.to_vec(), include: abs(inc), exclude: abs(exc) };
    let e = Entry::Directories(d.clone());
    for p in probes {
        let best = inc.iter().filter(|i| under(p, i)).max_by_key(|i| depth(i));
        let dir = match best { None => false, Some(b) => !exc.iter().any(|x| under(p, x) && under(x, b)) };
        let name = p.rsplit('/').next().unwrap();
        let file = dir && last_dot(name).1.map_or(false, |x| ext.contains(&x));
        let a = AbsPathBuf::assert(p.into());
        if e.contains_dir(&a) != dir || d.contains_dir(&a) != dir { return Err(format!("directory {}: expected {}", p, dir)); }
        if e.contains_file(&a) != file || d.contains_file(&a) != file { return Err(format!("file {}: expected {}", p, file)); }
    }
    Ok(())
}
pub fn p14(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "all choices of up to 2 includes and 2 excludes out of 8 directories against 24 probes; random entries with up to 4 includes and 5 excludes; up to 300 of each, up to 300 components deep; lists of files";
    let dirs: Vec<String> = ["/a", "/a/b", "/ab", "/a/b/c", "/a/bc", "/", "/d", "/a/d"].iter().map(|s| s.to_string()).collect();
    let mut probes: Vec<String> = vec![]; for d in &dirs { for f in ["", "/x.move", "/x.rs"] { let d = d.trim_end_matches('/'); let p = format!("{}{}", d, f); if !p.is_empty() { probes.push(p); } } }
    let ext = vec!["move".to_string()];
    let subsets = |n: usize| -> Vec<Vec<String>> { let mut v: Vec<Vec<String>> = vec![vec![]]; for a in &dirs { v.push(vec![a.clone()]); if n > 1 { for b in &dirs { if a != b { v.push(vec![a.clone(), b.clone()]); } } } } v };
    for i in subsets(2) { for x in subsets(2) { ctx.case("enumerated", &format!("include {:?} exclude {:?}", i, x), !i.is_empty(), || check_scope(&ext, &i, &x, &probes))?; } }
    ctx.case("names that are not UTF-8", "include /a, extension U+FFFD", true, || {
        use std::os::unix::ffi::OsStringExt;
        let d = Directories { extensions: vec!["\u{fffd}".into(), "move".into()], include: vec![AbsPathBuf::assert("/a".into())], exclude: vec![] };
        for (b, want) in [(b"/a/x.\xff".to_vec(), false), (b"/a/\xff.move".to_vec(), true), (b"/a/x.move\xff".to_vec(), false), ("/a/x.\u{fffd}".as_bytes().to_vec(), true)] {
            let p = AbsPathBuf::assert(PathBuf::from(std::ffi::OsString::from_vec(b)));
            if d.contains_file(&p) != want || !d.contains_dir(&p) { return Err(format!("{:?}: expected {}", p, want)); }
        }
        Ok(())
    })?;
    for n in (1..80usize).chain([127, 128, 200, 255, 256, 300]) {
        let deep = |k: usize, t: &str| "/d".repeat(k) + t;
        let (i, x) = (vec!["/d".to_string(), deep(n, "")], vec![deep(n + 1, "/x"), deep(n.max(3) - 2, "/y"), deep(n, "/z")]);
        let p: Vec<String> = (0..n + 4).filter(|k| *k + 5 > n || k % 7 == 0).flat_map(|k| ["/m.move", "/x/m.move", "/y/q/m.move", "/z/m.move", "/dd/m.move", "/m.rs", "/m", "/x"].map(|t| deep(k, t))).collect();
        for (i, x) in [(i.clone(), x.clone()), (i.iter().rev().cloned().collect(), x.clone()), (i.iter().rev().cloned().collect(), [x.clone(), vec![deep(n / 2 + 1, "")]].concat()), (i.clone(), [vec![deep(n.max(2) - 1, "")], x.clone()].concat())] {
            ctx.case("deep", &format!("include {:?} exclude {:?}", i, x), true, || check_scope(&ext, &i, &x, &p))?;
        }
        let (i, x): (Vec<String>, Vec<String>) = ((0..n).map(|k| format!("/i{}", k)).collect(), (0..n).map(|k| format!("/i{}/x{}", k, k)).collect());
        let p: Vec<String> = (0..n + 1).step_by(1 + n / 60).chain([n - 1]).flat_map(|k| [format!("/i{}/m.move", k), format!("/i{}/x{}/m.move", k, k), format!("/i{}/x{}x/m.move", k, k), format!("/i{}", k)]).collect();
        ctx.case("many directories", &format!("include /i0.. exclude /i0/x0.., {} each", n), true, || check_scope(&ext, &i, &x, &p))?;
    }
    let mut r = Rng::new(ctx.seed, 14);
    while ctx.time_left() { for _ in 0..50 {
        let mk = |r: &mut Rng, n: usize, d: usize| (0..r.below(n + 1)).map(|_| tree_path(r, d)).collect::<Vec<_>>();
        let big = if r.chance(1, 12) { 6 } else { 1 };
        let (i, x) = (mk(&mut r, 4 * big, 3), mk(&mut r, 5 * big, 4));
        let exts: Vec<String> = (0..r.below(3)).map(|_| r.pick(&["move", "b", "rs", "toml", "Move", "mov", "MOVE", "é", "tar.move"]).to_string()).collect();
        let mut p = mk(&mut r, 12, 5);
        for d in i.iter().chain(&x) { p.push(d.clone()); p.push(format!("{}/m.{}", d, r.pick(&["move", "rs", "b", "", "Move", "MOVE", "moves", "mov", "é", "É", "tar.move", "move.", "toml"]))); p.push(format!("{}{}", d, r.pick(&["x", ".move", "/q/w.move"]))); }
        ctx.case("random", &format!("ext {:?} include {:?} exclude {:?} probes {:?}", exts, i, x, p), !i.is_empty(), || check_scope(&exts, &i, &x, &p))?;
        let files: Vec<String> = mk(&mut r, 5, 3);
        ctx.case("list of files", &format!("files {:?} probes {:?}", files, p), true, || {
            let e = Entry::Files(files.iter().map(|s| AbsPathBuf::assert(s.into())).collect());
            for q in p.iter().chain(&files) { let a = AbsPathBuf::assert(q.into());
                if e.contains_file(&a) != files.contains(q) { return Err(format!("file {}", q)); } if e.contains_dir(&a) { return Err(format!("directory {}", q)); } }
            Ok(())
        })?;
        for (e, ex) in [(Entry::rs_files_recursively as fn(AbsPathBuf) -> Entry, vec!["/w/.git"]), (Entry::local_cargo_package, vec!["/w/.git", "/w/target"])] {
            let _ = (e, ex);
        }
    } }
    Ok(())
}

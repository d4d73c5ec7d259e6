//! P19, P20 and the sessions of P15 and P16: the server as a whole.
use crate::common::*;
use crate::lines::{self, path, server};
use crate::store::{classes, tree_path};
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;
use vfs::file_set::FileSetConfig;
use vfs::VfsPath;

fn note(m: &str, v: Value) -> Message { Message::Notification(Notification::new(m.into(), v)) }
fn code(r: &Response) -> Option<i32> { r.error.as_ref().map(|e| e.code) }

#[derive(Debug, Clone)]
enum M { Req(usize, String, String, Option<i32>), Cancel(usize), Note(String, String) }
/// string ids too, some of them looking like other numbers, and odd numbers
fn jid(k: usize) -> Value {
    match k % 6 {
        2 if k > 30 => json!("long".repeat(k * 20)),
        2 => json!(format!("id{}", k)),
        5 if k % 12 == 5 => json!(format!("{}", k - 2)),
        5 => ["", " 7", "-1", "03"].get(k / 12).map_or(json!(format!("q{}", k)), |it| json!(it)),
        4 if k % 12 == 10 => json!(-(k as i32 / 10)),
        _ => json!(k),
    }
}
fn rid(k: usize) -> RequestId { serde_json::from_value(jid(k)).unwrap() }

/// A whole session through the public main loop.
fn run_loop(ms: &[M]) -> Result<(), String> {
    let (client, srv) = Connection::memory();
    let h = std::thread::spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let r = move_language_server::main_loop(lines::config(None), srv);
        r.map_err(|e| e.to_string())
    })));
    for m in ms {
        let msg = match m {
            M::Req(k, method, params, _) => Message::Request(Request::new(rid(*k), method.clone(), serde_json::from_str::<Value>(params).unwrap())),
            M::Cancel(k) => note("$/cancelRequest", json!({"id": jid(*k)})),
            M::Note(m, p) => note(m, serde_json::from_str(p).unwrap()),
        };
        if client.sender.send(msg).is_err() { break; }
    }
    let _ = client.sender.send(note("exit", Value::Null));
    let mut got: HashMap<RequestId, Vec<Response>> = HashMap::new();
    loop { match client.receiver.recv_timeout(Duration::from_secs(4)) {
        Ok(Message::Response(r)) => got.entry(r.id.clone()).or_default().push(r),
        Ok(_) => {}
        Err(crossbeam_channel::RecvTimeoutError::Timeout) => return Err("the server neither answers nor exits".into()),
        Err(_) => break,
    } }
    match h.join() { Ok(Ok(Ok(()))) => {} Ok(Ok(Err(e))) => return Err(format!("main loop failed: {}", e)), _ => return Err("main loop panicked".into()) }
    let mut down = false;
    for m in ms { if let M::Req(k, method, params, want) = m {
        let rs = got.remove(&rid(*k)).unwrap_or_default();
        if rs.len() != 1 { return Err(format!("request {:?} ({} {}) got {} responses", rid(*k), method, params, rs.len())); }
        let want = if down { Some(-32600) } else { *want };
        if code(&rs[0]) != want { return Err(format!("request {:?} ({} {}) answered with code {:?}, expected {:?}", rid(*k), method, params, code(&rs[0]), want)); }
        if rs[0].error.is_none() && rs[0].result.is_none() { return Err("neither result nor error".into()); }
        if method == "shutdown" && !down && want.is_none() { down = true; }
    } }
    if let Some((id, rs)) = got.into_iter().next() { return Err(format!("{} responses for {:?}, which was not asked", rs.len(), id)); }
    Ok(())
}
fn random_loop(r: &mut Rng) -> Vec<M> {
    let mut ids: Vec<usize> = (0..40).collect();
    let long = r.chance(1, 15);
    (0..1 + r.below(if long { 50 } else { 12 })).map(|_| match if long && r.chance(1, 2) { 4 } else { r.below(8) } {
        2 | 3 | 5..=7 if ids.len() < 2 => M::Cancel(r.below(40)),
        0 => M::Cancel(r.below(40)),
        1 => M::Note(r.pick(&["$/whatever", "textDocument/unknown", "window/workDoneProgress/cancel", "workspace/didChangeConfiguration"]).to_string(), "{\"token\":1}".into()),
        2 => M::Req(ids.remove(r.below(ids.len())), "shutdown".into(), r.pick(&["{\"a\":1}", "[1]", "7", "\"x\""]).to_string(), Some(-32602)),
        3 => M::Req(ids.remove(r.below(ids.len())), "shutdown".into(), "null".into(), None),
        4 => M::Note("textDocument/didOpen".into(), format!("{{\"textDocument\":{{\"uri\":\"file:///w/{}.move\",\"languageId\":\"move\",\"version\":1,\"text\":\"module {{\"}}}}", r.below(1000))),
        _ => M::Req(ids.remove(r.below(ids.len())), r.pick(&["textDocument/hover", "unknown", "", "$/x", "Shutdown", "shutdown ", "workspace/symbol"]).to_string(), r.pick(&["null", "{}", "[]"]).to_string(), Some(-32601)),
    }).collect()
}

#[derive(Debug, Clone)]
enum Q { Register(usize), Respond(usize), Cancel(usize), Dispatch(usize, u8, u8), Pump, CancelNote(usize), Shutdown, Wait(u64) }
const METHODS: &[&str] = &["verif/mut", "verif/sync", "verif/pool", "verif/none", "verif"];
const PARAMS: &[&str] = &["\"ok\"", "\"fail\"", "\"lsp\"", "\"panic\"", "17", "null"];
/// Pending requests driven one step at a time.
fn run_queue(ops: &[Q]) -> Result<(), String> {
    let (mut srv, rx) = server(None);
    let mut down = false;
    let mut pending: BTreeSet<usize> = BTreeSet::new();
    let mut pooled: BTreeMap<usize, Option<i32>> = BTreeMap::new();
    let read = |rx: &crossbeam_channel::Receiver<Message>| { let mut v = vec![]; while let Ok(m) = rx.try_recv() { if let Message::Response(r) = m { v.push(r); } } v };
    let tick = |srv: &mut move_language_server::verif_hooks::Server| srv.handle_task(Duration::from_millis(4000)).map_err(|e| e.to_string());
    for (i, q) in ops.iter().enumerate() {
        let mut want: Vec<(RequestId, Option<i32>)> = vec![];
        match q {
            Q::Register(k) => { if pending.contains(k) { continue; } srv.register_request(&Request::new(rid(*k), "m".into(), Value::Null)); pending.insert(*k); }
            Q::Respond(k) => { if pending.remove(k) { want.push((rid(*k), None)); } pooled.remove(k).map(|_| ()); srv.respond(Response::new_ok(rid(*k), 1)); }
            Q::Cancel(k) => { if pending.remove(k) { want.push((rid(*k), Some(-32800))); } srv.cancel(rid(*k)); }
            Q::CancelNote(k) => { if pending.remove(k) { want.push((rid(*k), Some(-32800))); } srv.handle_message(note("$/cancelRequest", json!({"id": jid(*k)}))).map_err(|e| e.to_string())?; }
            Q::Dispatch(k, m, p) => {
                if pending.contains(k) || pooled.contains_key(k) || (METHODS[*m as usize] == "verif/mut" && PARAMS[*p as usize] == "\"panic\"") { continue; }
                let c = match (METHODS[*m as usize], PARAMS[*p as usize]) { ("verif/none" | "verif", _) => Some(-32601), (_, "17" | "null") => Some(-32602), (_, "\"ok\"") => None, (_, "\"fail\"") => Some(-32603), (_, "\"lsp\"") => Some(-32602), _ => Some(-32603) };
                pending.insert(*k);
                srv.dispatch(Request::new(rid(*k), METHODS[*m as usize].into(), serde_json::from_str::<Value>(PARAMS[*p as usize]).unwrap())).map_err(|e| e.to_string())?;
                if METHODS[*m as usize] == "verif/pool" && *p < 4 { pooled.insert(*k, c); } else { want.push((rid(*k), c)); pending.remove(k); }
            }
            Q::Shutdown => { if std::mem::replace(&mut down, true) { continue; } srv.handle_message(Message::Request(Request::new(RequestId::from("down".to_string()), "shutdown".into(), Value::Null))).map_err(|e| e.to_string())?; want.push((RequestId::from("down".to_string()), None)); }
            Q::Wait(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            Q::Pump => {
                let mut left = pooled.len();
                let mut rs = vec![]; let mut spins = 0;
                while spins < pooled.len() + 2 && left > 0 { if !tick(&mut srv)? { break; } rs.extend(read(&rx)); spins += 1; left = pooled.iter().filter(|(k, _)| pending.contains(k) && !rs.iter().any(|r: &Response| r.id == rid(**k))).count(); }
                for r in &rs { let k = pooled.keys().find(|k| rid(**k) == r.id).copied().ok_or(format!("step {}: response for {:?}", i, r.id))?;
                    if !pending.remove(&k) { return Err(format!("step {}: response for {:?}, which is not pending", i, r.id)); }
                    if code(r) != pooled[&k] { return Err(format!("step {}: {:?} answered with {:?}, expected {:?}", i, r.id, code(r), pooled[&k])); } }
                if let Some(k) = pooled.keys().find(|k| pending.contains(k)) { return Err(format!("step {}: request {:?} was never answered", i, rid(*k))); }
                // let late answers of cancelled requests arrive: they must stay silent
                while srv.handle_task(Duration::from_millis(1)).map_err(|e| e.to_string())? {}
                pooled.clear();
            }
        }
        let got: Vec<(RequestId, Option<i32>)> = read(&rx).iter().map(|r| (r.id.clone(), code(r))).collect();
        if got != want { return Err(format!("step {}: {:?} sent {:?}, expected {:?}", i, q, got, want)); }
    }
    Ok(())
}
pub fn p19(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "random sessions through the public main loop (requests known and unknown, bad parameters, cancellations, shutdown) and random histories of register/dispatch/respond/cancel on the request queue, handlers that succeed, fail and panic, on the loop and in the pool";
    let mut r = Rng::new(ctx.seed, 19);
    let all: Vec<M> = vec![M::Req(0, "shutdown".into(), "null".into(), None), M::Req(1, "shutdown".into(), "7".into(), Some(-32602)), M::Req(2, "x".into(), "null".into(), Some(-32601)), M::Cancel(0), M::Cancel(2), M::Note("$/y".into(), "{}".into())];
    for a in &all { for b in &all { for c in &all {
        let mut ms = vec![a.clone(), b.clone(), c.clone()];
        let mut n = 0; for m in ms.iter_mut() { if let M::Req(k, ..) = m { *k = n; n += 1; } }
        ctx.case("sessions of three", &format!("{:?}", ms), true, || run_loop(&ms))?;
    } } }
    for m in 0..5u8 { for p in 0..6u8 { for then in 0..4 {
        let mut ops = vec![Q::Dispatch(2, m, p)];
        match then { 0 => ops.push(Q::Pump), 1 => { ops.push(Q::Cancel(2)); ops.push(Q::Pump) } 2 => { ops.push(Q::CancelNote(2)); ops.push(Q::Pump); ops.push(Q::Cancel(2)) } _ => { ops.push(Q::Respond(2)); ops.push(Q::Pump) } }
        if then == 3 && m == 2 { continue; }
        ctx.case("dispatch", &format!("{:?}", ops), true, || run_queue(&ops))?;
    } } }
    for a in [0, 2, 3, 5, 10, 11, 15, 17, 23] { for b in [0, 2, 3, 5, 10, 11, 15, 17, 23] { if a != b { for ops in [vec![Q::Register(a), Q::CancelNote(b), Q::CancelNote(a)], vec![Q::Register(a), Q::Register(b), Q::CancelNote(b), Q::Respond(b), Q::Respond(a)]] {
        ctx.case("cancelling by id", &format!("{:?} ids {} {}", ops, jid(a), jid(b)), true, || run_queue(&ops))?;
    } } } }
    let pool = METHODS.iter().position(|m| *m == "verif/pool").unwrap() as u8;
    for n in [6, 9, 17, 33, 40, 65, 100, 130] { for late in [0, 25] {
        let mut ops: Vec<Q> = (0..n).map(|k| Q::Dispatch(k, pool, (k % 4) as u8)).collect();
        if late > 0 { ops.push(Q::Wait(late)); ops.push(Q::Cancel(n / 2)); }
        ops.push(Q::Pump);
        ctx.case("bursts of handlers in the pool", &format!("{} requests, then {} ms of silence", n, late), true, || run_queue(&ops))?;
    } }
    while ctx.time_left() {
        let ms = random_loop(&mut r);
        ctx.case("random sessions", &format!("{:?}", ms), true, || run_loop(&ms))?;
        for _ in 0..6 {
            let ops: Vec<Q> = (0..1 + r.below(20)).map(|_| { let k = r.below(5); match r.below(24) { 23 => Q::Shutdown, 0 | 8..=10 => Q::Register(5 + k), 1 | 11 => Q::Respond(5 + r.below(5)), 2 | 12 | 13 => Q::Cancel(r.below(10)), 3 | 14 | 15 => Q::CancelNote(r.below(10)), 4 | 16 => Q::Pump, _ => Q::Dispatch(k, r.below(5) as u8, r.below(6) as u8) } }).chain([Q::Pump]).collect();
            ctx.case("queue histories", &format!("{:?}", ops), true, || run_queue(&ops))?;
        }
    }
    Ok(())
}

fn seen(bytes: Option<&Vec<u8>>) -> String {
    bytes.and_then(|b| String::from_utf8(b.clone()).ok()).map(|s| s.replace("\r\n", "\n")).unwrap_or_default()
}
#[derive(Debug, Clone)]
enum C { Write(usize, Option<Vec<u8>>), Absorb }
fn run_changes(files: &[String], sets: &[Vec<VfsPath>], local: &[usize], ops: &[C]) -> Result<(), String> {
    let (mut srv, _rx) = server(None);
    let mut b = FileSetConfig::builder();
    for s in sets { b.add_file_set(s.clone()); }
    srv.set_source_roots(b.build(), local.to_vec());
    let mut store: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut absorbed: BTreeMap<usize, (String, vfs::FileId)> = BTreeMap::new();
    let mut dirty = false;
    for (i, op) in ops.iter().chain([&C::Absorb]).enumerate() {
        match op {
            C::Write(f, c) => { let old = store.get(f).cloned(); dirty |= old != *c; match c { Some(c) => { store.insert(*f, c.clone()); } None => { store.remove(f); } } srv.set_file_contents(path(&files[*f]), c.clone()); }
            C::Absorb => {
                let did = srv.process_changes();
                if did != dirty { return Err(format!("step {}: absorbing reported {}, expected {}", i, did, dirty)); }
                dirty = false;
                for (f, _) in absorbed.clone() { let t = seen(store.get(&f)); absorbed.get_mut(&f).unwrap().0 = t; }
                for (f, c) in &store { let id = srv.file_id(&path(&files[*f])).ok_or(format!("step {}: {} unknown", i, files[*f]))?; absorbed.insert(*f, (seen(Some(c)), id)); }
                if srv.process_changes() { return Err(format!("step {}: absorbed twice", i)); }
            }
        }
        for (f, (t, id)) in &absorbed {
            let got = srv.analysis_text(*id);
            if *got != *t { return Err(format!("step {}: analysis of {} sees {}, expected {}", i, files[*f], esc(&clip(&got, 200)), esc(&clip(t, 200)))); }
            if matches!(op, C::Absorb) && store.contains_key(f) {
                let (root, lib) = srv.source_root(*id);
                let want = classes(sets, &path(&files[*f]));
                if !want.contains(&(root as usize)) { return Err(format!("step {}: {} is in root {}, expected {:?}", i, files[*f], root, want)); }
                if lib == local.contains(&(root as usize)) { return Err(format!("step {}: root {} library: {}", i, root, lib)); }
            }
        }
    }
    Ok(())
}
pub fn p20(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "all histories of 4 steps over 2 files and 3 contents with an absorption anywhere; random histories of up to 30 steps over 6 files with random source roots";
    let files: Vec<String> = ["/w/a.move", "/w/ab/a.move"].iter().map(|s| s.to_string()).collect();
    let sets = vec![vec![path("/w/a")], vec![path("/w/ab")]];
    let cs = [None, Some(b"x\r\n".to_vec()), Some(b"y".to_vec()), Some(vec![0xff, b'z'])];
    let mut base = vec![C::Absorb]; for f in 0..2 { for c in &cs { base.push(C::Write(f, c.clone())); } }
    let mut hs: Vec<Vec<C>> = vec![vec![]];
    for _ in 0..if ctx.thorough { 5 } else { 4 } { let mut n = vec![]; for h in &hs { for b in &base { let mut g = h.clone(); g.push(b.clone()); n.push(g); } } hs = n; }
    let quick_skip = if ctx.thorough { 1 } else { 3 };
    for (i, h) in hs.iter().enumerate() { if i % quick_skip == (ctx.seed as usize) % quick_skip { ctx.case("enumerated", &format!("{:?}", h), true, || run_changes(&files, &sets, &[0], h))?; } }
    let mut r = Rng::new(ctx.seed, 20);
    while ctx.time_left() { for _ in 0..10 {
        let (nf, ns) = if r.chance(1, 25) { (60, 150) } else { (6, 30) };
        let mut files: Vec<String> = (0..nf).map(|_| tree_path(&mut r, 4)).collect(); files.sort(); files.dedup();
        let many = if r.chance(1, 25) { 40 } else { 4 };
        let sets: Vec<Vec<VfsPath>> = (0..r.below(many)).map(|_| (0..r.below(3)).map(|_| path(&tree_path(&mut r, 2))).collect()).collect();
        let local: Vec<usize> = (0..=sets.len()).filter(|_| r.chance(1, 2)).collect();
        let ops: Vec<C> = (0..1 + r.below(ns)).map(|_| if r.chance(1, 4) { C::Absorb } else { C::Write(r.below(files.len()), if r.chance(1, 4) { None } else if r.chance(1, 8) { Some(vec![b'a', 0xc3]) } else { Some({ let n = if r.chance(1, 20) { 500 } else { 6 }; lines::random_text(&mut r, n) }.into_bytes()) }) }).collect();
        ctx.case("random", &format!("files {:?} roots {:?} local {:?} steps {:?}", files, sets, local, ops), true, || run_changes(&files, &sets, &local, &ops))?;
    } }
    Ok(())
}

fn open(u: &str, v: i32, t: &str) -> Message { note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "move", "version": v, "text": t}})) }
fn change(u: &str, v: i32, t: &str) -> Message { note("textDocument/didChange", json!({"textDocument": {"uri": u, "version": v}, "contentChanges": [{"text": t}]})) }
fn close(u: &str) -> Message { note("textDocument/didClose", json!({"textDocument": {"uri": u}})) }
const URIS: &[&str] = &["file:///w/a.move", "file:///w/b.move", "file:///w/d/a.move", "file:///w/%C3%A9.move", "file:///w/x/../c.move"];
fn uri(d: usize) -> String { URIS.get(d).map_or_else(|| format!("file:///w/n/{}.move", d), |u| u.to_string()) }
fn file(d: usize) -> String { FILES.get(d).map_or_else(|| format!("/w/n/{}.move", d), |u| u.to_string()) }
const FILES: &[&str] = &["/w/a.move", "/w/b.move", "/w/d/a.move", "/w/é.move", "/w/c.move"];

/// P16 through the server: open, change and close notifications.
pub fn documents_session(ctx: &mut Ctx, r: &mut Rng) -> Outcome {
    let (docs, steps) = if r.chance(1, 100) { (140, 300) } else if r.chance(1, 30) { (30, 120) } else { (5, 15) };
    let ops: Vec<(usize, usize, i32, String)> = (0..1 + r.below(steps)).map(|i| (if docs > 5 && i < 40 * docs / 30 { 0 } else { r.below(5) }, r.below(docs), if r.chance(1, 5) { *r.pick(&[0, 1, i32::MAX, i32::MIN]) } else { r.below(100) as i32 - 5 }, lines::random_text(r, 4))).collect();
    ctx.case("sessions", &format!("{:?}", ops), true, || {
        let (mut srv, rx) = server(None);
        let mut m: BTreeMap<usize, i32> = BTreeMap::new(); let mut text: BTreeMap<usize, String> = BTreeMap::new();
        for (i, (k, d, v, t)) in ops.iter().enumerate() {
            let msg = match k {
                0 => { m.insert(*d, *v); text.insert(*d, t.clone()); open(&uri(*d), *v, t) }
                1 => { if m.contains_key(d) { m.insert(*d, *v); text.insert(*d, t.clone()); } change(&uri(*d), *v, t) }
                2 => { if m.contains_key(d) { m.insert(*d, *v); } note("textDocument/didChange", json!({"textDocument": {"uri": uri(*d), "version": v}, "contentChanges": []})) }
                3 => { if m.contains_key(d) { m.insert(*d, *v); text.insert(*d, format!("{}!", t)); }
                    note("textDocument/didChange", json!({"textDocument": {"uri": uri(*d), "version": v}, "contentChanges": [{"text": "first"}, {"text": "!"}, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "text": t}]})) }
                _ => { m.remove(d); close(&uri(*d)) }
            };
            srv.handle_message(msg).map_err(|e| e.to_string())?;
            for j in 0..docs { let f = &file(j);
                if srv.document_version(&path(f)) != m.get(&j).copied() { return Err(format!("step {}: version of {} is {:?}, expected {:?}", i, f, srv.document_version(&path(f)), m.get(&j))); }
                if srv.stored(&path(f)) != text.get(&j).map(|t| t.clone().into_bytes()) { return Err(format!("step {}: stored text of {} is {:?}, expected {:?}", i, f, srv.stored(&path(f)), text.get(&j))); }
            }
        }
        while let Ok(m) = rx.try_recv() { if let Message::Response(r) = m { return Err(format!("a notification was answered: {:?}", r)); } }
        Ok(())
    })
}

/// P06, P08, P15 through the server: what the client was last told equals the syntax errors of the text; P16: with the version announced.
pub fn p06(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "sessions of opens, changes and closes of up to three documents, sometimes 36, one of 140 (CRLF, characters beyond the BMP, more than 128 errors), what was published last compared with the errors of the text";
    let mut r = Rng::new(ctx.seed, 6);
    diagnostics_session(ctx, &mut r, Some(140))?;
    while ctx.time_left() { diagnostics_session(ctx, &mut r, None)?; }
    Ok(())
}
pub fn diagnostics_session(ctx: &mut Ctx, r: &mut Rng, many: Option<usize>) -> Outcome {
    let texts = ["", "module 0x1::M {}", "module {", "module 0x1::M { fun f() { 1 + } }", "struct", "é module 0x1::M {\n}", "}\n}\n", "script { fun main() { let a = 1; } }", "module 0x1::M { // 𝄞\n ) }"];
    let mut texts: Vec<String> = texts.iter().map(|s| s.to_string()).collect();
    texts.push("module 0x1::M {\r\n ) }\r\n\r\né }".into());
    texts.push(format!("module 0x1::é {{ // 𝄞\n{}", ") 𝄞\n ".repeat(20 + r.below(130))));
    for _ in 0..2 { let n = 1 + r.below(40); texts.push((0..n).map(|_| *r.pick(&["module ", "0x1::M ", "{", "}", "fun ", "f", "(", ")", " ", "\n", "\r\n", "é", "𝄞", "let a = 1;", "struct S", "// é\n", "\"x"])).collect()); }
    let prop = ctx.prop.clone();
    let (docs, steps) = if let Some(n) = many { texts.truncate(10); (n, 30) } else if r.chance(1, 40) { (*r.pick(&[10, 20, 36]), 50) } else { (3, 8) };
    let ops: Vec<(usize, usize, i32, usize)> = (0..if docs > 3 { docs } else { 1 } + r.below(steps)).map(|i| (if docs > 3 && i < docs { 0 } else if r.chance(1, 30) { 9 } else { r.below(3) }, if docs > 3 && i < docs { i } else { r.below(docs) }, r.below(100) as i32, r.below(texts.len()))).collect();
    let utf8 = r.chance(1, 3);
    ctx.case("sessions", &format!("utf-8: {} {:?}", utf8, ops.iter().map(|o| (o.0, o.1, o.2, &texts[o.3])).collect::<Vec<_>>()), true, || {
        let (mut srv, rx) = server(if utf8 { Some(vec!["utf-8".into()]) } else { None });
        let mut b = FileSetConfig::builder(); b.add_file_set(vec![path("/w")]); srv.set_source_roots(b.build(), vec![0]);
        let mut m: BTreeMap<usize, (i32, String)> = BTreeMap::new();
        let mut shown: BTreeMap<String, lsp_types::PublishDiagnosticsParams> = BTreeMap::new();
        for (i, (k, d, v, t)) in ops.iter().enumerate() {
            let msg = match k {
                0 => { m.insert(*d, (*v, texts[*t].clone())); open(&uri(*d), *v, &texts[*t]) }
                1 => { if m.contains_key(d) { m.insert(*d, (*v, texts[*t].clone())); } change(&uri(*d), *v, &texts[*t]) }
                9 => Message::Request(Request::new(rid(i), "shutdown".into(), Value::Null)),
                _ => { m.remove(d); close(&uri(*d)) }
            };
            srv.handle_message(msg).map_err(|e| e.to_string())?;
            if docs > 40 && i < docs && i % 16 != 0 { continue; }
            // what is shown has to become right; tasks run in the pool, so give them time before saying it does not
            let mut wait = 4;
            loop {
                while srv.handle_task(Duration::from_millis(wait)).map_err(|e| e.to_string())? {}
                while let Ok(msg) = rx.try_recv() { if let Message::Notification(n) = msg { if n.method == "textDocument/publishDiagnostics" {
                    let p: lsp_types::PublishDiagnosticsParams = serde_json::from_value(n.params).unwrap(); 
                    if prop == "P16" { if let Some(d) = (0..docs).find(|d| lsp_types::Url::parse(&uri(*d)).unwrap() == p.uri) { if p.version != m.get(&d).map(|x| x.0) { return Err(format!("step {}: {} is reported on with version {:?}, announced {:?}", i, p.uri, p.version, m.get(&d).map(|x| x.0))); } } }
                    shown.insert(p.uri.to_string(), p); } } }
                let mut bad = None;
                for (d, (_, t)) in m.iter().filter(|_| prop != "P16") {
                    let t = t.replace("\r\n", "\n");
                    let want: Vec<(lsp_types::Range, String, Option<lsp_types::DiagnosticSeverity>)> = syntax::SourceFile::parse(&t).errors().iter().take(128).map(|e| (lsp_types::Range::new(lines::position_of(&t, e.range().start().into(), !utf8), lines::position_of(&t, e.range().end().into(), !utf8)), format!("Syntax Error: {}", e), Some(lsp_types::DiagnosticSeverity::Error))).collect();
                    let p = shown.get(&lsp_types::Url::parse(&uri(*d)).unwrap().to_string());
                    let mut got: Vec<_> = p.iter().flat_map(|p| p.diagnostics.iter().map(|d| (d.range, d.message.clone(), d.severity))).collect();
                    if prop != "P06" { for (g, w) in got.iter_mut().zip(&want) { g.2 = w.2; } }
                    if prop == "P08" { if got.len() != want.len() { if wait < 1000 { bad = Some(String::new()); } continue; } for (g, w) in got.iter_mut().zip(&want) { g.1 = w.1.clone(); } }
                    if got != want { let k = got.iter().zip(&want).take_while(|(g, w)| g == w).count(); bad = Some(format!("step {}: {} shows {} diagnostics, expected {}; number {} is {:?}, expected {:?}", i, uri(*d), got.len(), want.len(), k, got.get(k), want.get(k))); }
                }
                match bad { None => break, Some(b) if wait > 1000 => return Err(b), Some(_) => wait *= 8 }
            }
        }
        Ok(())
    })
}

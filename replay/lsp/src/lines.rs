//! P07-P10: line index, protocol positions, document edits, line ends.
use crate::common::*;
use ide_db::{LineCol, LineColUtf16, LineIndex};
use lsp_types::{Position, Range, TextDocumentContentChangeEvent as Ev};
use move_language_server::verif_hooks::{self as h, Lines, Server};
use syntax::{TextRange, TextSize};

pub const CHARS: &[&str] = &["a", "b", "\n", "\n", "\r\n", "\r", " ", "\t", "é", "ß", "€", "中", "\u{2028}", "𝄞", "😀", "\u{10FFFF}", "e\u{301}", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}"];

pub fn random_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let pool: &[&str] = match r.below(4) { 0 => &["a", "\n"], 1 => &["é", "𝄞", "\n", "a"], _ => CHARS };
    (0..n).map(|_| *r.pick(pool)).collect()
}
/// All texts over `alphabet` of length up to `max`.
pub fn all_texts(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()]; let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for t in &last { for a in alphabet { next.push(format!("{}{}", t, a)); } }
        out.extend(next.iter().cloned()); last = next;
    }
    out
}
pub fn boundaries(t: &str) -> Vec<usize> { (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect() }
fn ts(n: usize) -> TextSize { TextSize::from(n as u32) }
/// (line, start of the line)
fn line_of(t: &str, o: usize) -> (u32, usize) {
    let b = &t.as_bytes()[..o];
    let line = b.iter().filter(|c| **c == b'\n').count() as u32;
    let start = b.iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    (line, start)
}
fn u16len(s: &str) -> u32 { s.chars().map(|c| c.len_utf16() as u32).sum() }
pub fn position_of(t: &str, o: usize, utf16: bool) -> Position {
    let (l, s) = line_of(t, o);
    Position::new(l, if utf16 { u16len(&t[s..o]) } else { (o - s) as u32 })
}

fn check_index(t: &str) -> Result<(), String> {
    let ix = LineIndex::new(t);
    let bs = boundaries(t);
    for &o in &bs {
        let (l, s) = line_of(t, o);
        let lc = ix.line_col(ts(o));
        if (lc.line, lc.col) != (l, (o - s) as u32) { return Err(format!("line_col({}) = {}:{}, expected {}:{}", o, lc.line, lc.col, l, o - s)); }
        if ix.offset(LineCol { line: l, col: (o - s) as u32 }) != ts(o) { return Err(format!("offset of {}:{} is {:?}, expected {}", l, o - s, ix.offset(lc), o)); }
        let w = ix.to_utf16(LineCol { line: l, col: (o - s) as u32 });
        let want = u16len(&t[s..o]);
        if (w.line, w.col) != (l, want) { return Err(format!("to_utf16 of {}:{} is {}:{}, expected {}:{}", l, o - s, w.line, w.col, l, want)); }
        let b = ix.to_utf8(LineColUtf16 { line: l, col: want });
        if (b.line, b.col) != (l, (o - s) as u32) { return Err(format!("to_utf8 of {}:{} is {}:{}, expected {}:{}", l, want, b.line, b.col, l, o - s)); }
    }
    let pairs: Vec<(usize, usize)> = if bs.len() <= 14 { bs.iter().flat_map(|a| bs.iter().filter(move |b| a <= b).map(move |b| (*a, *b))).collect() }
        else { (0..bs.len()).map(|i| { let j = (i * 7 + 3) % bs.len(); (bs[i.min(j)], bs[i.max(j)]) }).collect() };
    for (a, b) in pairs {
        let got: Vec<(usize, usize)> = ix.lines(TextRange::new(ts(a), ts(b))).map(|r| (r.start().into(), r.end().into())).collect();
        let mut want = vec![]; let mut p = a;
        for piece in t[a..b].split_inclusive('\n') { want.push((p, p + piece.len())); p += piece.len(); }
        if got != want { return Err(format!("lines({}..{}) = {:?}, expected {:?}", a, b, got, want)); }
    }
    Ok(())
}

/// The same without the pairs, in one walk, for long texts.
fn check_index_long(t: &str) -> Result<(), String> {
    let ix = LineIndex::new(t);
    let (mut line, mut col, mut col16) = (0u32, 0u32, 0u32);
    let mut starts = vec![0usize];
    for (o, c) in t.char_indices().map(|(o, c)| (o, Some(c))).chain([(t.len(), None)]) {
        let lc = ix.line_col(ts(o));
        if (lc.line, lc.col) != (line, col) { return Err(format!("line_col({}) = {}:{}, expected {}:{}", o, lc.line, lc.col, line, col)); }
        if ix.offset(LineCol { line, col }) != ts(o) { return Err(format!("offset of {}:{} is {:?}, expected {}", line, col, ix.offset(lc), o)); }
        if o % 7 == 0 || c.map_or(true, |c| c.len_utf8() > 1) {
            let w = ix.to_utf16(LineCol { line, col });
            if (w.line, w.col) != (line, col16) { return Err(format!("to_utf16 of {}:{} is {}:{}, expected {}:{}", line, col, w.line, w.col, line, col16)); }
            let b = ix.to_utf8(LineColUtf16 { line, col: col16 });
            if (b.line, b.col) != (line, col) { return Err(format!("to_utf8 of {}:{} is {}:{}, expected {}:{}", line, col16, b.line, b.col, line, col)); }
        }
        match c { Some('\n') => { line += 1; col = 0; col16 = 0; starts.push(o + 1); } Some(c) => { col += c.len_utf8() as u32; col16 += c.len_utf16() as u32; } None => {} }
    }
    let n = t.len();
    for (a, b) in [(0, n), (n / 3, n), (0, n / 2), (n / 3, n / 2)] {
        let (a, b) = ((a..=n).find(|i| t.is_char_boundary(*i)).unwrap(), (b..=n).find(|i| t.is_char_boundary(*i)).unwrap());
        let mut p = a; let mut want = vec![];
        for piece in t[a..b].split_inclusive('\n') { want.push((p, p + piece.len())); p += piece.len(); }
        let got: Vec<(usize, usize)> = ix.lines(TextRange::new(ts(a), ts(b))).map(|r| (r.start().into(), r.end().into())).collect();
        if got != want { return Err(format!("lines({}..{}) gives {} ranges, expected {}", a, b, got.len(), want.len())); }
    }
    Ok(())
}
fn long_texts() -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [127usize, 128, 255, 256, 257, 1023, 32_768, 65_535, 65_536, 70_001] {
        v.push((format!("\"a\" x {}", n), "a".repeat(n)));
        v.push((format!("\"\\n\" x {}", n), "\n".repeat(n)));
        v.push((format!("\"a\\n\" x {} + \"é𝄞b\"", n), format!("{}é𝄞b", "a\n".repeat(n))));
        v.push((format!("\"a\" x {} + \"é𝄞b\\n𝄞é\"", n), format!("{}é𝄞b\n𝄞é", "a".repeat(n))));
    }
    for n in [1023usize, 65_530, 70_001] {
        for c in ["\u{2028}", "\r", "\u{85}", "\t", "e\u{301}"] { v.push((format!("({:?} + \"𝄞a\\n\") x {} + {:?} + \"é𝄞b\"", c, n, c), format!("{}{}é𝄞b", format!("{}𝄞a\n", c).repeat(n), c))); }
        v.push((format!("\"\\n\" x {} + \"é𝄞\\né𝄞\" + \"\\n𝄞\" x 9", n), format!("{}é𝄞\né𝄞{}", "\n".repeat(n), "\n𝄞".repeat(9))));
    }
    v.push(("(\"a\" x 150 + \"é𝄞€\") x 500".into(), format!("{}é𝄞€", "a".repeat(150)).repeat(500)));
    v.push(("\"€é𝄞\" x 1500".into(), "€é𝄞".repeat(1500)));
    v
}
fn check_proto_long(t: &str) -> Result<(), String> {
    for utf16 in [false, true] {
        let ix = Lines::new(t, utf16);
        let (mut line, mut col) = (0u32, 0u32);
        for (o, c) in t.char_indices().map(|(o, c)| (o, Some(c))).chain([(t.len(), None)]) {
            if o < 300 || o + 300 > t.len() || o % 101 == 0 || (65_000..66_000).contains(&o) {
                let (p, want) = (ix.position(ts(o)), Position::new(line, col));
                if p != want { return Err(format!("utf16={}: position of {} is {:?}, expected {:?}", utf16, o, p, want)); }
                if ix.offset(want) != ts(o) { return Err(format!("utf16={}: offset of {:?} is {:?}, expected {}", utf16, want, ix.offset(want), o)); }
            }
            match c { Some('\n') => { line += 1; col = 0; } Some(c) => col += if utf16 { c.len_utf16() } else { c.len_utf8() } as u32, None => {} }
        }
    }
    Ok(())
}

fn shrunk(ctx: &mut Ctx, group: &str, t: &str, f: fn(&str) -> Result<(), String>) -> Outcome {
    match ctx.case(group, t, !t.is_empty(), || f(t)) {
        Ok(()) => Ok(()),
        Err(v) => { let s = shrink_text(t, |s| !matches!(std::panic::catch_unwind(|| f(s)), Ok(Ok(()))));
            match ctx.case("shrunk", &s, false, || f(&s)) { Err(v2) => Err(v2), Ok(()) => Err(v) } }
    }
}
pub fn p07(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "every text of up to 5 characters over {a, newline, é, €, 𝄞, CR}, plus random texts; every character boundary of each, and pairs of boundaries; lines of up to 88,000 columns and texts of up to 70,000 lines";
    for t in all_texts(&["a", "\n", "é", "€", "𝄞", "\r"], if ctx.thorough { 6 } else { 4 }) { shrunk(ctx, "enumerated", &t, check_index)?; }
    for c in (0..0x3000u32).chain(0xD000..0xE100).chain(0xFF00..0x10100).chain(0x10FFF0..0x110000) { if let Some(c) = char::from_u32(c) { shrunk(ctx, "each character", &format!("x{}y\n{}z", c, c), check_index)?; } }
    shrunk(ctx, "long", &"ab𝄞é\n".repeat(500), check_index)?;
    shrunk(ctx, "long", &"€é𝄞x".repeat(300), check_index)?;
    for (d, t) in long_texts() { ctx.case("very long", &d, true, || check_index_long(&t))?; }
    let mut r = Rng::new(ctx.seed, 7);
    while ctx.time_left() { for _ in 0..50 { let n = if r.chance(1, 40) { 400 } else { 40 }; let t = random_text(&mut r, n); shrunk(ctx, "random", &t, check_index)?; } }
    Ok(())
}

fn check_proto(t: &str) -> Result<(), String> {
    for utf16 in [false, true] {
        let ix = Lines::new(t, utf16);
        let bs = boundaries(t);
        let mut prev: Option<(usize, Position)> = None;
        for &o in &bs {
            let want = position_of(t, o, utf16);
            let p = ix.position(ts(o));
            if p != want { return Err(format!("utf16={}: position of {} is {:?}, expected {:?}", utf16, o, p, want)); }
            let back = ix.offset(want);
            if back != ts(o) { return Err(format!("utf16={}: offset of {:?} is {:?}, expected {}", utf16, want, back, o)); }
            if let Some((a, pa)) = prev {
                let g = ix.range(TextRange::new(ts(a), ts(o)));
                if g != Range::new(pa, want) { return Err(format!("utf16={}: range {}..{} is {:?}", utf16, a, o, g)); }
                if ix.text_range(g) != TextRange::new(ts(a), ts(o)) { return Err(format!("utf16={}: text range of {:?} is {:?}", utf16, g, ix.text_range(g))); }
            }
            if o % 3 == 0 || prev.is_none() { prev = Some((o, want)); }
        }
    }
    Ok(())
}
pub fn config(encodings: Option<Vec<String>>) -> move_language_server::config::Config {
    let caps = lsp_types::ClientCapabilities { offset_encoding: encodings, ..Default::default() };
    move_language_server::config::Config::new(paths::AbsPathBuf::assert("/w".into()), caps)
}
pub fn server(encodings: Option<Vec<String>>) -> (Server, crossbeam_channel::Receiver<lsp_server::Message>) {
    let (s, r) = crossbeam_channel::unbounded();
    (Server::new(s, config(encodings)), r)
}
fn offers() -> Vec<(Option<Vec<String>>, bool)> {
    let v = |xs: &[&str]| Some(xs.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    vec![(None, true), (v(&[]), true), (v(&["utf-16"]), true), (v(&["utf-8"]), false), (v(&["utf-32", "utf-8"]), false), (v(&["utf-8", "utf-16"]), false), (v(&["utf-16", "utf-8"]), false), (v(&["utf-32"]), true), (v(&["utf-8x"]), true)]
}
pub fn path(s: &str) -> vfs::VfsPath { vfs::VfsPath::from(paths::AbsPathBuf::assert(s.into())) }

fn check_negotiated(texts: &[String]) -> Result<(), String> {
    for (offer, utf16) in offers() {
        let (mut srv, _rx) = server(offer.clone());
        for (i, t) in texts.iter().enumerate() { srv.set_file_contents(path(&format!("/w/f{}.move", i)), Some(t.clone().into_bytes())); }
        srv.process_changes();
        for (i, t) in texts.iter().enumerate() {
            let id = srv.file_id(&path(&format!("/w/f{}.move", i))).ok_or("file unknown")?;
            let t = t.replace("\r\n", "\n");
            for o in boundaries(&t) {
                let p = srv.position(id, ts(o)).ok_or("cancelled")?;
                let want = position_of(&t, o, utf16);
                if p != want { return Err(format!("client offers {:?}: position of offset {} in file {} is {:?}, expected {:?}", offer, o, i, p, want)); }
            }
        }
    }
    Ok(())
}
/// The real server process, told over stdio what the client offers: what it announces.
fn check_announced(bin: &str, offer: &Option<Vec<String>>, utf16: bool) -> Result<(), String> {
    use std::io::BufReader;
    struct Kill(std::process::Child);
    impl Drop for Kill { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
    let dir = std::env::temp_dir().join(format!("vp-p08-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    struct Gone(std::path::PathBuf);
    impl Drop for Gone { fn drop(&mut self) { let _ = std::fs::remove_dir(&self.0); } }
    let _gone = Gone(dir.clone());
    let c = std::process::Command::new(bin).current_dir(&dir).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn();
    let mut c = match c { Ok(c) => Kill(c), Err(_) => return Ok(()) };
    let (mut i, o) = (c.0.stdin.take().unwrap(), c.0.stdout.take().unwrap());
    let mut caps = serde_json::json!({});
    if let Some(v) = offer { caps["offsetEncoding"] = serde_json::json!(v); }
    lsp_server::Message::Request(lsp_server::Request::new(1.into(), "initialize".into(), serde_json::json!({"processId": null, "rootUri": null, "capabilities": caps}))).write(&mut i).map_err(|e| e.to_string())?;
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let mut o = BufReader::new(o); let _ = s.send(lsp_server::Message::read(&mut o)); });
    // no answer in time says nothing of the encoding
    let m = match r.recv_timeout(std::time::Duration::from_secs(60)) { Ok(Ok(Some(lsp_server::Message::Response(m)))) => m, _ => return Ok(()) };
    let v = match m.result { Some(v) => v, None => return Ok(()) };
    let told = v.get("offsetEncoding").and_then(|x| x.as_str()).unwrap_or("utf-16").to_string();
    if told != (if utf16 { "utf-16" } else { "utf-8" }) { return Err(format!("the server announces {} to a client that offers {:?}, and uses {}", told, offer, if utf16 { "utf-16" } else { "utf-8" })); }
    Ok(())
}
pub fn p08(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "texts as for P07, both encodings, every boundary; servers started with nine offers of encodings, several files each; the server process asked over stdio what it announces to each";
    if let Ok(bin) = std::env::var("VERIF_SERVER") {
        for (offer, utf16) in offers() { ctx.case("announced", &format!("{:?}", offer), true, || check_announced(&bin, &offer, utf16))?; }
    }
    for t in all_texts(&["a", "\n", "é", "𝄞"], if ctx.thorough { 6 } else { 5 }) { shrunk(ctx, "enumerated", &t, check_proto)?; }
    for (d, t) in long_texts() { ctx.case("very long", &d, true, || check_proto_long(&t))?; }
    let mut r = Rng::new(ctx.seed, 8);
    for round in 0.. {
        if !ctx.time_left() && round > 0 { break; }
        let ts: Vec<String> = (0..1 + r.below(4)).map(|_| random_text(&mut r, 12)).collect();
        ctx.case("negotiated", &format!("{:?}", ts), true, || check_negotiated(&ts))?;
        crate::server::diagnostics_session(ctx, &mut r, None)?;
        for _ in 0..60 { let n = if r.chance(1, 40) { 400 } else { 40 }; let t = random_text(&mut r, n); shrunk(ctx, "random", &t, check_proto)?; }
    }
    Ok(())
}

/// The offset of a position in UTF-16 columns, by counting.
fn offset_of(t: &str, p: Position) -> Option<usize> {
    let mut start = 0;
    for _ in 0..p.line { start += t[start..].find('\n')? + 1; }
    let mut col = 0;
    for (i, c) in t[start..].char_indices() {
        if col == p.character { return Some(start + i); }
        if c == '\n' { return None; }
        col += c.len_utf16() as u32;
    }
    (col == p.character).then(|| t.len())
}
pub fn apply_one(t: &str, e: &Ev) -> Option<String> {
    Some(match e.range {
        None => e.text.clone(),
        Some(r) => { let (a, b) = (offset_of(t, r.start)?, offset_of(t, r.end)?); if a > b { return None; } format!("{}{}{}", &t[..a], e.text, &t[b..]) }
    })
}
pub fn random_edit(r: &mut Rng, t: &str) -> Ev {
    let text = if r.chance(1, 4) { String::new() } else { random_text(r, 5) };
    if r.chance(1, 12) { return Ev { range: None, range_length: None, text: random_text(r, 15) }; }
    let bs = boundaries(t);
    let a = *r.pick(&bs); let rest: Vec<usize> = bs.iter().copied().filter(|b| *b >= a).collect();
    if r.chance(1, 15) { let p = position_of(t, a, true); return Ev { range: Some(Range::new(p, p)), range_length: None, text: String::new() }; }
    let b = if r.chance(1, 3) { a } else if r.chance(1, 2) { rest[r.below(rest.len().min(4))] } else { *r.pick(&rest) };
    Ev { range: Some(Range::new(position_of(t, a, true), position_of(t, b, true))), range_length: None, text }
}
pub fn show(t: &str, es: &[Ev]) -> String {
    let mut s = format!("text {}", esc(t));
    for e in es { match e.range { None => s += &format!("; replace all by {}", esc(&e.text)), Some(r) => s += &format!("; {}:{}-{}:{} -> {}", r.start.line, r.start.character, r.end.line, r.end.character, esc(&e.text)) } }
    s
}
fn check_edits(t: &str, es: &[Ev]) -> Result<(), String> {
    let mut want = t.to_string();
    for e in es { match apply_one(&want, e) { Some(w) => want = w, None => return Ok(()) } }
    let mut got = t.to_string();
    h::apply_document_changes(&mut got, es.to_vec());
    if got != want { return Err(format!("got {}, expected {}", esc(&got), esc(&want))); }
    Ok(())
}
/// The same through open and change notifications, split into several of them.
fn check_session(t: &str, batches: &[Vec<Ev>]) -> Result<(), String> {
    let (mut srv, _rx) = server(None);
    let p = path("/w/a.move");
    let uri = lsp_types::Url::parse("file:///w/a.move").unwrap();
    let note = |m: &str, v: serde_json::Value| lsp_server::Message::Notification(lsp_server::Notification::new(m.into(), v));
    srv.handle_message(note("textDocument/didOpen", serde_json::json!({"textDocument": {"uri": uri, "languageId": "move", "version": 1, "text": t}}))).map_err(|e| e.to_string())?;
    let mut want = t.to_string();
    for (i, b) in batches.iter().enumerate() {
        for e in b { want = apply_one(&want, e).ok_or("edit outside the document (harness)")?; }
        let version = [1, i + 2, i / 2, 7][(t.len() + batches.len()) % 4];
        srv.handle_message(note("textDocument/didChange", serde_json::json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": b}))).map_err(|e| e.to_string())?;
        let got = srv.stored(&p).ok_or("document lost")?;
        if got != want.as_bytes() { return Err(format!("after change {}: server has {}, client {}", i, esc(&String::from_utf8_lossy(&got)), esc(&want))); }
        let seen = srv.analysis_text(srv.file_id(&p).unwrap());
        if *seen != want.replace("\r\n", "\n") { return Err(format!("after change {}: analysis sees {}", i, esc(&seen))); }
    }
    Ok(())
}
fn run_edits(ctx: &mut Ctx, g: &str, t: &str, es: &[Ev]) -> Outcome {
    match ctx.case(g, &show(t, es), !es.is_empty(), || check_edits(t, es)) {
        Ok(()) => Ok(()),
        Err(v) => { // drop edits from the end while it still fails
            let mut k = es.len(); while k > 1 && !matches!(std::panic::catch_unwind(|| check_edits(t, &es[..k - 1])), Ok(Ok(()))) { k -= 1; }
            match ctx.case("shrunk", &show(t, &es[..k]), false, || check_edits(t, &es[..k])) { Err(v2) => Err(v2), Ok(()) => Err(v) }
        }
    }
}
pub fn p09(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "enumerated pairs of edits of short texts, random sequences of up to 6 edits in a notification, documents of up to 200 KB, and random sessions of notifications through the server";
    let reps = ["", "\n", "é", "x\ny"];
    for t in ["", "a", "a\nb", "é\n𝄞c\n", "\n\n", "ab\r\ncd"] {
        let first: Vec<Ev> = { let bs = boundaries(t); let mut v = vec![]; for (i, a) in bs.iter().enumerate() { for b in &bs[i..] { for x in reps { v.push(Ev { range: Some(Range::new(position_of(t, *a, true), position_of(t, *b, true))), range_length: None, text: x.into() }); } } }
            v.push(Ev { range: None, range_length: None, text: "q\nr𝄞".into() }); v };
        for e in &first {
            let u = apply_one(t, e).unwrap(); let bs = boundaries(&u);
            for (i, a) in bs.iter().enumerate() { for b in &bs[i..] { for x in ["", "z\n"] {
                let e2 = Ev { range: Some(Range::new(position_of(&u, *a, true), position_of(&u, *b, true))), range_length: None, text: x.into() };
                run_edits(ctx, "pairs of edits", t, &[e.clone(), e2])?;
            } } }
        }
    }
    let mut r = Rng::new(ctx.seed, 9);
    while ctx.time_left() {
        for _ in 0..60 {
            let (size, count) = match r.below(40) { 0 => (400, 6), 1 => (60, 40), 2 => (3000, 3), _ => (20, 6) };
            let t = random_text(&mut r, size); let mut cur = t.clone(); let mut es = vec![];
            for _ in 0..1 + r.below(count) { let e = random_edit(&mut r, &cur); cur = apply_one(&cur, &e).unwrap(); es.push(e); }
            run_edits(ctx, "random sequences", &t, &es)?;
        }
        if r.chance(1, 6) {
            // edits of a large document, far into a line or far down
            let n = *r.pick(&[300usize, 5_000, 66_000]);
            let t = match r.below(3) { 0 => "a".repeat(n) + "é𝄞\nb\n", 1 => "a\n".repeat(n) + "é𝄞\nb\n", _ => "é𝄞".repeat(n / 6) + "\nb" };
            let mut cur = t.clone(); let mut es = vec![];
            for _ in 0..2 { let bs: Vec<usize> = { let l = cur.len(); let mut v: Vec<usize> = (0..6).map(|_| r.below(l + 1)).chain([l, l.saturating_sub(3), l.saturating_sub(9)]).map(|i| (i..=l).find(|i| cur.is_char_boundary(*i)).unwrap()).collect(); v.sort(); v };
                let (i, j) = (r.below(bs.len()), r.below(bs.len())); let (a, b) = (bs[i.min(j)], bs[i.max(j)]);
                let b = if r.chance(1, 2) { (a..=cur.len()).skip(1).find(|i| cur.is_char_boundary(*i)).unwrap_or(a) } else { b };
                let e = Ev { range: Some(Range::new(position_of(&cur, a, true), position_of(&cur, b, true))), range_length: None, text: random_text(&mut r, 5) }; cur = apply_one(&cur, &e).unwrap(); es.push(e); }
            ctx.case("large documents", &show(&format!("{}..., {} bytes", &t[..2], t.len()), &es), true, || check_edits(&t, &es).map_err(|_| "wrong text".into()))?;
        }
        let t = random_text(&mut r, 20); let mut cur = t.clone(); let mut bs = vec![];
        for _ in 0..1 + r.below(4) { let mut b = vec![]; for _ in 0..1 + r.below(4) { let e = random_edit(&mut r, &cur); cur = apply_one(&cur, &e).unwrap(); b.push(e); } bs.push(b); }
        let d = bs.iter().map(|b| show("", b)).collect::<Vec<_>>().join(" | ");
        ctx.case("sessions", &format!("{} {}", esc(&t), d), true, || check_session(&t, &bs))?;
    }
    Ok(())
}

fn check_norm(t: &str) -> Result<(), String> {
    let (got, dos) = h::normalize(t.to_string());
    if std::str::from_utf8(got.as_bytes()).is_err() { return Err("not UTF-8".into()); }
    let want = t.replace("\r\n", "\n");
    if got != want { return Err(format!("got {}, expected {}", esc(&got), esc(&want))); }
    if dos != t.contains('\r') { return Err(format!("reported as {}", if dos { "Dos" } else { "Unix" })); }
    Ok(())
}
pub fn p10(ctx: &mut Ctx) -> Outcome {
    ctx.rule = "every text of up to 7 characters over {a, CR, LF, é}, plus random texts and line ends up to 560 KB apart";
    for t in all_texts(&["a", "\r", "\n", "é"], if ctx.thorough { 9 } else { 7 }) { shrunk(ctx, "enumerated", &t, check_norm)?; }
    for n in [100, 255, 256, 4095, 4096, 65536] { shrunk(ctx, "long", &"ab\r\n".repeat(n), check_norm)?; shrunk(ctx, "long", &"\r\n".repeat(n), check_norm)?; shrunk(ctx, "long", &format!("{}\r", "x\r\r\n".repeat(n)), check_norm)?; }
    for n in [255usize, 256, 1023, 4095, 4096, 8192, 65_535, 65_536, 70_000, 140_000] { for c in ["a", "é", "\n", "\r", "𝄞"] {
        let t = format!("x\r\n{}\r\n{}\r\r\n{}", c.repeat(n), c.repeat(n / 2), c.repeat(n / 3));
        ctx.case("far apart", &format!("\"x\\r\\n\" {:?}x{} \"\\r\\n\" {:?}x{} \"\\r\\r\\n\" {:?}x{}", c, n, c, n / 2, c, n / 3), true, || check_norm(&t).map_err(|_| "wrong text or line ends".into()))?;
    } }
    let mut r = Rng::new(ctx.seed, 10);
    while ctx.time_left() { for _ in 0..200 {
        let n = if r.chance(1, 50) { r.below(3000) } else { r.below(60) }; let pool: &[&str] = match r.below(4) { 0 => &["\r", "\n", "\r\n", "a"], 1 => &["\r\n", "\r\n", "\r\n", "\r\n", "a", "\n", "é"], 2 => &["\r\n", "\r\n\r\n", "ab"], _ => CHARS };
        let t: String = (0..n).map(|_| *r.pick(pool)).collect(); shrunk(ctx, "random", &t, check_norm)?; } }
    Ok(())
}

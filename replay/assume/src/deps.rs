//! the dependencies: fst, rowan, lsp_server, lsp_types, crossbeam_channel, salsa, drop_bomb, text-size
use crate::*;
use std::collections::BTreeMap as Map;
use std::sync::Arc;
// ---- fst (unit fileset): the automaton is the one of vfs::file_set, written again ----
struct PrefixOf<'a>(&'a [u8]);
impl fst::Automaton for PrefixOf<'_> {
    type State = usize;
    fn start(&self) -> usize { 0 }
    fn is_match(&self, s: &usize) -> bool { *s != !0 }
    fn can_match(&self, s: &usize) -> bool { *s != !0 }
    fn accept(&self, s: &usize, b: u8) -> usize { if self.0.get(*s) == Some(&b) { s + 1 } else { !0 } }
}
/// keys whose length is even: can_match stays true
struct Even;
impl fst::Automaton for Even { type State = bool; fn start(&self) -> bool { true } fn is_match(&self, s: &bool) -> bool { *s } fn accept(&self, s: &bool, _: u8) -> bool { !*s } }
pub fn automata(r: &mut Rng, t: &mut Tally) {
    use fst::{IntoStreamer, Streamer};
    let mut m: Map<Vec<u8>, u64> = Map::new();
    for _ in 0..r.below(10) { let mut k = vec![0u8]; k.extend(r.bytes(b"/ab\xff\0", 6)); m.insert(k, r.below(5) as u64 * 0x1_0000_0001); }
    if r.below(4) == 0 { m.insert(vec![], 3); }
    let built = fst::Map::from_iter(m.clone()); t.is("vx_fst_from_iter", &m, built.is_ok()); let f = built.unwrap();
    t.is("fst contents", &m, f.len() == m.len() && m.iter().all(|(k, v)| f.get(k) == Some(*v)));
    let mut text = vec![0u8]; text.extend(r.bytes(b"/ab\xff\0", 8));
    let hits = |a: &mut dyn FnMut() -> Option<(Vec<u8>, u64)>| { let mut v = vec![]; while let Some(x) = a() { v.push(x) } v };
    let mut s = f.search(PrefixOf(&text)).into_stream(); let got = hits(&mut || s.next().map(|(k, v)| (k.to_vec(), v)));
    t.is("vx_fst_search", &(&m, &text), got == m.iter().filter(|(k, _)| text.starts_with(k)).map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>());
    let mut s = f.search(Even).into_stream(); let got = hits(&mut || s.next().map(|(k, v)| (k.to_vec(), v)));
    t.is("vx_fst_search (another automaton)", &m, got == m.iter().filter(|(k, _)| k.len() % 2 == 0).map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>());
}
// ---- rowan (units sink, tree): a tree is the calls that built it ----
#[derive(Clone, Debug, PartialEq)]
enum Op { Open(u16), Leaf(u16, String), Close }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum L {}
impl rowan::Language for L { type Kind = u16; fn kind_from_raw(k: rowan::SyntaxKind) -> u16 { k.0 } fn kind_to_raw(k: u16) -> rowan::SyntaxKind { rowan::SyntaxKind(k) } }
pub fn trees(r: &mut Rng, t: &mut Tally) {
    let k = |n| rowan::SyntaxKind(n);
    // random calls; most of them one tree
    let (mut ops, mut depth) = (vec![Op::Open(r.below(4) as u16)], 1usize); let n = r.below(60);
    for _ in 0..n { match r.below(5) { 0 => { ops.push(Op::Open(r.below(4) as u16)); depth += 1 } 1 if depth > 1 => { ops.push(Op::Close); depth -= 1 } _ => ops.push(Op::Leaf(4 + r.below(4) as u16, r.text(&["a", " ", "é", "😀", "\n"], 3))) } }
    for _ in 0..depth { ops.push(Op::Close) }
    let build = || { let mut b = rowan::GreenNodeBuilder::new(); for o in &ops { match o { Op::Open(n) => b.start_node(k(*n)), Op::Leaf(n, s) => b.token(k(*n), s), Op::Close => b.finish_node() } } b.finish() };
    let green = build(); let node = rowan::SyntaxNode::<L>::new_root(green);
    let got: Vec<Op> = node.preorder_with_tokens().filter_map(|e| match e { rowan::WalkEvent::Enter(rowan::NodeOrToken::Node(n)) => Some(Op::Open(n.kind())), rowan::WalkEvent::Enter(rowan::NodeOrToken::Token(x)) => Some(Op::Leaf(x.kind(), x.text().to_string())), rowan::WalkEvent::Leave(rowan::NodeOrToken::Node(_)) => Some(Op::Close), _ => None }).collect();
    t.is("a tree is the calls that built it", &ops, got == ops); t.is("vx_new_root", &ops, Op::Open(node.kind()) == ops[0]);
    let text: String = ops.iter().map(|o| if let Op::Leaf(_, s) = o { &s[..] } else { "" }).collect();
    t.is("the text of a tree is that of its leaves", &ops, node.text() == text[..] && node.to_string() == text);
    let mut at = 0; for e in node.descendants_with_tokens() { if let rowan::NodeOrToken::Token(x) = e { let l = x.text().len() as u32; t.is("token ranges", &ops, u32::from(x.text_range().start()) == at && u32::from(x.text_range().end()) == at + l); at += l; } }
}
// ---- lsp_server, lsp_types, crossbeam_channel ----
pub fn lsp(r: &mut Rng, t: &mut Tally) {
    use lsp_server::{ErrorCode, Notification, ReqQueue, RequestId, Response};
    let mut q: ReqQueue<usize, usize> = ReqQueue::default(); let mut m: Vec<(usize, usize)> = vec![];
    let ids = |n: usize| -> RequestId { if n % 2 == 0 { RequestId::from((n / 2) as i32 - 2) } else { RequestId::from((n as i32 / 2 - 2).to_string()) } };
    for a in 0..12 { for b in 0..12 { t.is("RequestId equality", &(a, b), (ids(a) == ids(b)) == (a == b)); } t.is("RequestId clone", &a, ids(a).clone() == ids(a)); }
    for _ in 0..r.below(25) {
        let n = r.below(12); let at = m.iter().position(|e| e.0 == n);
        match r.below(3) {
            0 => { let d = r.below(100); q.incoming.register(ids(n), d); if let Some(i) = at { m.remove(i); } m.push((n, d)) }
            1 => { let got = q.incoming.complete(ids(n)); t.is("Incoming::complete", &(&m, n), got == at.map(|i| m[i].1)); if let Some(i) = at { m.remove(i); } }
            _ => { let got = q.incoming.cancel(ids(n)); t.is("Incoming::cancel", &(&m, n), match (&got, at) { (Some(x), Some(_)) => x.id == ids(n) && x.result.is_none() && x.error.as_ref().map_or(false, |e| e.code == -32800), (None, None) => true, _ => false }); if let Some(i) = at { m.remove(i); } }
        }
    }
    t.is("ErrorCode", &(), ErrorCode::MethodNotFound as i32 == -32601 && ErrorCode::InvalidParams as i32 == -32602 && ErrorCode::InvalidRequest as i32 == -32600 && ErrorCode::InternalError as i32 == -32603 && ErrorCode::ContentModified as i32 == -32801 && ErrorCode::RequestCanceled as i32 == -32800);
    let n = r.below(12); let ok = Response::new_ok(ids(n), ()); t.is("Response::new_ok", &n, ok.id == ids(n) && ok.error.is_none() && ok.result.is_some());
    let e = Response::new_err(ids(n), n as i32, "m".into()); t.is("Response::new_err", &n, e.id == ids(n) && e.result.is_none() && e.error.map_or(false, |e| e.code == n as i32 && e.message == "m"));
    let pos = lsp_types::Position::new(r.below(4) as u32 * 0x4000_0001, r.below(4) as u32 * 0x4000_0001); let p2 = lsp_types::Position::new(r.below(4) as u32 * 0x4000_0001, r.below(4) as u32 * 0x4000_0001);
    t.is("Position order", &(pos, p2), pos.cmp(&p2) == (pos.line, pos.character).cmp(&(p2.line, p2.character)) && (pos == p2) == (pos.line == p2.line && pos.character == p2.character) && pos.partial_cmp(&p2) == Some(pos.cmp(&p2)));
    t.is("Range::new", &pos, { let g = lsp_types::Range::new(pos, p2); g.start == pos && g.end == p2 });
    let params = lsp_types::CancelParams { id: if n % 2 == 0 { lsp_types::NumberOrString::Number(n as i32) } else { lsp_types::NumberOrString::String(n.to_string()) } };
    let not = Notification::new("a/b".into(), params.clone());
    t.is("Notification::new", &n, not.method == "a/b" && serde_json::from_value::<lsp_types::CancelParams>(not.params.clone()).map_or(false, |p| p == params));
    t.is("Notification::extract", &n, not.clone().extract::<lsp_types::CancelParams>("a/b").map_or(false, |p| p == params));
    t.is("Notification::extract (another method)", &n, matches!(not.clone().extract::<lsp_types::CancelParams>("a/c"), Err(x) if x.method == not.method && x.params == not.params));
    let v = serde_json::to_value(lsp_types::Range::new(pos, p2)); t.is("a value says what it was made of", &(pos, p2), v.map_or(false, |v| serde_json::from_value::<lsp_types::Range>(v).map_or(false, |x| x == lsp_types::Range::new(pos, p2))));
    t.is("no parameters", &(), serde_json::from_value::<()>(serde_json::Value::Null).is_ok() && serde_json::from_value::<()>(serde_json::json!({})).is_err());
    let (tx, rx) = crossbeam_channel::unbounded(); let sent = r.nums(6, 9); for x in &sent { tx.send(*x).unwrap() } let (tx2, rx2) = crossbeam_channel::unbounded::<usize>(); for x in &sent { tx2.send(*x + 100).unwrap() }
    let mut got = vec![]; while let Ok(x) = rx.try_recv() { got.push(x) } t.is("a channel gives what was sent, in order", &sent, got == sent && rx.try_recv().is_err());
    for x in &sent { tx.send(*x).unwrap() } let (mut a, mut b) = (vec![], vec![]);
    while !(rx.is_empty() && rx2.is_empty()) { crossbeam_channel::select! { recv(rx) -> x => a.push(x.unwrap()), recv(rx2) -> x => b.push(x.unwrap() - 100) } }
    t.is("select! takes from one channel or the other, each in order", &sent, a == sent && b == sent);
    drop(tx); t.is("a channel whose senders are gone", &(), rx.recv().is_err());
}
// ---- salsa (unit absorb, tree, publish): inputs are maps, a query is its function of the inputs as they are, whatever the durabilities ----
#[salsa::query_group(DbStorage)]
trait Db: salsa::Database {
    #[salsa::input] fn text(&self, f: u32) -> Arc<String>;
    #[salsa::input] fn root_of(&self, f: u32) -> u32;
    #[salsa::input] fn root(&self, r: u32) -> Arc<Vec<u32>>;
    fn shout(&self, f: u32) -> Arc<String>;
    fn all(&self, r: u32) -> Arc<String>;
}
fn shout(db: &dyn Db, f: u32) -> Arc<String> { Arc::new(db.text(f).to_uppercase()) }
fn all(db: &dyn Db, r: u32) -> Arc<String> { Arc::new(db.root(r).iter().map(|f| db.shout(*f).to_string()).collect()) }
#[salsa::database(DbStorage)]
#[derive(Default)]
struct Store { storage: salsa::Storage<Self> }
impl salsa::Database for Store {}
impl salsa::ParallelDatabase for Store { fn snapshot(&self) -> salsa::Snapshot<Self> { salsa::Snapshot::new(Store { storage: self.storage.snapshot() }) } }
pub fn queries(r: &mut Rng, t: &mut Tally) {
    use salsa::{Database, Durability, ParallelDatabase};
    let mut db = Store::default(); let (mut text, mut root_of, mut root): (Map<u32, String>, Map<u32, u32>, Map<u32, Vec<u32>>) = Default::default();
    let mut log = vec![];
    t.is("an input not set", &(), panics(|| db.text(0)));
    for _ in 0..r.below(40) {
        let (f, d) = (r.below(4) as u32, *r.pick(&[Durability::LOW, Durability::MEDIUM, Durability::HIGH])); 
        match r.below(6) {
            0 | 1 => { let s = r.text(&["a", "b", "é"], 3); log.push(format!("text {} {} {:?}", f, s, d)); db.set_text_with_durability(f, Arc::new(s.clone()), d); text.insert(f, s); }
            2 => { let n = r.below(3) as u32; log.push(format!("root_of {} {} {:?}", f, n, d)); db.set_root_of_with_durability(f, n, d); root_of.insert(f, n); }
            3 => { let v: Vec<u32> = text.keys().filter(|_| r.below(2) == 0).copied().collect(); log.push(format!("root {} {:?} {:?}", f, v, d)); db.set_root_with_durability(f, Arc::new(v.clone()), d); root.insert(f, v); }
            4 => { log.push(format!("synthetic write {:?}", d)); db.salsa_runtime_mut().synthetic_write(d); }
            _ => { let s = db.snapshot(); t.is("a snapshot", &log, text.iter().all(|(f, x)| *s.text(*f) == *x)); }
        }
        if r.below(2) == 0 {
            t.is("salsa inputs", &log, text.iter().all(|(f, x)| *db.text(*f) == *x) && root_of.iter().all(|(f, x)| db.root_of(*f) == *x) && root.iter().all(|(f, x)| *db.root(*f) == *x));
            t.is("a query on the inputs as they are", &log, text.iter().all(|(f, x)| *db.shout(*f) == x.to_uppercase()));
            t.is("a query over queries", &log, root.iter().all(|(n, v)| *db.all(*n) == v.iter().map(|f| text[f].to_uppercase()).collect::<String>()));
            let s = db.snapshot(); t.is("a query on a snapshot", &log, text.iter().all(|(f, x)| *s.shout(*f) == x.to_uppercase()));
        }
    }
}
pub fn misc(r: &mut Rng, t: &mut Tally) {
    let mut b = drop_bomb::DropBomb::new("m"); b.defuse(); t.is("a bomb defused", &(), !panics(move || drop(b))); t.is("a bomb armed", &(), panics(|| drop(drop_bomb::DropBomb::new("m"))));
    use text_size::{TextRange, TextSize};
    let big = |r: &mut Rng| *r.pick(&[0u32, 1, 5, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]); let (x, y) = (big(r), big(r)); let (a, b) = (TextSize::from(x), TextSize::from(y));
    t.is("TextSize is a u32", &(x, y), u32::from(a) == x && usize::from(a) == x as usize && (a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y));
    t.is("TextSize + overflows loudly", &(x, y), match x.checked_add(y) { Some(s) => u32::from(a + b) == s, None => panics(|| a + b) }); t.is("TextSize - overflows loudly", &(x, y), match x.checked_sub(y) { Some(s) => u32::from(a - b) == s, None => panics(|| a - b) });
    t.is("TextRange::new", &(x, y), if x <= y { let g = TextRange::new(a, b); g.start() == a && g.end() == b && g.is_empty() == (x == y) && u32::from(g.len()) == y - x } else { panics(|| TextRange::new(a, b)) });
    t.is("TextRange::at", &(x, y), match x.checked_add(y) { Some(s) => { let g = TextRange::at(a, b); u32::from(g.start()) == x && u32::from(g.end()) == s } None => panics(|| TextRange::at(a, b)) });
    for c in &['a', 'é', '漢', '😀'] { t.is("TextSize::of", c, usize::from(TextSize::of(*c)) == c.len_utf8()); }
    t.is("TextSize::of str", &(), usize::from(TextSize::of("aé漢")) == 6);
    t.is("Option::unwrap_or_default", &(), Some(Arc::new("a".to_string())).unwrap_or_default().as_str() == "a" && None::<Arc<String>>.unwrap_or_default().is_empty());
}

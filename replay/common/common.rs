//! Shared pieces of the replay programs: seeded generator, reporting, watchdog.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03) ^ 0x2545F4914F6CDD1D);
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

/// What is being evaluated right now, for the watchdog: (start, description).
static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub started: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: &'static str,
    pub notes: Vec<String>,
    trace: Option<String>,
    seen_by_group: std::collections::BTreeMap<String, u64>,
}

pub struct Violation { pub input: String, pub detail: String }
pub type Outcome = Result<(), Violation>;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fail<T>(input: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { input: input.into(), detail: detail.into() })
}

impl Ctx {
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline }
    /// Evaluates one case: `input` describes it, `nontrivial` says whether it counts as non-trivial.
    pub fn case(&mut self, group: &str, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) -> Outcome {
        if let Some(t) = &self.trace { let _ = std::fs::write(t, input); }
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some((Instant::now(), input.to_string()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        let n = self.seen_by_group.entry(group.to_string()).or_insert(0);
        *n += 1;
        if *n == 7 && self.samples.len() < 12 { self.samples.push(format!("{}: {}", group, clip(input, 400))); }
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(d)) => Err(Violation { input: input.to_string(), detail: d }),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(Violation { input: input.to_string(), detail: format!("panicked: {}", m) })
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n; while !s.is_char_boundary(e) { e -= 1; }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

fn emit(ctx_prop: &str, evals: u64, distinct: u64, rule: &str, groups: &str, samples: &[String], notes: &[String], v: Option<&Violation>, wall: f64) {
    let samples: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    let notes: Vec<String> = notes.iter().map(|s| esc(s)).collect();
    let viol = match v { None => "null".to_string(),
        Some(v) => format!("{{\"input\":{},\"detail\":{}}}", esc(&v.input), esc(&v.detail)) };
    println!("REPLAY {{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"groups\":{},\"samples\":[{}],\"notes\":[{}],\"violation\":{},\"wall_s\":{:.2}}}",
        esc(ctx_prop), evals, distinct, esc(rule), groups, samples.join(","), notes.join(","), viol, wall);
}

/// Runs the check of one property. Arguments: PROP SEED TIER SECONDS [--trace FILE] [--input FILE]
pub fn run_main(table: &[(&str, fn(&mut Ctx) -> Outcome)], single: &[(&str, fn(&mut Ctx, &str) -> Outcome)]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: {} PROP SEED TIER SECONDS [--trace F] [--input F]", a[0]); std::process::exit(2); }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let secs: f64 = a[4].parse().unwrap();
    let started = Instant::now();
    let mut ctx = Ctx { prop: a[1].clone(), seed: a[2].parse().unwrap(), thorough: a[3] == "thorough",
        deadline: started + Duration::from_millis((secs * 1000.0) as u64), started, evaluations: 0, distinct: HashSet::new(), samples: vec![],
        rule: "", notes: vec![], trace: get("--trace"), seen_by_group: Default::default() };
    std::panic::set_hook(Box::new(|_| {}));
    let prop = a[1].clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some((t, input)) = cur {
            if t.elapsed() > Duration::from_secs(6) {
                let v = Violation { input, detail: "did not finish within 6 s (hang)".into() };
                emit(&prop, 0, 0, "", "{}", &[], &[], Some(&v), started.elapsed().as_secs_f64());
                std::process::exit(1);
            }
        }
    });
    // a large stack, so that only genuinely unbounded recursion overflows
    let input = get("--input");
    let tbl: Vec<(String, fn(&mut Ctx) -> Outcome)> = table.iter().map(|(n, f)| (n.to_string(), *f)).collect();
    let sgl: Vec<(String, fn(&mut Ctx, &str) -> Outcome)> = single.iter().map(|(n, f)| (n.to_string(), *f)).collect();
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let r = if let Some(f) = input {
            let text = std::fs::read_to_string(&f).unwrap();
            match sgl.iter().find(|(n, _)| *n == ctx.prop) { Some((_, g)) => g(&mut ctx, &text), None => { eprintln!("no single-input mode"); std::process::exit(2) } }
        } else {
            match tbl.iter().find(|(n, _)| *n == ctx.prop) { Some((_, g)) => g(&mut ctx), None => { eprintln!("unknown property"); std::process::exit(2) } }
        };
        let groups: Vec<String> = ctx.seen_by_group.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let groups = format!("{{{}}}", groups.join(","));
        emit(&ctx.prop, ctx.evaluations, ctx.distinct.len() as u64, ctx.rule, &groups, &ctx.samples, &ctx.notes, r.as_ref().err(), ctx.started.elapsed().as_secs_f64());
        if r.is_err() { 1 } else { 0 }
    }).unwrap();
    let code = h.join().unwrap_or(101);
    std::process::exit(code);
}

/// Shrinks a text while `bad` stays true (removes chunks, then characters).
pub fn shrink_text(text: &str, mut bad: impl FnMut(&str) -> bool) -> String {
    let mut cur: Vec<char> = text.chars().collect();
    let start = Instant::now();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0; let mut changed = false;
        while i < cur.len() && start.elapsed() < Duration::from_secs(8) {
            let end = (i + size).min(cur.len());
            let mut cand = cur.clone(); cand.drain(i..end);
            let s: String = cand.iter().collect();
            if bad(&s) { cur = cand; changed = true; } else { i = end; }
        }
        if start.elapsed() >= Duration::from_secs(8) { break; }
        if size == 1 { if !changed { break; } } else { size = (size / 2).max(1); }
    }
    cur.into_iter().collect()
}

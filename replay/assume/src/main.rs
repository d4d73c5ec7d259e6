//! What the proofs take for granted of std and of the dependencies, tried against the real ones: one function per
//! group of assumed contracts, each a plain rendition of the contract's text. Prints `ASSUMED name tried` per contract
//! and `REFUTED name input` where one does not hold.
mod deps;
mod paths;
mod seqs;
mod strs;
use std::collections::BTreeMap;
pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn text(&mut self, alphabet: &[&str], max: usize) -> String { let n = self.below(max + 1); (0..n).map(|_| *self.pick(alphabet)).collect() }
    pub fn nums(&mut self, max: usize, range: usize) -> Vec<usize> { let n = self.below(max + 1); (0..n).map(|_| self.below(range)).collect() }
    pub fn bytes(&mut self, alphabet: &[u8], max: usize) -> Vec<u8> { let n = self.below(max + 1); (0..n).map(|_| *self.pick(alphabet)).collect() }
}
#[derive(Default)]
pub struct Tally { pub tried: BTreeMap<&'static str, u64>, pub bad: BTreeMap<&'static str, String> }
impl Tally {
    pub fn is(&mut self, name: &'static str, input: &dyn std::fmt::Debug, ok: bool) {
        *self.tried.entry(name).or_default() += 1;
        if !ok { self.bad.entry(name).or_insert_with(|| format!("{:?}", input)); }
    }
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(2.0);
    std::panic::set_hook(Box::new(|_| ()));
    let (mut r, mut t) = (Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), Tally::default());
    let t0 = std::time::Instant::now();
    let groups: &[(&str, fn(&mut Rng, &mut Tally))] = &[("strings", strs::strings), ("bytes", strs::buffers), ("sequences", seqs::sequences), ("maps", seqs::maps), ("paths", paths::all),
        ("fst", deps::automata), ("rowan", deps::trees), ("lsp", deps::lsp), ("salsa", deps::queries), ("misc", deps::misc)];
    let mut first = true;
    while first || t0.elapsed().as_secs_f64() < secs {
        first = false;
        for (name, g) in groups {
            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g(&mut r, &mut t))) {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("REFUTED {} panicked: {}", name, m); std::process::exit(1)
            }
        }
    }
    for (n, k) in &t.tried { println!("ASSUMED {} {}", n, k) }
    for (n, i) in &t.bad { println!("REFUTED {} {}", n, i) }
    std::process::exit(if t.bad.is_empty() { 0 } else { 1 })
}

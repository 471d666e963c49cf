//! Shared by the failing-input searches: a generator, valuations, and the output protocol.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// xorshift*, deterministic per seed
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x >> 12; x ^= x << 25; x ^= x >> 27; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn int(&mut self, lo: i32, hi: i32) -> i32 { lo + self.below((hi - lo + 1) as usize) as i32 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Search { pub rng: Rng, pub tries: u64, pub known: Vec<String>, tried: u64, seen: HashSet<u64>, reported: HashSet<String> }
impl Search {
    pub fn new() -> Search {
        let a: Vec<String> = std::env::args().collect();
        if std::env::var("VX_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        Search { rng: Rng::new(a[2].parse().unwrap()), tries: a[1].parse().unwrap(), known: a[3..].to_vec(), tried: 0, seen: HashSet::new(), reported: HashSet::new() }
    }
    /// one evaluated input; `key` tells distinct non-trivial inputs apart
    pub fn note(&mut self, key: &str) {
        use std::hash::{Hash, Hasher};
        self.tried += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new(); key.hash(&mut h);
        self.seen.insert(h.finish());
    }
    pub fn fail(&self, what: String) -> ! { println!("FAIL {what}"); println!("tried={} distinct_nontrivial={}", self.tried, self.seen.len()); std::process::exit(1) }
    /// a listed finding that still fails
    pub fn known(&mut self, key: &str) -> bool { let k = self.known.iter().any(|x| x == key); if k && self.reported.insert(key.into()) { println!("KNOWN {key}"); } k }
    pub fn done(&self) -> ! { println!("tried={} distinct_nontrivial={}", self.tried, self.seen.len()); std::process::exit(0) }
    pub fn more(&self) -> bool { self.tried < self.tries }
}
/// run the real code; a panic is an observation
pub fn obs<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
pub mod zones;
pub mod exprs;
pub mod trans;
pub mod comps;
pub mod compsearch;
pub mod regions;
pub mod queries;

//! The choice tape: the one source of every decision in a run.
//!
//! Recording: choices come from a PRNG and are appended. Replay: choices come
//! from the recorded tape (0 = the simplest choice once the tape is used up).
//! A run is therefore a pure function of (scenario, tape, code under test).

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xd6e8feb86659fd93));
    r.next() ^ r.next().rotate_left(17)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}
pub struct Tape {
    pub src: Source,
    pub rec: Vec<u64>,
    /// (start, end) of every span, for the minimiser.
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    /// Every choice is also appended here at once (survives a crash).
    pub tee: Option<std::fs::File>,
}
impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { src: Source::Random(Rng::new(seed)), rec: vec![], spans: vec![], open: vec![], tee: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Tape { src: Source::Replay(v, 0), rec: vec![], spans: vec![], open: vec![], tee: None }
    }
    /// Uniform in 0..n. (n >= 1)
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Random(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Source::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                v % n
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(format!("{v} ").as_bytes());
        }
        v
    }
    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            if self.rec.len() > s {
                self.spans.push((s, self.rec.len()));
            }
        }
    }
    pub fn close_all(&mut self) {
        while !self.open.is_empty() {
            self.end();
        }
    }
}

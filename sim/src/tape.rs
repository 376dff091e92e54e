//! The single source of every choice in a simulated run: workload, delivery, faults, hash
//! keys and thread schedule. In generation the draws come from a PRNG and are recorded; in
//! replay they come from a recorded (possibly shrunk) tape. 0 is always the simplest choice.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// FNV-1a style rolling digest used for event logs.
#[derive(Clone, Copy)]
pub struct Digest(pub u64);
impl Digest {
    pub fn new() -> Self { Digest(0xcbf2_9ce4_8422_2325) }
    pub fn u(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (v >> 7);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(a));
        }
    }
}

static RECORD: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
/// Writes every draw to a file as it is made, for runs that kill their process.
pub fn record_to(path: &str) { *RECORD.lock().unwrap() = std::fs::File::create(path).ok() }

pub struct Tape {
    rng: Option<Rng>,
    pub vals: Vec<u64>,
    pos: usize,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self { Tape { rng: Some(Rng::new(seed)), vals: Vec::new(), pos: 0 } }
    pub fn replay(vals: Vec<u64>) -> Self { Tape { rng: None, vals, pos: 0 } }
    /// Number of draws made so far.
    pub fn used(&self) -> usize { self.pos }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let v = if n == u64::MAX { r.next() } else { r.next() % n };
                self.vals.push(v);
                if let Ok(mut r) = RECORD.lock() { if let Some(f) = r.as_mut() { let _ = std::io::Write::write_all(f, &v.to_le_bytes()); } }
                v
            }
            None => {
                let v = self.vals.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        self.pos += 1;
        v
    }
    pub fn n(&mut self, n: usize) -> usize { self.below(n.max(1) as u64) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.n(hi - lo + 1) }
    /// True with probability num/den; 0 on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.n(xs.len())] }
    pub fn u16(&mut self) -> u16 { self.below(65536) as u16 }
    pub fn raw(&mut self) -> u64 { self.below(u64::MAX) }
}

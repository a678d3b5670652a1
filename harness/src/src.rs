//! Source of choices.  All randomness of a case comes from here: choices are recorded on a tape,
//! a tape replays the case, and shrinking edits the tape (zero is always the simplest choice).
use std::collections::BTreeMap;

pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub nontrivial: bool,
    pub leak_ok: bool,
    pub logging: bool,
    pub logs: String,
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: u64,
    /// Choices are also written here at once, to know them after a crash.
    pub tee: Option<std::fs::File>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn new(cap: usize) -> Src {
        Src {
            rng: 0,
            replay: None,
            pos: 0,
            rec: Vec::with_capacity(cap),
            nontrivial: false,
            leak_ok: false,
            logging: false,
            logs: String::new(),
            counts: BTreeMap::new(),
            trace: 0,
            tee: None,
        }
    }
    fn begin(&mut self) {
        self.pos = 0;
        self.rec.clear();
        self.nontrivial = false;
        self.leak_ok = false;
        self.trace = 0xcbf2_9ce4_8422_2325;
        self.logs.clear();
        if self.logging && self.logs.capacity() == 0 {
            self.logs.reserve(1 << 20);
        }
    }
    pub fn start_random(&mut self, seed: u64) {
        self.begin();
        self.rng = seed;
        self.replay = None;
    }
    pub fn start_replay(&mut self, tape: Vec<u64>) {
        self.begin();
        self.replay = Some(tape);
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0),
            None => {
                self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
                mix(self.rng)
            }
        };
        self.pos += 1;
        v
    }
    fn push(&mut self, v: u64) -> u64 {
        if self.rec.len() < self.rec.capacity() {
            self.rec.push(v);
            if let Some(f) = &mut self.tee {
                use std::io::Write;
                let _ = writeln!(f, "{}", v);
            }
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.push(v)
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        let v = self.raw() % (n.max(1) as u64);
        self.push(v) as usize
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True in one of `n` cases.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut k = self.below(total as usize) as u32;
        for (i, &x) in w.iter().enumerate() {
            if k < x {
                return i;
            }
            k -= x;
        }
        0
    }
    /// A payload: small numbers often, then arbitrary bits and extremes.
    pub fn pay(&mut self) -> u64 {
        match self.below(8) {
            0..=3 => self.below(20) as u64,
            4 => self.below(300) as u64,
            5 | 6 => self.u64(),
            _ => {
                const S: [u64; 14] = [
                    0, u64::MAX, 1 << 63, i64::MAX as u64, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000,
                    0x7FF8_0000_0000_0001, 0x8000_0000, 0x7F80_0000, 0xFFC0_0001, 0xFF, 0x80, 0xFFFF, 0x8000,
                ];
                S[self.below(S.len())]
            }
        }
    }
    pub fn pays(&mut self, max: usize) -> Vec<u64> {
        let n = if max > 100 { self.long(max) } else { self.len(max) };
        self.many(n)
    }
    /// Some payloads: each chosen, or (if they are very many) all from few choices.
    pub fn many(&mut self, n: usize) -> Vec<u64> {
        if n <= 100 {
            return (0..n).map(|_| self.pay()).collect();
        }
        let k = self.below(5);
        let z = self.pay();
        let odd = (self.below(n), self.pay());
        let mut v: Vec<u64> = (0..n as u64)
            .map(|i| match k {
                0 => i,
                1 => z.wrapping_add(i),
                2 => mix(z ^ i) % 20,
                3 => z,
                _ => mix(z ^ i),
            })
            .collect();
        v[odd.0] = odd.1;
        v
    }
    /// A length up to `max`, long ones and the neighbours of powers of two often.
    pub fn long(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => self.below(3),
            1 => self.below(max.min(40) + 1),
            2..=4 => {
                let b = 1usize << self.below(usize::BITS as usize - max.leading_zeros() as usize);
                (b + self.below(3)).saturating_sub(1).min(max)
            }
            _ => self.below(max + 1),
        }
    }
    /// A length: biased to small, up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 => self.below(2),
            1 | 2 => self.below(max.min(5) + 1),
            3 | 4 => self.below(max.min(12) + 1),
            _ => self.below(max + 1),
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging && self.logs.len() < (1 << 20) - 4096 {
            let m = f();
            let m: String = m.chars().take(400).collect();
            self.logs.push_str(&m);
            self.logs.push('\n');
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    /// Add to the digest of observable results (used to compare configurations).
    pub fn obs(&mut self, v: u64) {
        self.trace = (self.trace ^ v).wrapping_mul(0x1_0000_01b3).rotate_left(23) ^ mix(v);
    }
}

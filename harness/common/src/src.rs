/// Source of all random choices of one case. Either draws fresh choices from a PRNG or replays a tape.
pub struct Src {
    state: u64,
    tape: Option<Vec<u64>>,
    pos: usize,
    record: Vec<u64>,
    limit: usize,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

impl Src {
    pub fn fresh(seed: u64) -> Src {
        Src { state: mix(seed), tape: None, pos: 0, record: vec![], limit: 1 << 20 }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { state: 0, tape: Some(tape), pos: 0, record: vec![], limit: 1 << 20 }
    }
    pub fn record(&self) -> &[u64] {
        &self.record
    }
    /// Has the tape run out (replay only)? Generators may use it to stop loops early.
    pub fn exhausted(&self) -> bool {
        match &self.tape {
            Some(t) => self.pos >= t.len(),
            None => self.record.len() >= self.limit,
        }
    }
    /// Uniform in `0..n` (0 when n <= 1). Smaller is simpler for the shrinker.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.tape {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v >= n { n - 1 } else { v }
            }
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = mix(self.state);
                if n == u64::MAX { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
        };
        self.record.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo { return lo; }
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Small numbers more often: 0..=hi, geometric-like.
    pub fn small(&mut self, hi: usize) -> usize {
        let a = self.range(0, hi);
        let b = self.range(0, hi);
        a.min(b)
    }
    /// true with probability num/den. `false` is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index drawn by weight; put the simplest alternative first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut r = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w as u64 {
                return i;
            }
            r -= *w as u64;
        }
        ws.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
}

use std::collections::BTreeMap;
use std::io::Write;

/// SplitMix64.
#[derive(Clone)]
pub(crate) struct Rng(pub u64);

impl Rng {
    pub(crate) fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub(crate) fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x5151_7a7a_1234_9876);
    let mut acc = r.next();
    for p in parts {
        r.0 ^= p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        acc ^= r.next();
        r.0 = r.0.rotate_left(17) ^ acc;
    }
    r.next() ^ acc
}

/// Hash of a string, used to keep the streams of different suites apart.
pub(crate) fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// Source of bounded choices.
pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    /// What was drawn, in order.
    pub(crate) drawn: Vec<u64>,
    /// Closed spans: `(start, end)` positions in `drawn`.
    pub(crate) spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    /// When recording a crashing case the draws are streamed here.
    pub(crate) sink: Option<std::fs::File>,
}

impl Src {
    pub(crate) fn generate(seed: u64) -> Self {
        Src {
            rng: Some(Rng(seed)),
            input: vec![],
            drawn: vec![],
            spans: vec![],
            open: vec![],
            sink: None,
        }
    }

    pub(crate) fn replay(input: Vec<u64>) -> Self {
        Src {
            rng: None,
            input,
            drawn: vec![],
            spans: vec![],
            open: vec![],
            sink: None,
        }
    }

    /// A choice in `0..n`; the simplest choice is 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let v = self.input.get(self.drawn.len()).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        self.drawn.push(v);
        if let Some(f) = &mut self.sink {
            let _ = writeln!(f, "{v}");
        }
        v
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// A choice in `lo..=hi`; the simplest is `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }

    /// Any 64-bit value.
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }

    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability `num/den`; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // large values are the "true" ones so that shrinking leads to false
        self.below(den) >= den - num
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())]
    }

    /// Index into `weights`, chosen with these weights; the simplest is 0.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        unreachable!()
    }

    /// Whether a list goes on: the mean length is `mean`. Simplest: stop.
    pub fn more(&mut self, mean: u64) -> bool {
        self.below(mean + 1) != 0
    }

    /// A length up to `max`, small ones being more likely.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(4) {
            0 => self.range(0, max.min(4)),
            1 => self.range(0, max.min(12)),
            2 => self.range(0, (max / 3).max(1).min(max)),
            _ => self.range(0, max),
        }
    }

    /// Marks the draws made in `f` as one unit for the shrinker.
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.begin();
        let r = f(self);
        self.end();
        r
    }

    pub fn begin(&mut self) {
        self.open.push(self.drawn.len());
    }

    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            self.spans.push((s, self.drawn.len()));
        }
    }
}

/// What a case reports besides its verdict.
pub struct Cx {
    tracing: bool,
    pub(crate) trace: Vec<String>,
    pub(crate) nontrivial: bool,
    pub(crate) labels: BTreeMap<&'static str, u64>,
    pub(crate) tier_thorough: bool,
}

impl Cx {
    pub(crate) fn new(tracing: bool, thorough: bool) -> Self {
        Cx {
            tracing,
            trace: vec![],
            nontrivial: false,
            labels: BTreeMap::new(),
            tier_thorough: thorough,
        }
    }

    pub fn tracing(&self) -> bool {
        self.tracing
    }

    pub fn note(&mut self, s: String) {
        if self.tracing {
            // A trace is for reading; very long ones are cut.
            if self.trace.len() < 4000 {
                self.trace.push(s);
            }
        }
    }

    /// Marks the case as non-trivial by the rule of its property.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// Counts something the case did.
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }

    pub fn thorough(&self) -> bool {
        self.tier_thorough
    }
}

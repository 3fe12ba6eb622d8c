//! Choice-sequence generation: every random decision of a case is a number in a recorded list, so
//! a case can be replayed from the list and shrunk by editing it, whatever the property.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x1234_5678_9ABC_DEF1);
    for p in parts {
        r.0 ^= *p;
        r.next();
        r.0 = r.next();
    }
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3)
    })
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Gen {
    source: Source,
    pub choices: Vec<u64>,
    /// No late starts: where the clock is stepped cycle by cycle they would never end.
    pub early: bool,
    /// Only cases which are fit for flavor inference.
    pub inferring: bool,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Self {
            source: Source::Random(Rng(seed)),
            choices: vec![],
            early: false,
            inferring: false,
        }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Self {
            source: Source::Replay(choices),
            choices: vec![],
            early: false,
            inferring: false,
        }
    }

    /// A number below n. Zero is always the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.source {
            Source::Random(r) => r.next() % n,
            Source::Replay(list) => list
                .get(self.choices.len())
                .copied()
                .unwrap_or(0)
                .min(n - 1),
        };
        self.choices.push(v);
        v
    }

    pub fn bits(&mut self) -> u64 {
        self.below(u64::MAX)
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with a chance of num in den; false is the simple one.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    /// Whether flavor inference is used.
    pub fn infer(&mut self, num: u64, den: u64) -> bool {
        self.chance(num, den) | self.inferring
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }

    /// An index with a chance in proportion to its weight.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        weights.len() - 1
    }

    /// When everything starts: mostly at zero, now and then a little before a power of two.
    pub fn start(&mut self) -> u64 {
        if self.early || !self.chance(1, 12) {
            return 0;
        }
        let at = *self.pick(&[1u64 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 53, 1 << 62]);
        at - self.below(40)
    }

    /// A length: now and then a much larger one than the most.
    pub fn length(&mut self, lo: usize, hi: usize) -> usize {
        match self.below(400) {
            399 => self.usize(lo, (hi * 60).max(300)),
            390..=398 => self.usize(lo, hi * 12),
            _ => self.usize(lo, hi),
        }
    }

    /// How many there are of something: now and then several times as many as the most.
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        let many = self.chance(1, 40);
        self.usize(lo, if many { hi * 4 } else { hi })
    }

    /// Mostly small numbers, now and then up to max.
    pub fn small(&mut self, max: u64) -> u64 {
        match self.below(8) {
            0..=4 => self.below(max.min(4) + 1),
            5 | 6 => self.below(max.min(16) + 1),
            _ => self.below(max + 1),
        }
    }
}

/// Looks for a simpler list of choices which still fails. `fails` gives back the choices which
/// the failing run actually consumed.
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    deadline: std::time::Instant,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || std::time::Instant::now() > deadline || cand == *best {
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(&cand) {
            let simpler = (used.len(), &used) < (best.len(), best);
            if simpler {
                *best = used;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(at..at + size);
                if !attempt(cand, &mut best, &mut left) {
                    at += size;
                }
            }
            size /= 2;
        }
        // Zero, then halve, then decrement.
        for at in 0..best.len() {
            if at < best.len() && best[at] > 0 {
                let mut cand = best.clone();
                cand[at] = 0;
                if attempt(cand, &mut best, &mut left) {
                    continue;
                }
                let mut lo = 0;
                while at < best.len() && lo + 1 < best[at] {
                    let mid = lo + (best[at] - lo) / 2;
                    let mut cand = best.clone();
                    cand[at] = mid;
                    if !attempt(cand, &mut best, &mut left) {
                        lo = mid;
                    }
                }
                if at < best.len() && best[at] > 0 {
                    let mut cand = best.clone();
                    cand[at] -= 1;
                    attempt(cand, &mut best, &mut left);
                }
            }
        }
        // Delete a choice while decrementing an earlier one (a count).
        for at in 0..best.len() {
            for del in at + 1..(at + 12).min(best.len()) {
                if at < best.len() && del < best.len() && best[at] > 0 {
                    let mut cand = best.clone();
                    cand[at] -= 1;
                    cand.remove(del);
                    attempt(cand, &mut best, &mut left);
                }
            }
        }
        if best == before || left == 0 || std::time::Instant::now() > deadline {
            return best;
        }
    }
}

//! Choice tape: every generator draws bounded choices from a tape. Fresh cases extend the tape from
//! a PRNG; replays and shrinking candidates read a recorded tape (choices past its end are 0, the
//! simplest choice). Shrinking is done on the tape and therefore works for every generator.
pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    state: u64,
    fresh: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn fresh(seed: u64) -> Src {
        Src { tape: vec![], pos: 0, state: mix(seed ^ 0x5851F42D4C957F2D), fresh: true }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, state: 0, fresh: false }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.state)
    }
    /// choice in 0..n (n >= 1); 0 is the simplest
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v;
        if self.fresh {
            v = self.next() % n;
            self.tape.push(v);
        } else if self.pos < self.tape.len() {
            v = self.tape[self.pos] % n;
        } else {
            v = 0;
        }
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// choice in 0..n, now and then in 0..big
    pub fn tail(&mut self, n: usize, big: usize) -> usize {
        if self.chance(1, 24) {
            self.usize(big)
        } else {
            self.usize(n)
        }
    }
    /// inclusive range; lo is the simplest
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, arr: &'a [T]) -> &'a T {
        &arr[self.usize(arr.len())]
    }
    /// index drawn with the given integer weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut v = self.below(sum);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// uniform f64 in [0,1) on a 2^-20 grid
    pub fn unit(&mut self) -> f64 {
        (self.below(1 << 20) as f64) / ((1u64 << 20) as f64)
    }
}

/// shrink a failing tape. `fails` re-runs the case on a candidate tape and says whether it still fails.
pub fn shrink(tape: Vec<u64>, budget: std::time::Duration, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let start = std::time::Instant::now();
    let mut best = tape;
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // cut the tail
        let mut k = best.len() / 2;
        while k > 0 && start.elapsed() < budget {
            if best.len() >= k {
                let cand = best[..best.len() - k].to_vec();
                if fails(&cand) {
                    best = cand;
                    improved = true;
                    continue;
                }
            }
            k /= 2;
        }
        // delete chunks
        for size in [32usize, 16, 8, 4, 3, 2, 1].iter() {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if fails(&cand) {
                    best = cand;
                    improved = true;
                } else {
                    i += 1;
                }
            }
        }
        // zero chunks
        for size in [16usize, 4].iter() {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for j in i..i + size {
                        cand[j] = 0;
                    }
                    if fails(&cand) {
                        best = cand;
                        improved = true;
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            if best[i] != 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                // binary search for the least failing value (assuming monotone), keep what works
                let mut cand = best.clone();
                cand[i] = 0;
                if fails(&cand) {
                    best = cand;
                    improved = true;
                } else {
                    while lo + 1 < hi && start.elapsed() < budget {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if fails(&cand) {
                            best = cand;
                            hi = mid;
                            improved = true;
                        } else {
                            lo = mid;
                        }
                    }
                    if best[i] > 0 && start.elapsed() < budget {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        if fails(&cand) {
                            best = cand;
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

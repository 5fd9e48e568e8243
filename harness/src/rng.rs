//! The only source of randomness of the harness: a splitmix64/xoshiro-style
//! generator. Every generated case is a pure function of one 64-bit seed.

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { s: mix(seed ^ 0x5851F42D4C957F2D) }
    }
    /// Independent stream for case `idx` of `domain` under `seed`.
    pub fn case(seed: u64, domain: &str, idx: u64) -> Rng {
        Rng::new(mix(seed).wrapping_add(hash_str(domain)) ^ mix(idx.wrapping_mul(0x2545F4914F6CDD1D)))
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() >> 11) % (n as u64)) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `pct`/100.
    pub fn pct(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Weighted choice: returns an index.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let sum: usize = w.iter().sum();
        let mut x = self.below(sum);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
}

//! Deterministic PRNG (xoshiro256**), seeded from (VERIF_SEED, property, case index).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    // 8-byte-at-a-time mixing, only used for counting distinct cases and comparing digests
    let mut x = h ^ (b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        x = (x ^ v).wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 32;
    }
    for &c in it.remainder() {
        x = (x ^ c as u64).wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^= x >> 29;
    }
    x ^ (x >> 31)
}

impl Rng {
    pub fn new(seed: u64, tag: &str, idx: u64) -> Self {
        let mut x = hash_bytes(seed.wrapping_mul(0xD1342543DE82EF95) ^ idx.wrapping_mul(0x2545F4914F6CDD1D), tag.as_bytes());
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Self { s }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) as u128 * n as u128 >> 53) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { (self.next() >> 33) as u8 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    /// log-uniform in 1..=max
    pub fn logsize(&mut self, max: usize) -> usize {
        let lm = (max.max(1) as f64).ln();
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        ((u * lm).exp() as usize).clamp(1, max)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

//! The only source of randomness: one integer decides a whole run.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    /// The generator of run `i` of property `id` under `seed`.
    pub fn for_run(seed: u64, id: &str, i: u64) -> Self {
        let mut x = seed ^ 0x5851F42D4C957F2D;
        let a = splitmix(&mut x);
        let mut y = a ^ hash_str(id);
        let b = splitmix(&mut y);
        let mut z = b ^ i.wrapping_mul(0xD6E8FEB86659FD93);
        Rng::new(splitmix(&mut z))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    /// A value with at most `bits` bits whose magnitude is spread evenly over bit lengths,
    /// biased towards edges.
    pub fn value(&mut self, bits: u32) -> u64 {
        let bits = bits.clamp(1, 64);
        let max = if bits == 64 {
            u64::MAX
        } else {
            (1u64 << bits) - 1
        };
        match self.below(10) {
            0 => 0,
            1 => max,
            2 => {
                let k = self.below(bits as u64) as u32;
                1u64 << k
            }
            3 => {
                let k = self.below(bits as u64) as u32;
                (1u64 << k).wrapping_sub(1) & max
            }
            4 => self.below(4).min(max),
            _ => {
                let k = self.range(1, bits as u64) as u32;
                let m = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
                self.u64() & m
            }
        }
    }
    /// A small count: mostly tiny, sometimes up to `max`.
    pub fn count(&mut self, max: u64) -> u64 {
        match self.below(8) {
            0 => 0,
            1..=4 => self.below(4.min(max + 1)),
            5 | 6 => self.below(12.min(max + 1)),
            _ => self.below(max + 1),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
}

/// An incremental hash of a recorded history.
#[derive(Clone, Copy)]
pub struct Trace(pub u64);
impl Trace {
    pub fn new() -> Self {
        Trace(0x243F6A8885A308D3)
    }
    pub fn add(&mut self, x: u64) {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
        self.0 = z ^ (z >> 29);
    }
    pub fn add_bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
        self.add(b.len() as u64 ^ 0xabcdef);
    }
    pub fn add_str(&mut self, s: &str) {
        self.add_bytes(s.as_bytes())
    }
}

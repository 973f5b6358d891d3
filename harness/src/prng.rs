//! Deterministic case generator. Every random choice of a case comes from one
//! `u64` case seed, so a case is replayed by its seed alone.

#[derive(Clone)]
pub struct P(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl P {
    pub fn new(seed: u64) -> Self {
        P(mix(seed ^ 0x5bd1_e995_0bad_c0de))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((u128::from(self.next()) * u128::from(n)) >> 64) as u64 }
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.range(lo as u64, hi_incl as u64) as usize
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }

    /// Key/nonce/seed material: uniform most of the time, otherwise a structured
    /// pattern (all-zero, all-one, one hot bit, repeated word, extreme words, ...).
    pub fn material(&mut self, out: &mut [u8]) {
        self.fill(out);
        let n = out.len();
        if n == 0 {
            return;
        }
        match self.below(16) {
            0 => out.fill(0),
            1 => out.fill(0xff),
            2 => {
                out.fill(0);
                let b = self.below(n as u64 * 8) as usize;
                out[b / 8] |= 1 << (b % 8);
            }
            3 => {
                out.fill(0xff);
                let b = self.below(n as u64 * 8) as usize;
                out[b / 8] &= !(1 << (b % 8));
            }
            4 => {
                let b = out[0];
                out.fill(b);
            }
            5 => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = i as u8;
                }
            }
            6 => {
                for w in out.chunks_mut(4) {
                    match self.below(6) {
                        0 => w.fill(0),
                        1 => w.fill(0xff),
                        2 => {
                            let l = w.len();
                            w.fill(0);
                            w[l - 1] = 0x80;
                        }
                        3 => {
                            w.fill(0);
                            w[0] = 1;
                        }
                        _ => {}
                    }
                }
            }
            7 => {
                // second half equals first half
                let h = n / 2;
                let (a, b) = out.split_at_mut(h);
                let l = a.len().min(b.len());
                b[..l].copy_from_slice(&a[..l]);
            }
            8 => {
                // one word uniform, the rest zero
                let words = n.div_ceil(4);
                let k = self.below(words as u64) as usize;
                for (i, w) in out.chunks_mut(4).enumerate() {
                    if i != k {
                        w.fill(0);
                    }
                }
            }
            _ => {}
        }
    }

    /// A 64-bit value biased to powers of two, carries and the extremes.
    pub fn edge64(&mut self) -> u64 {
        match self.below(10) {
            0 => self.below(64),
            1 => u64::MAX - self.below(64),
            2 | 3 => {
                let k = self.below(64);
                let base = 1u64 << k;
                base.wrapping_add(self.below(80)).wrapping_sub(40)
            }
            4 | 5 => {
                // low word close to its wrap, high word arbitrary or extreme
                let hi = match self.below(5) {
                    0 => 0,
                    1 => u64::from(u32::MAX),
                    2 => u64::from(u32::MAX) - 1,
                    3 => self.below(16),
                    _ => self.below(1 << 32),
                };
                let lo = (1u64 << 32) - 1 - self.below(40);
                (hi << 32) | lo
            }
            6 => {
                let hi = self.below(1 << 32);
                (hi << 32) | self.below(40)
            }
            7 => {
                let k = self.below(64);
                self.next() >> k
            }
            _ => self.next(),
        }
    }
    pub fn edge32(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(64) as u32,
            1 | 2 => u32::MAX - self.below(80) as u32,
            3 | 4 => {
                let k = self.below(32);
                (1u32 << k).wrapping_add(self.below(80) as u32).wrapping_sub(40)
            }
            5 => {
                let k = self.below(32);
                (self.next() as u32) >> k
            }
            _ => self.next() as u32,
        }
    }
    pub fn edge128(&mut self) -> u128 {
        match self.below(8) {
            0 => u128::from(self.below(200)),
            1 => u128::MAX - u128::from(self.below(200)),
            2 | 3 => {
                let k = self.below(128);
                (1u128 << k)
                    .wrapping_add(u128::from(self.below(400)))
                    .wrapping_sub(200)
            }
            4 | 5 => {
                // close to a multiple of 2^36 words (2^32 blocks) / 2^68 words
                let hi = match self.below(4) {
                    0 => 1u128 << 32,
                    1 => u128::from(self.below(8)),
                    2 => (1u128 << 32) - u128::from(self.below(4)),
                    _ => u128::from(self.below(1 << 32)),
                };
                (hi << 36)
                    .wrapping_add(u128::from(self.below(400)))
                    .wrapping_sub(200)
            }
            6 => (u128::from(self.next()) << 64 | u128::from(self.next())) >> self.below(128),
            _ => (u128::from(self.next()) << 64) | u128::from(self.next()),
        }
    }
    /// Request length in bytes, biased to block/batch boundaries; `big` bounds
    /// the rare long requests.
    pub fn length(&mut self, bs: usize, big: usize) -> usize {
        let n = match self.below(16) {
            0 => self.us(0, 3),
            1 | 2 => self.us(0, 2 * bs),
            3 | 4 | 5 => {
                // whole number of blocks
                bs * self.us(0, 40)
            }
            6 | 7 | 8 => {
                let b = bs * self.us(0, 40);
                (b + self.us(0, 2)).saturating_sub(self.us(0, 2))
            }
            9 | 10 | 11 => self.us(0, 40 * bs),
            12 => {
                let k = *self.pick(&[1usize, 2, 4, 8, 16, 32]);
                (bs * k + self.us(0, bs)).saturating_sub(bs / 2)
            }
            13 => self.us(0, 300),
            14 => self.us(0, 5000),
            _ => {
                if self.one_in(4) {
                    self.us(0, big)
                } else {
                    self.us(0, 2000)
                }
            }
        };
        n.min(big)
    }
}

//! Executable specifications, written from the published documents and not from
//! the code under test: RFC 8439 and Bernstein's ChaCha / Salsa20 papers,
//! draft-irtf-cfrg-xchacha, "Extending the Salsa20 nonce", Wu's HC-256 paper,
//! RFC 4503 (Rabbit) and the RC4 description of RFC 6229's authors.

const SIGMA: &[u8; 16] = b"expand 32-byte k";

fn le(b: &[u8]) -> u32 {
    u32::from(b[0]) | u32::from(b[1]) << 8 | u32::from(b[2]) << 16 | u32::from(b[3]) << 24
}
fn put(out: &mut [u8], w: &[u32]) {
    for (i, v) in w.iter().enumerate() {
        out[4 * i] = *v as u8;
        out[4 * i + 1] = (*v >> 8) as u8;
        out[4 * i + 2] = (*v >> 16) as u8;
        out[4 * i + 3] = (*v >> 24) as u8;
    }
}

// ---------------------------------------------------------------- ChaCha

macro_rules! cqr {
    ($a:ident, $b:ident, $c:ident, $d:ident) => {
        $a = $a.wrapping_add($b);
        $d = ($d ^ $a).rotate_left(16);
        $c = $c.wrapping_add($d);
        $b = ($b ^ $c).rotate_left(12);
        $a = $a.wrapping_add($b);
        $d = ($d ^ $a).rotate_left(8);
        $c = $c.wrapping_add($d);
        $b = ($b ^ $c).rotate_left(7);
    };
}

pub fn chacha_perm(s: &[u32; 16], rounds: u32) -> [u32; 16] {
    let [mut x0, mut x1, mut x2, mut x3, mut x4, mut x5, mut x6, mut x7, mut x8, mut x9, mut xa, mut xb, mut xc, mut xd, mut xe, mut xf] =
        *s;
    let mut r = rounds;
    while r > 0 {
        cqr!(x0, x4, x8, xc);
        cqr!(x1, x5, x9, xd);
        cqr!(x2, x6, xa, xe);
        cqr!(x3, x7, xb, xf);
        cqr!(x0, x5, xa, xf);
        cqr!(x1, x6, xb, xc);
        cqr!(x2, x7, x8, xd);
        cqr!(x3, x4, x9, xe);
        r -= 2;
    }
    [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, xa, xb, xc, xd, xe, xf]
}

/// ChaCha with `rounds` rounds: state row 3 is `row3`.
pub fn chacha_words(key: &[u8], row3: [u32; 4], rounds: u32) -> [u32; 16] {
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[i] = le(&SIGMA[4 * i..]);
        s[12 + i] = row3[i];
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..]);
    }
    let p = chacha_perm(&s, rounds);
    let mut o = [0u32; 16];
    for i in 0..16 {
        o[i] = p[i].wrapping_add(s[i]);
    }
    o
}

/// RFC 8439 layout: 32-bit counter, 96-bit nonce.
pub fn chacha_ietf_block(key: &[u8], nonce: &[u8], ctr: u32, rounds: u32) -> [u32; 16] {
    chacha_words(key, [ctr, le(nonce), le(&nonce[4..]), le(&nonce[8..])], rounds)
}
/// Original layout: 64-bit counter, 64-bit nonce.
pub fn chacha_djb_block(key: &[u8], nonce: &[u8], ctr: u64, rounds: u32) -> [u32; 16] {
    chacha_words(key, [ctr as u32, (ctr >> 32) as u32, le(nonce), le(&nonce[4..])], rounds)
}
pub fn hchacha(key: &[u8], input: &[u8], rounds: u32) -> [u8; 32] {
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[i] = le(&SIGMA[4 * i..]);
        s[12 + i] = le(&input[4 * i..]);
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..]);
    }
    let p = chacha_perm(&s, rounds);
    let mut o = [0u8; 32];
    put(&mut o[..16], &p[..4]);
    put(&mut o[16..], &p[12..]);
    o
}

// ---------------------------------------------------------------- Salsa20

/// Salsa20 spec section 3: quarterround on (y0,y1,y2,y3).
macro_rules! sqr {
    ($y0:ident, $y1:ident, $y2:ident, $y3:ident) => {
        $y1 ^= $y0.wrapping_add($y3).rotate_left(7);
        $y2 ^= $y1.wrapping_add($y0).rotate_left(9);
        $y3 ^= $y2.wrapping_add($y1).rotate_left(13);
        $y0 ^= $y3.wrapping_add($y2).rotate_left(18);
    };
}

pub fn salsa_perm(s: &[u32; 16], rounds: u32) -> [u32; 16] {
    let [mut y0, mut y1, mut y2, mut y3, mut y4, mut y5, mut y6, mut y7, mut y8, mut y9, mut ya, mut yb, mut yc, mut yd, mut ye, mut yf] =
        *s;
    let mut r = rounds;
    while r > 0 {
        // columnround
        sqr!(y0, y4, y8, yc);
        sqr!(y5, y9, yd, y1);
        sqr!(ya, ye, y2, y6);
        sqr!(yf, y3, y7, yb);
        // rowround
        sqr!(y0, y1, y2, y3);
        sqr!(y5, y6, y7, y4);
        sqr!(ya, yb, y8, y9);
        sqr!(yf, yc, yd, ye);
        r -= 2;
    }
    [y0, y1, y2, y3, y4, y5, y6, y7, y8, y9, ya, yb, yc, yd, ye, yf]
}
pub fn salsa_core(s: &[u32; 16], rounds: u32) -> [u32; 16] {
    let p = salsa_perm(s, rounds);
    let mut o = [0u32; 16];
    for i in 0..16 {
        o[i] = p[i].wrapping_add(s[i]);
    }
    o
}
/// Salsa20_k(n) expansion for a 32-byte key: (s0,k0,s1,n,s2,k1,s3).
fn salsa_expand(key: &[u8], n: [u32; 4]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[0] = le(&SIGMA[0..]);
    s[5] = le(&SIGMA[4..]);
    s[10] = le(&SIGMA[8..]);
    s[15] = le(&SIGMA[12..]);
    for i in 0..4 {
        s[1 + i] = le(&key[4 * i..]);
        s[11 + i] = le(&key[16 + 4 * i..]);
        s[6 + i] = n[i];
    }
    s
}
pub fn salsa_state(key: &[u8], nonce: &[u8], ctr: u64) -> [u32; 16] {
    salsa_expand(key, [le(nonce), le(&nonce[4..]), ctr as u32, (ctr >> 32) as u32])
}
pub fn hsalsa(key: &[u8], input: &[u8], rounds: u32) -> [u8; 32] {
    let s = salsa_expand(key, [le(input), le(&input[4..]), le(&input[8..]), le(&input[12..])]);
    let p = salsa_perm(&s, rounds);
    let mut o = [0u8; 32];
    put(&mut o, &[p[0], p[5], p[10], p[15], p[6], p[7], p[8], p[9]]);
    o
}

// ---------------------------------------------------------------- HC-256

pub struct Hc256 {
    p: Box<[u32; 1024]>,
    q: Box<[u32; 1024]>,
    step: u64,
    left: [u8; 4],
    have: usize,
}
impl Hc256 {
    pub fn new(key: &[u8], iv: &[u8]) -> Self {
        let f1 = |x: u32| x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let f2 = |x: u32| x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
        let mut w: Vec<u32> = Vec::with_capacity(2560);
        for i in 0..8 {
            w.push(le(&key[4 * i..]));
        }
        for i in 0..8 {
            w.push(le(&iv[4 * i..]));
        }
        for i in 16..2560usize {
            let v = f2(w[i - 2])
                .wrapping_add(w[i - 7])
                .wrapping_add(f1(w[i - 15]))
                .wrapping_add(w[i - 16])
                .wrapping_add(i as u32);
            w.push(v);
        }
        let mut p = Box::new([0u32; 1024]);
        let mut q = Box::new([0u32; 1024]);
        p.copy_from_slice(&w[512..1536]);
        q.copy_from_slice(&w[1536..2560]);
        let mut me = Hc256 { p, q, step: 0, left: [0; 4], have: 0 };
        for _ in 0..4096 {
            me.word();
        }
        me
    }
    fn word(&mut self) -> u32 {
        let i = self.step % 2048;
        self.step += 1;
        let j = (i % 1024) as usize;
        // index j - k (mod 1024)
        let m = |k: usize| (j + 1024 - k) % 1024;
        let (t, o) = if i < 1024 {
            (&mut self.p, &self.q)
        } else {
            (&mut self.q, &self.p)
        };
        let x = t[m(3)];
        let y = t[m(1023)];
        let g = (x.rotate_right(10) ^ y.rotate_right(23)).wrapping_add(o[((x ^ y) % 1024) as usize]);
        t[j] = t[j].wrapping_add(t[m(10)]).wrapping_add(g);
        let z = t[m(12)];
        let h = o[(z & 255) as usize]
            .wrapping_add(o[256 + ((z >> 8) & 255) as usize])
            .wrapping_add(o[512 + ((z >> 16) & 255) as usize])
            .wrapping_add(o[768 + (z >> 24) as usize]);
        h ^ t[j]
    }
    pub fn next(&mut self, out: &mut [u8]) {
        for b in out {
            if self.have == 0 {
                let w = self.word();
                put(&mut self.left, &[w]);
                self.have = 4;
            }
            *b = self.left[4 - self.have];
            self.have -= 1;
        }
    }
}

// ---------------------------------------------------------------- Rabbit

#[derive(Clone)]
pub struct Rabbit {
    x: [u32; 8],
    c: [u32; 8],
    b: bool,
    left: [u8; 16],
    have: usize,
    /// counter updates whose carry out was set / total (observed-state evidence)
    pub carries: u64,
    pub updates: u64,
    /// updates that overflow only because of the carry in / squares at the edges
    pub rare: u64,
}
const RA: [u32; 8] = [
    0x4D34_D34D, 0xD34D_34D3, 0x34D3_4D34, 0x4D34_D34D, 0xD34D_34D3, 0x34D3_4D34, 0x4D34_D34D,
    0xD34D_34D3,
];
impl Rabbit {
    pub fn new(key: &[u8], iv: Option<&[u8]>) -> Self {
        let k = |i: usize| -> u32 {
            let i = i % 8;
            u32::from(key[2 * i]) | u32::from(key[2 * i + 1]) << 8
        };
        let mut x = [0; 8];
        let mut c = [0; 8];
        for j in 0..8 {
            // RFC 4503 2.3: X = K(j+1) || K(j) / K(j+5) || K(j+4),
            //               C = K(j+4) || K(j+5) / K(j) || K(j+1)
            if j & 1 == 0 {
                x[j] = k(j + 1) << 16 | k(j);
                c[j] = k(j + 4) << 16 | k(j + 5);
            } else {
                x[j] = k(j + 5) << 16 | k(j + 4);
                c[j] = k(j) << 16 | k(j + 1);
            }
        }
        let mut me = Rabbit { x, c, b: false, left: [0; 16], have: 0, carries: 0, updates: 0, rare: 0 };
        for _ in 0..4 {
            me.step();
        }
        for j in 0..8 {
            me.c[j] ^= me.x[(j + 4) & 7];
        }
        if let Some(iv) = iv {
            me.set_iv(iv);
        }
        me
    }
    /// Secrets for which a counter (or the argument of a square) takes a value that random ones reach with
    /// probability 2^-32 only, within the first updates after the key setup (`with_iv`) or of it.
    pub fn edge(p: &mut crate::prng::P, key: &mut [u8], iv: &mut [u8], with_iv: bool) {
        let j = p.us(0, 7);
        let s = if with_iv { p.us(1, 12) } else { p.us(1, 4) } as u32;
        let target = p.pick(&[0u32, 1, 2, u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 0xffff, 0x1_0000]);
        let mut want = target.wrapping_sub(RA[j].wrapping_mul(s)).wrapping_sub(p.below(u64::from(s) + 1) as u32);
        if with_iv {
            let base = Rabbit::new(key, None);
            if s == 1 && p.one_in(2) {
                // x + c at the edge
                want = want.wrapping_sub(base.x[j]);
            }
            // the IV word that is added to counter j
            let m = (base.c[j] ^ want).to_le_bytes();
            for (i, at) in [[0, 1, 2, 3], [2, 3, 6, 7], [4, 5, 6, 7], [0, 1, 4, 5]][j % 4].into_iter().enumerate() {
                iv[at] = m[i];
            }
        } else {
            // (the first update also knows x: it is made of other key words)
            let w = |i: usize| 2 * (i % 8);
            let (hi, lo) = if j & 1 == 0 { (w(j + 4), w(j + 5)) } else { (w(j), w(j + 1)) };
            if s == 1 && p.one_in(2) {
                let k = |i: usize| u32::from(key[w(i)]) | u32::from(key[w(i) + 1]) << 8;
                let x = if j & 1 == 0 { k(j + 1) << 16 | k(j) } else { k(j + 5) << 16 | k(j + 4) };
                want = want.wrapping_sub(x);
            }
            key[lo..lo + 2].copy_from_slice(&(want as u16).to_le_bytes());
            key[hi..hi + 2].copy_from_slice(&((want >> 16) as u16).to_le_bytes());
        }
    }
    fn set_iv(&mut self, iv: &[u8]) {
        let me = self;
        {
            let lo = le(iv);
            let hi = le(&iv[4..]);
            // IV[63..48]||IV[31..16] and IV[47..32]||IV[15..0]
            let m1 = (hi & 0xffff_0000) | (lo >> 16);
            let m3 = (hi << 16) | (lo & 0xffff);
            for (j, m) in [lo, m1, hi, m3, lo, m1, hi, m3].into_iter().enumerate() {
                me.c[j] ^= m;
            }
            for _ in 0..4 {
                me.step();
            }
        }
    }
    fn step(&mut self) {
        for j in 0..8 {
            let (s, o1) = self.c[j].overflowing_add(RA[j]);
            let (s, o2) = s.overflowing_add(self.b as u32);
            self.b = o1 | o2;
            self.rare += u64::from(o2 || s.wrapping_add(1) < 2);
            self.carries += self.b as u64;
            self.c[j] = s;
        }
        self.updates += 8;
        let mut g = [0u32; 8];
        for j in 0..8 {
            let s = u64::from(self.x[j].wrapping_add(self.c[j]));
            self.rare += u64::from(s < 2 || s > 0xffff_fffd);
            let s = s * s;
            g[j] = (s >> 32) as u32 ^ s as u32;
        }
        for j in 0..8 {
            let p1 = g[(j + 7) & 7];
            let p2 = g[(j + 6) & 7];
            self.x[j] = if j & 1 == 0 {
                g[j].wrapping_add(p1.rotate_left(16)).wrapping_add(p2.rotate_left(16))
            } else {
                g[j].wrapping_add(p1.rotate_left(8)).wrapping_add(p2)
            };
        }
    }
    fn block(&mut self) -> [u8; 16] {
        self.step();
        let x = &self.x;
        let mut w = [0u32; 4];
        for i in 0..4 {
            // S[32i+15..32i] = X_{2i}[15..0] ^ X_{2i+5}[31..16]
            // S[32i+31..32i+16] = X_{2i}[31..16] ^ X_{2i+3}[15..0]
            let lo = x[2 * i] ^ (x[(2 * i + 5) & 7] >> 16);
            let hi = (x[2 * i] >> 16) ^ x[(2 * i + 3) & 7];
            w[i] = (lo & 0xffff) | (hi << 16);
        }
        let mut o = [0; 16];
        put(&mut o, &w);
        o
    }
    pub fn next(&mut self, out: &mut [u8]) {
        for b in out {
            if self.have == 0 {
                self.left = self.block();
                self.have = 16;
            }
            *b = self.left[16 - self.have];
            self.have -= 1;
        }
    }
}

// ---------------------------------------------------------------- RC4

pub struct Rc4 {
    s: [u8; 256],
    i: usize,
    j: usize,
}
impl Rc4 {
    pub fn new(key: &[u8]) -> Self {
        let mut s = [0u8; 256];
        for (i, v) in s.iter_mut().enumerate() {
            *v = i as u8;
        }
        let mut j = 0usize;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) & 255;
            s.swap(i, j);
        }
        Rc4 { s, i: 0, j: 0 }
    }
    pub fn next(&mut self, out: &mut [u8]) {
        for b in out {
            self.i = (self.i + 1) & 255;
            let a = self.s[self.i];
            self.j = (self.j + a as usize) & 255;
            let c = self.s[self.j];
            self.s[self.i] = c;
            self.s[self.j] = a;
            *b = self.s[(a as usize + c as usize) & 255];
        }
    }
}

// ---------------------------------------------------------------- keystream source

/// A keystream as a function of the byte position (counter-based ciphers) or a
/// sequential generator.
pub enum Ks {
    /// permutation input at block `ctr` = base with the counter words replaced
    Counter { salsa: bool, base: [u32; 16], rounds: u32, wide: bool },
    Hc(Hc256),
    Rabbit(Rabbit),
    Rc4(Rc4),
}
impl Ks {
    pub fn chacha_ietf(key: &[u8], nonce: &[u8], rounds: u32) -> Ks {
        let mut base = [0u32; 16];
        for i in 0..4 {
            base[i] = le(&SIGMA[4 * i..]);
        }
        for i in 0..8 {
            base[4 + i] = le(&key[4 * i..]);
        }
        for i in 0..3 {
            base[13 + i] = le(&nonce[4 * i..]);
        }
        Ks::Counter { salsa: false, base, rounds, wide: false }
    }
    pub fn chacha_djb(key: &[u8], nonce: &[u8], rounds: u32) -> Ks {
        let mut base = [0u32; 16];
        for i in 0..4 {
            base[i] = le(&SIGMA[4 * i..]);
        }
        for i in 0..8 {
            base[4 + i] = le(&key[4 * i..]);
        }
        for i in 0..2 {
            base[14 + i] = le(&nonce[4 * i..]);
        }
        Ks::Counter { salsa: false, base, rounds, wide: true }
    }
    pub fn xchacha(key: &[u8], nonce: &[u8], rounds: u32) -> Ks {
        let sub = hchacha(key, &nonce[..16], rounds);
        let mut n = [0u8; 12];
        n[4..].copy_from_slice(&nonce[16..24]);
        Ks::chacha_ietf(&sub, &n, rounds)
    }
    pub fn salsa(key: &[u8], nonce: &[u8], rounds: u32) -> Ks {
        Ks::Counter { salsa: true, base: salsa_state(key, nonce, 0), rounds, wide: true }
    }
    pub fn xsalsa(key: &[u8], nonce: &[u8], rounds: u32) -> Ks {
        let sub = hsalsa(key, &nonce[..16], rounds);
        Ks::salsa(&sub, &nonce[16..24], rounds)
    }
    pub fn salsa_raw(state: [u32; 16], rounds: u32) -> Ks {
        Ks::Counter { salsa: true, base: state, rounds, wide: true }
    }
    pub fn seq(&self) -> bool {
        !matches!(self, Ks::Counter { .. })
    }
    /// Block `ctr` (reduced to the counter width) as words.
    pub fn block(&self, ctr: u64) -> [u32; 16] {
        let Ks::Counter { salsa, base, rounds, wide } = self else {
            unreachable!("block() on a sequential keystream")
        };
        let mut s = *base;
        if *salsa {
            s[8] = ctr as u32;
            s[9] = (ctr >> 32) as u32;
            salsa_core(&s, *rounds)
        } else {
            s[12] = ctr as u32;
            if *wide {
                s[13] = (ctr >> 32) as u32;
            }
            let p = chacha_perm(&s, *rounds);
            let mut o = [0u32; 16];
            for i in 0..16 {
                o[i] = p[i].wrapping_add(s[i]);
            }
            o
        }
    }
    /// Counter-based only: keystream bytes at absolute byte position `pos`, the
    /// counter wrapping at its width.
    pub fn at(&self, pos: u128, out: &mut [u8]) {
        let mut blk = (pos / 64) as u64;
        let mut off = (pos % 64) as usize;
        let mut done = 0;
        let mut b = [0u8; 64];
        while done < out.len() {
            put(&mut b, &self.block(blk));
            let n = (64 - off).min(out.len() - done);
            out[done..done + n].copy_from_slice(&b[off..off + n]);
            done += n;
            off = 0;
            blk = blk.wrapping_add(1);
        }
    }
    pub fn next(&mut self, out: &mut [u8]) {
        match self {
            Ks::Hc(h) => h.next(out),
            Ks::Rabbit(r) => r.next(out),
            Ks::Rc4(r) => r.next(out),
            Ks::Counter { .. } => unreachable!("next() on a counter keystream"),
        }
    }
}

pub fn words_to_bytes(w: &[u32]) -> Vec<u8> {
    let mut v = vec![0u8; w.len() * 4];
    put(&mut v, w);
    v
}

// ---------------------------------------------------------------- oracle self-test

pub fn hex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

/// Checks the oracles against published vectors; an oracle that fails this is
/// a broken check, never a violation.
pub fn self_test() -> Result<usize, String> {
    let mut n = 0;
    let mut eq = |name: &str, got: &[u8], want: &str| -> Result<(), String> {
        n += 1;
        let want = hex(want);
        if got == &want[..] { Ok(()) } else { Err(format!("oracle self-test {name} failed: {got:02x?}")) }
    };
    let k0: Vec<u8> = (0..32).collect();
    // RFC 8439 2.3.2
    eq(
        "rfc8439-2.3.2",
        &words_to_bytes(&chacha_ietf_block(&k0, &hex("000000090000004a00000000"), 1, 20)),
        "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e",
    )?;
    // RFC 8439 A.1 #1
    eq(
        "rfc8439-A.1-1",
        &words_to_bytes(&chacha_djb_block(&[0; 32], &[0; 8], 0, 20)),
        "76b8e0ada0f13d90405d6ae55386bd28bdd219b8a08ded1aa836efcc8b770dc7da41597c5157488d7724e03fb8d84a376a43b8f41518a11cc387b669b2ee6586",
    )?;
    // draft-strombergson-chacha-test-vectors TC1, 8 and 12 rounds, 256-bit key
    eq(
        "chacha8-tc1",
        &words_to_bytes(&chacha_djb_block(&[0; 32], &[0; 8], 0, 8))[..32],
        "3e00ef2f895f40d67f5bb8e81f09a5a12c840ec3ce9a7f3b181be188ef711a1e",
    )?;
    eq(
        "chacha12-tc1",
        &words_to_bytes(&chacha_djb_block(&[0; 32], &[0; 8], 0, 12))[..32],
        "9bf49a6a0755f953811fce125f2683d50429c3bb49e074147e0089a52eae155f",
    )?;
    // draft-irtf-cfrg-xchacha 2.2.1
    eq(
        "hchacha20",
        &hchacha(&k0, &hex("000000090000004a0000000031415927"), 20),
        "82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc",
    )?;
    // eSTREAM Salsa20 set 1 vector 0 (256-bit key 0x80..)
    let mut k = [0u8; 32];
    k[0] = 0x80;
    let mut o = [0u8; 64];
    Ks::salsa(&k, &[0; 8], 20).at(0, &mut o);
    eq(
        "salsa20-ecrypt",
        &o,
        "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844b22c97559e2723c7cbbd3fe4fc8d9a0744652a83e72a9c461876af4d7ef1a117",
    )?;
    // NaCl hsalsa20 / core1.c
    eq(
        "hsalsa20-nacl",
        &hsalsa(
            &hex("4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742"),
            &[0; 16],
            20,
        ),
        "1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389",
    )?;
    // RFC 6229, 40-bit key 0102030405, offset 0 and 16
    let mut r = Rc4::new(&[1, 2, 3, 4, 5]);
    let mut o = [0u8; 32];
    r.next(&mut o);
    eq("rfc6229-40", &o, "b2396305f03dc027ccc3524a0a1118a86982944f18fc82d589c403a47a0d0919")?;
    // RFC 4503 A.1 / A.2
    let mut r = Rabbit::new(&[0; 16], None);
    let mut o = [0u8; 48];
    r.next(&mut o);
    eq(
        "rfc4503-A1",
        &o,
        "02f74a1c26456bf5ecd6a536f05457b1a78ac689476c697b390c9cc515d8e88896d6731688d168da51d40c70c3a116f4",
    )?;
    let mut r = Rabbit::new(&[0; 16], Some(&hex("597e26c175f573c3")));
    let mut o = [0u8; 16];
    r.next(&mut o);
    eq("rfc4503-A2", &o, "6d7d012292ccdce0e2120058b94ecd1f")?;
    // HC-256 paper, key = iv = 0
    let mut h = Hc256::new(&[0; 32], &[0; 32]);
    let mut o = [0u8; 32];
    h.next(&mut o);
    eq("hc256-zero", &o, "5b078985d8f6f30d42c5c02fa6b6795153f06534801f89f24e74248b720b4818")?;
    Ok(n)
}

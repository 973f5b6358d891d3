//! Lockstep monitor for the ChaCha RNGs: operation histories against a model
//! that knows only seed, stream, and a 68-bit word position.

use chacha20::{ChaCha8Rng, ChaCha12Rng, ChaCha20Rng, SerializedRngState};
use rand_core::{Rng, SeedableRng, TryRng};

use crate::mem::{Mode, Region};
use crate::model::chacha_djb_block;
use crate::prng::P;
use crate::rep::{Bad, Fnv, PanicAt, Rep, diff, guarded, hexs, viol};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ops: usize,
    pub big: usize,
    pub mode: Mode,
    /// percent of operations that move / query / serialize+compare
    pub mv: u64,
    pub query: u64,
    pub ser: u64,
    pub model: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { ops: 24, big: 1 << 14, mode: Mode::Canary, mv: 12, query: 15, ser: 6, model: true }
    }
}

const MASK: u128 = (1 << 68) - 1;

pub trait RngDut {
    fn u32(&mut self, tr: bool) -> u32;
    fn u64(&mut self, tr: bool) -> u64;
    fn fill(&mut self, tr: bool, b: &mut [u8]);
    fn set_word_pos(&mut self, w: u128);
    fn set_block_pos(&mut self, b: u64);
    fn set_stream(&mut self, s: u64);
    fn word_pos(&self) -> u128;
    fn block_pos(&self) -> u64;
    fn stream(&self) -> u64;
    fn seed(&self) -> [u8; 32];
    fn ser(&self) -> SerializedRngState;
    fn reload(&mut self, s: &SerializedRngState);
    /// compares with an RNG of the same type built from parts
    fn eq_parts(&self, seed: [u8; 32], stream: u64, pos: u128, skip: usize) -> bool;
    fn eq_twin_after(&self, s: &SerializedRngState) -> bool;
    fn eq_self(&self) -> bool;
}

macro_rules! imp {
    ($($t:ident),*) => {$(
        impl RngDut for $t {
            fn u32(&mut self, tr: bool) -> u32 {
                if tr { let Ok(v) = self.try_next_u32(); v } else { self.next_u32() }
            }
            fn u64(&mut self, tr: bool) -> u64 {
                if tr { let Ok(v) = self.try_next_u64(); v } else { self.next_u64() }
            }
            fn fill(&mut self, tr: bool, b: &mut [u8]) {
                if tr { let Ok(()) = self.try_fill_bytes(b); } else { self.fill_bytes(b) }
            }
            fn set_word_pos(&mut self, w: u128) { self.set_word_pos(w) }
            fn set_block_pos(&mut self, b: u64) { self.set_block_pos(b) }
            fn set_stream(&mut self, s: u64) { self.set_stream(s) }
            fn word_pos(&self) -> u128 { self.get_word_pos() }
            fn block_pos(&self) -> u64 { self.get_block_pos() }
            fn stream(&self) -> u64 { self.get_stream() }
            fn seed(&self) -> [u8; 32] { self.get_seed() }
            fn ser(&self) -> SerializedRngState { self.serialize_state() }
            fn reload(&mut self, s: &SerializedRngState) { *self = $t::deserialize_state(s) }
            #[allow(clippy::cmp_owned)]
            fn eq_parts(&self, seed: [u8; 32], stream: u64, pos: u128, skip: usize) -> bool {
                let mut o = $t::from_seed(seed);
                o.set_stream(stream);
                o.set_word_pos(pos.wrapping_sub(skip as u128) & MASK);
                for _ in 0..skip { o.next_u32(); }
                let e = *self == o;
                assert!(e == (o == *self), "DUT: equality is not symmetric");
                assert!(e != (*self != o), "DUT: == and != agree");
                e
            }
            fn eq_twin_after(&self, s: &SerializedRngState) -> bool { *self == $t::deserialize_state(s) }
            #[allow(clippy::eq_op)]
            fn eq_self(&self) -> bool { *self == *self }
        }
    )*};
}
imp!(ChaCha8Rng, ChaCha12Rng, ChaCha20Rng);

pub fn build(rounds: u32, seed: [u8; 32]) -> Box<dyn RngDut> {
    match rounds {
        8 => Box::new(ChaCha8Rng::from_seed(seed)),
        12 => Box::new(ChaCha12Rng::from_seed(seed)),
        _ => Box::new(ChaCha20Rng::from_seed(seed)),
    }
}

/// Captures the seed that the trait's own default `seed_from_u64` /
/// `from_rng` produce.
struct Cap([u8; 32]);
impl SeedableRng for Cap {
    type Seed = [u8; 32];
    fn from_seed(s: [u8; 32]) -> Self {
        Cap(s)
    }
}
/// A fixed byte source for `from_rng`.
struct Src(P);
impl TryRng for Src {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.0.next() as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(self.0.next())
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        self.0.fill(d);
        Ok(())
    }
}

pub struct Model {
    rounds: u32,
    seed: [u8; 32],
    stream: u64,
    /// word position, mod 2^68
    pos: u128,
    cache: Option<(u64, u64, [u32; 16])>,
    on: bool,
}
impl Model {
    fn word(&mut self) -> u32 {
        let blk = (self.pos >> 4) as u64;
        let i = (self.pos & 15) as usize;
        self.pos = (self.pos + 1) & MASK;
        if !self.on {
            return 0;
        }
        if self.cache.is_none_or(|(b, s, _)| b != blk || s != self.stream) {
            let w = chacha_djb_block(&self.seed, &self.stream.to_le_bytes(), blk, self.rounds);
            self.cache = Some((blk, self.stream, w));
        }
        self.cache.expect("harness: cached").2[i]
    }
    fn ser(&self) -> [u8; 49] {
        let mut o = [0; 49];
        o[..32].copy_from_slice(&self.seed);
        o[32..40].copy_from_slice(&self.stream.to_le_bytes());
        o[40..].copy_from_slice(&self.pos.to_le_bytes()[..9]);
        o
    }
}

fn pick_pos(p: &mut P) -> u128 {
    match p.below(6) {
        0 => u128::from(p.below(200)),
        // the end of the 68-bit cycle
        1 => MASK - u128::from(p.below(200)),
        // 2^32-block boundary
        2 => {
            let hi = *p.pick(&[1u128, 1, 2, 3, (1 << 31), (1 << 32) - 1]);
            (hi << 36) + u128::from(p.below(300)) - 150
        }
        3 => u128::from(p.edge64()) * 16 + u128::from(p.below(16)),
        _ => p.edge128(),
    }
}

struct Run<'a> {
    d: Box<dyn RngDut>,
    m: Model,
    out: &'a mut Region,
    rep: &'a mut Rep,
    dig: Fnv,
    log: Vec<String>,
    cfg: &'a Cfg,
}
impl Run<'_> {
    fn fail<T>(&self, what: String) -> Result<T, Bad> {
        let n = self.log.len();
        let tail = self.log[n.saturating_sub(14)..].join("; ");
        viol(format!("ChaCha{}Rng: {what} [history ({n} ops): {tail}]", self.m.rounds))
    }
    fn wrap<T>(&self, r: Result<T, PanicAt>) -> Result<T, Bad> {
        match r {
            Ok(v) => Ok(v),
            Err(p) => match Bad::from(p) {
                Bad::Violation(s) => self.fail(s),
                b => Err(b),
            },
        }
    }
    fn draw(&mut self, p: &mut P) -> Result<(), Bad> {
        let tr = p.one_in(2);
        let at = self.m.pos;
        let straddle = |r: &mut Rep, words: u128| {
            let (b0, b1) = (at >> 4, (at + words.max(1) - 1) >> 4);
            if b0 >> 32 != b1 >> 32 {
                r.hit("draw crosses a 2^32-block boundary");
            }
            if at + words > MASK {
                r.hit("draw wraps the 2^68-word cycle");
            }
        };
        match p.below(3) {
            0 => {
                self.log.push(format!("u32 at {at}"));
                let d = &mut self.d;
                let got = guarded(|| d.u32(tr));
                let got = self.wrap(got)?;
                let want = self.m.word();
                self.dig.u(got.into());
                if self.cfg.model && got != want {
                    return self.fail(format!("next_u32 at word {at} gave {got:08x}, the keystream word is {want:08x}"));
                }
                straddle(self.rep, 1);
                self.rep.hit("u32 draws");
            }
            1 => {
                self.log.push(format!("u64 at {at}"));
                let d = &mut self.d;
                let got = guarded(|| d.u64(tr));
                let got = self.wrap(got)?;
                let lo = self.m.word();
                let want = u64::from(lo) | u64::from(self.m.word()) << 32;
                self.dig.u(got);
                if self.cfg.model && got != want {
                    return self.fail(format!("next_u64 at word {at} gave {got:016x}, the keystream gives {want:016x}"));
                }
                straddle(self.rep, 2);
                self.rep.hit("u64 draws");
            }
            _ => {
                let n = match p.below(4) {
                    0 => p.us(0, 9),
                    1 => p.us(200, 320),
                    _ => p.length(64, self.cfg.big),
                };
                let al = p.us(0, 63);
                self.log.push(format!("fill {n} at {at}"));
                let d = &mut self.d;
                let buf = self.out.place(n, al);
                p.fill(buf);
                let got = guarded(|| d.fill(tr, buf));
                self.wrap(got)?;
                if let Err(s) = self.out.check() {
                    return self.fail(format!("fill_bytes({n}): {s}"));
                }
                let mut want = Vec::with_capacity(n + 3);
                while want.len() < n {
                    want.extend_from_slice(&self.m.word().to_le_bytes());
                }
                want.truncate(n);
                let got = self.out.slice();
                self.dig.bytes(got);
                if self.cfg.model && got != &want[..] {
                    let s = diff(got, &want);
                    return self.fail(format!("fill_bytes({n}) at word {at}: not the keystream: {s}"));
                }
                straddle(self.rep, n.div_ceil(4) as u128);
                self.rep.add("bytes filled", n as u64);
            }
        }
        Ok(())
    }
    fn mv(&mut self, p: &mut P) -> Result<(), Bad> {
        match p.below(4) {
            0 => {
                let s = if p.one_in(3) { self.m.stream } else { p.edge64() };
                self.log.push(format!("set_stream {s}"));
                let d = &mut self.d;
                let r = guarded(|| d.set_stream(s));
                self.wrap(r)?;
                self.m.stream = s;
                self.m.pos = 0;
                self.rep.hit("set_stream");
            }
            1 => {
                let b = if p.one_in(3) { (pick_pos(p) >> 4) as u64 } else { p.edge64() };
                self.log.push(format!("set_block_pos {b}"));
                let d = &mut self.d;
                let r = guarded(|| d.set_block_pos(b));
                self.wrap(r)?;
                self.m.pos = u128::from(b) << 4;
                self.rep.hit("set_block_pos");
            }
            _ => {
                let w = match p.below(8) {
                    0 => self.m.pos.wrapping_sub(u128::from(p.below(100))),
                    1 => self.m.pos + u128::from(p.below(100)),
                    _ => pick_pos(p),
                };
                self.log.push(format!("set_word_pos {w}"));
                let d = &mut self.d;
                let r = guarded(|| d.set_word_pos(w));
                self.wrap(r)?;
                self.m.pos = w & MASK;
                self.rep.hit("set_word_pos");
            }
        }
        Ok(())
    }
    fn query(&mut self) -> Result<(), Bad> {
        self.log.push("getters".into());
        let d = &self.d;
        let w = self.wrap(guarded(|| d.word_pos()))?;
        let b = self.wrap(guarded(|| d.block_pos()))?;
        let s = self.wrap(guarded(|| d.stream()))?;
        let k = self.wrap(guarded(|| d.seed()))?;
        self.dig.u(w as u64);
        self.dig.u((w >> 64) as u64);
        self.dig.u(b);
        self.dig.u(s);
        self.dig.bytes(&k);
        if w != self.m.pos {
            return self.fail(format!("get_word_pos is {w}, {} words into the cycle were consumed", self.m.pos));
        }
        if u128::from(b) != self.m.pos >> 4 {
            return self.fail(format!("get_block_pos is {b}, the position is word {} (block {})", self.m.pos, self.m.pos >> 4));
        }
        if s != self.m.stream {
            return self.fail(format!("get_stream is {s}, stream {} was set", self.m.stream));
        }
        if k != self.m.seed {
            return self.fail(format!("get_seed is {}, seeded with {}", hexs(&k), hexs(&self.m.seed)));
        }
        self.rep.hit("position reports compared");
        Ok(())
    }
    fn ser(&mut self, p: &mut P) -> Result<(), Bad> {
        match p.below(5) {
            0 | 1 => {
                self.log.push("serialize+deserialize".into());
                let d = &mut self.d;
                let s = guarded(|| d.ser());
                let s = self.wrap(s)?;
                self.dig.bytes(&s);
                let want = self.m.ser();
                if s != want {
                    let w = diff(&s, &want);
                    return self.fail(format!("serialized state is not seed, stream, word position: {w}"));
                }
                let d = &mut self.d;
                let r = guarded(|| d.eq_twin_after(&s));
                if !self.wrap(r)? {
                    return self.fail("a deserialized copy does not compare equal".into());
                }
                if p.one_in(2) {
                    let d = &mut self.d;
                    let r = guarded(|| d.reload(&s));
                    self.wrap(r)?;
                }
                self.rep.hit("round trips");
            }
            2 => {
                // arbitrary bytes are a valid state; bits above the 68th are ignored
                let mut s = [0u8; 49];
                p.material(&mut s[..32]);
                s[32..40].copy_from_slice(&p.edge64().to_le_bytes());
                let w = pick_pos(p);
                s[40..].copy_from_slice(&w.to_le_bytes()[..9]);
                self.log.push(format!("deserialize {}", hexs(&s)));
                let d = &mut self.d;
                let r = guarded(|| d.reload(&s));
                self.wrap(r)?;
                self.m.seed.copy_from_slice(&s[..32]);
                self.m.stream = u64::from_le_bytes(s[32..40].try_into().expect("harness: 8"));
                self.m.pos = w & MASK;
                self.m.cache = None;
                self.rep.hit("raw states loaded");
            }
            _ => {
                let same = p.one_in(2);
                let (mut seed, mut stream, mut pos) = (self.m.seed, self.m.stream, self.m.pos);
                if !same {
                    match p.below(7) {
                        0 => {
                            let b = p.us(0, 255);
                            seed[b / 8] ^= 1 << (b % 8);
                        }
                        4 => {
                            // differences that cancel each other when they are summed up
                            let step = *p.pick(&[1usize, 2, 4, 8, 16]);
                            let at = p.us(0, 31 - step);
                            let x = 1u8 << p.below(8) | (p.next() as u8 & p.next() as u8);
                            seed[at] ^= x;
                            seed[at + step] ^= x;
                        }
                        5 => {
                            let step = *p.pick(&[1usize, 4, 8, 16]);
                            let (i, j) = (p.us(0, 32 / step - 1) * step, p.us(0, 32 / step - 1) * step);
                            for k in 0..step {
                                seed.swap(i + k, j + k);
                            }
                            if p.one_in(4) {
                                stream = stream.rotate_left(32);
                            }
                        }
                        6 => {
                            let x = 1u32 << p.below(32);
                            let at = 4 * p.us(0, 7);
                            for (b, y) in seed[at..at + 4].iter_mut().zip(x.to_le_bytes()) {
                                *b ^= y;
                            }
                            match p.below(3) {
                                0 => stream ^= u64::from(x),
                                1 => stream ^= u64::from(x) << 32,
                                _ => pos ^= u128::from(x) << *p.pick(&[0, 4, 32, 36]),
                            }
                        }
                        1 => stream ^= 1 << p.below(64),
                        2 => pos ^= 1 << p.below(68),
                        _ => pos = (pos + *p.pick(&[1u128, 16, 64, 15, 1 << 64, 1 << 36])) & MASK,
                    }
                }
                let same = (seed, stream, pos) == (self.m.seed, self.m.stream, self.m.pos);
                // reach the position with a differently filled buffer
                let skip = match p.below(3) {
                    0 => 0,
                    1 => p.us(0, 16),
                    _ => p.us(0, 140),
                };
                self.log.push(format!("compare same={same} skip={skip}"));
                let d = &self.d;
                let e = self.wrap(guarded(|| d.eq_parts(seed, stream, pos, skip)))?;
                if e != same {
                    return self.fail(format!(
                        "compares {} with an RNG of {} seed, stream and position",
                        if e { "equal" } else { "different" },
                        if same { "the same" } else { "another" }
                    ));
                }
                let d = &self.d;
                if !self.wrap(guarded(|| d.eq_self()))? {
                    return self.fail("does not compare equal to itself".into());
                }
                self.dig.u(u64::from(e));
                self.rep.hit(if same { "compared equal" } else { "compared different" });
            }
        }
        Ok(())
    }
}

pub fn run_case(case: u64, cfg: &Cfg, out: &mut Region, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let rounds = *p.pick(&[8u32, 12, 20]);
    let mut seed = [0u8; 32];
    p.material(&mut seed);
    let how = p.below(12);
    let mut d = {
        let r = match how {
            0 => {
                let v = p.edge64();
                seed = Cap::seed_from_u64(v).0;
                guarded(|| match rounds {
                    8 => Box::new(ChaCha8Rng::seed_from_u64(v)) as Box<dyn RngDut>,
                    12 => Box::new(ChaCha12Rng::seed_from_u64(v)),
                    _ => Box::new(ChaCha20Rng::seed_from_u64(v)),
                })
            }
            1 => {
                let s = p.next();
                seed = Cap::from_rng(&mut Src(P::new(s))).0;
                guarded(|| match rounds {
                    8 => Box::new(ChaCha8Rng::from_rng(&mut Src(P::new(s)))) as Box<dyn RngDut>,
                    12 => Box::new(ChaCha12Rng::from_rng(&mut Src(P::new(s)))),
                    _ => Box::new(ChaCha20Rng::from_rng(&mut Src(P::new(s)))),
                })
            }
            _ => guarded(|| build(rounds, seed)),
        };
        r.map_err(Bad::from)?
    };
    // half of the cases start somewhere interesting
    let mut m = Model { rounds, seed, stream: 0, pos: 0, cache: None, on: cfg.model };
    let mut log = vec![format!("seed={} via {how}", hexs(&seed))];
    if p.one_in(2) {
        let s = p.edge64();
        let w = pick_pos(&mut p);
        log.push(format!("set_stream {s}; set_word_pos {w}"));
        guarded(|| {
            d.set_stream(s);
            d.set_word_pos(w);
        })
        .map_err(Bad::from)?;
        m.stream = s;
        m.pos = w & MASK;
    }
    let mut r = Run { d, m, out, rep, dig: Fnv::default(), log, cfg };
    let n = p.us(1, cfg.ops);
    for _ in 0..n {
        let roll = p.below(100);
        if roll < cfg.mv {
            r.mv(&mut p)?;
        } else if roll < cfg.mv + cfg.query {
            r.query()?;
        } else if roll < cfg.mv + cfg.query + cfg.ser {
            r.ser(&mut p)?;
        } else {
            r.draw(&mut p)?;
        }
    }
    r.query()?;
    r.draw(&mut p)?;
    r.query()?;
    let (dig, log) = (r.dig.0, std::mem::take(&mut r.log));
    drop(r);
    rep.evaluations += 1;
    rep.hit(&format!("cases ChaCha{rounds}Rng"));
    let mut f = Fnv::default();
    for l in &log {
        f.bytes(l.as_bytes());
    }
    if log.len() >= 3 {
        rep.distinct.insert(f.0);
    }
    rep.sample(|| format!("ChaCha{rounds}Rng: {}", log.join("; ")));
    if !cfg.model {
        rep.transcript.push((case, dig));
    }
    Ok(())
}

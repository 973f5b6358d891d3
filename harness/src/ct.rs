//! Constant-time monitor: the same public script is executed with different
//! secrets, and either
//! * `trace`: every instruction address and every memory address of the runs is
//!   recorded (single stepping) and must be the same for all secrets, or
//! * `taint`: under valgrind's memcheck the secrets are marked undefined, so that
//!   any branch or address that depends on them is reported.
#![allow(unused_macros, unused_imports, dead_code)]

use std::hint::black_box;
#[cfg(not(miri))]
use std::sync::atomic::Ordering::Relaxed;

use cipher::typenum::Unsigned;
use cipher::{
    Block, IvSizeUser, KeyIvInit, KeySizeUser, ParBlocks, StreamCipher, StreamCipherBackend, StreamCipherClosure,
    StreamCipherCore, StreamCipherSeek, StreamCipherSeekCore, inout::InOutBuf,
};

use crate::dut::raw_state;
use crate::inst::Core;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, PanicAt, hexs, viol};

pub const N: usize = if cfg!(miri) { 832 } else { 6144 };

#[cfg(not(miri))]
#[path = "ct_native.rs"]
mod native;
#[cfg(not(miri))]
use native::*;

/// Found in the interpreter's trace.
#[cfg(miri)]
#[inline(never)]
pub fn ct_mark(n: u32) {
    black_box(n);
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Copy, Debug)]
pub enum Op {
    /// position in bytes / blocks / words
    Seek(u64),
    Pos,
    /// entry, offset, length
    Apply(u8, usize, usize),
    Stream(u64),
    Draw(u8),
}
#[derive(Clone, Debug)]
pub struct Script {
    pub how: u8,
    pub ops: Vec<Op>,
}
pub struct Mat {
    pub key: [u8; 64],
    pub iv: [u8; 32],
    pub data: [u8; N],
    pub inp: [u8; N],
}

#[inline(never)]
fn cipher_run<C: KeyIvInit + StreamCipher + StreamCipherSeek>(s: &Script, m: &mut Mat) {
    let (k, n) = (&m.key[..C::KeySize::USIZE], &m.iv[..C::IvSize::USIZE]);
    let mut c = if s.how & 1 == 0 {
        C::new_from_slices(k, n).expect("DUT: exact lengths refused")
    } else {
        C::new(k.try_into().expect("harness: key"), n.try_into().expect("harness: iv"))
    };
    for op in &s.ops {
        match *op {
            Op::Seek(p) => c.seek(p),
            Op::Pos => {
                black_box(c.current_pos::<u128>());
            }
            Op::Apply(e, o, l) => {
                let d = &mut m.data[o..o + l];
                match e % 7 {
                    0 => c.apply_keystream(d),
                    1 => c.try_apply_keystream(d).expect("DUT: refused"),
                    2 => c.apply_keystream_b2b(&m.inp[o..o + l], d),
                    3 => c.write_keystream(d),
                    4 => c.apply_keystream_inout(d.into()),
                    5 => c.unchecked_apply_keystream_inout(d.into()),
                    _ => c.try_apply_keystream_inout(InOutBuf::new(&m.inp[o..o + l], d).expect("harness: equal")).expect("DUT: refused"),
                }
            }
            _ => {}
        }
    }
    black_box(&c);
}

struct Gen<'a, BS: cipher::array::ArraySize> {
    out: &'a mut [cipher::array::Array<u8, BS>],
}
impl<BS: cipher::array::ArraySize> cipher::BlockSizeUser for Gen<'_, BS> {
    type BlockSize = BS;
}
impl<BS: cipher::array::ArraySize> StreamCipherClosure for Gen<'_, BS> {
    fn call<B: StreamCipherBackend<BlockSize = BS>>(self, b: &mut B) {
        let mut par = ParBlocks::<B>::default();
        b.gen_par_ks_blocks(&mut par);
        let n = B::ParBlocksSize::USIZE;
        for (i, o) in self.out.iter_mut().enumerate() {
            if i % 3 == 1 && n > 1 {
                let mut t = ParBlocks::<B>::default();
                b.gen_tail_blocks(&mut t[..n - 1]);
                *o = t[n - 2].clone();
            } else {
                b.gen_ks_block(o);
            }
        }
    }
}

#[inline(never)]
fn core_ops<C: StreamCipherCore + StreamCipherSeekCore>(mut c: C, s: &Script, m: &mut Mat) {
    for op in &s.ops {
        match *op {
            Op::Seek(p) => {
                let p = if core::mem::size_of::<C::Counter>() == 4 { p >> 6 & 0xffff_ffff } else { p };
                let v: Result<C::Counter, _> = p.try_into();
                c.set_block_pos(v.unwrap_or_else(|_| panic!("harness: counter")));
            }
            Op::Pos => {
                black_box(c.remaining_blocks());
                black_box(c.get_block_pos());
            }
            Op::Apply(e, o, l) => {
                let l = l / 64 * 64;
                let (b, _) = Block::<C>::slice_as_chunks_mut(&mut m.data[o..o + l]);
                match e % 4 {
                    0 => c.write_keystream_blocks(b),
                    1 => c.apply_keystream_blocks(b),
                    2 if !b.is_empty() => c.write_keystream_block(&mut b[0]),
                    _ => c.process_with_backend(Gen { out: b }),
                }
            }
            _ => {}
        }
    }
    black_box(&c);
}
fn core_run<C: KeyIvInit + StreamCipherCore + StreamCipherSeekCore>(s: &Script, m: &mut Mat) {
    let c = C::new_from_slices(&m.key[..C::KeySize::USIZE], &m.iv[..C::IvSize::USIZE]).expect("DUT: exact lengths refused");
    core_ops(c, s, m);
}
#[cfg(feature = "others")]
#[inline(never)]
fn raw_run<R: Unsigned>(s: &Script, m: &mut Mat)
where
    salsa20::SalsaCore<R>: StreamCipherCore + StreamCipherSeekCore,
{
    core_ops(salsa20::SalsaCore::<R>::from_raw_state(raw_state(&m.key)), s, m);
}

macro_rules! rng_run {
    ($name:ident, $t:ty) => {
        #[cfg(feature = "rng")]
        #[inline(never)]
        fn $name(s: &Script, m: &mut Mat) {
            use rand_core::{Rng, SeedableRng};
            let mut seed = [0u8; 32];
            seed.copy_from_slice(&m.key[..32]);
            let mut c = if s.how & 1 == 0 {
                <$t>::from_seed(seed)
            } else {
                let mut st = [0u8; 49];
                st[..32].copy_from_slice(&seed);
                st[32] = s.how;
                st[41] = s.how;
                <$t>::deserialize_state(&st)
            };
            for op in &s.ops {
                match *op {
                    Op::Seek(p) if p & 1 == 0 => c.set_word_pos(u128::from(p) << 3),
                    Op::Seek(p) => c.set_block_pos(p),
                    Op::Pos => {
                        black_box(c.get_word_pos());
                        black_box(c.get_block_pos());
                        black_box(c.get_stream());
                    }
                    Op::Apply(_, o, l) => c.fill_bytes(&mut m.data[o..o + l]),
                    Op::Stream(v) => c.set_stream(v),
                    Op::Draw(k) if k & 1 == 0 => {
                        black_box(c.next_u32());
                    }
                    Op::Draw(k) if k & 3 == 3 => {
                        black_box(c.serialize_state());
                    }
                    Op::Draw(_) => {
                        black_box(c.next_u64());
                    }
                }
            }
            black_box(&c);
        }
    };
}
rng_run!(rng8, chacha20::ChaCha8Rng);
rng_run!(rng12, chacha20::ChaCha12Rng);
rng_run!(rng20, chacha20::ChaCha20Rng);

macro_rules! hfun {
    ($name:ident, $f:expr) => {
        #[inline(never)]
        fn $name(s: &Script, m: &mut Mat) {
            for _ in 0..=s.how & 1 {
                let k: &[u8; 32] = m.key[..32].try_into().expect("harness: key");
                let i: &[u8; 16] = m.iv[..16].try_into().expect("harness: iv");
                let o = $f(k.into(), i.into());
                m.key[..32].copy_from_slice(&o);
            }
        }
    };
}
#[cfg(feature = "cc")]
hfun!(hchacha8, chacha20::hchacha::<chacha20::R8>);
#[cfg(feature = "cc")]
hfun!(hchacha12, chacha20::hchacha::<chacha20::R12>);
#[cfg(feature = "cc")]
hfun!(hchacha20, chacha20::hchacha::<chacha20::R20>);
#[cfg(feature = "others")]
hfun!(hsalsa8, salsa20::hsalsa::<cipher::consts::U4>);
#[cfg(feature = "others")]
hfun!(hsalsa12, salsa20::hsalsa::<cipher::consts::U6>);
#[cfg(feature = "others")]
hfun!(hsalsa20, salsa20::hsalsa::<cipher::consts::U10>);

/// (name, function, log2 of the keystream's size in bytes, raw state: part of the key is the public counter)
type Row = (&'static str, fn(&Script, &mut Mat), u32, bool);
fn rows() -> Vec<Row> {
    let mut v: Vec<Row> = Vec::new();
    macro_rules! both {
        ($($name:literal $bits:literal $t:ty;)*) => {$(
            v.push(($name, cipher_run::<$t>, $bits, false));
            v.push((concat!($name, " core"), core_run::<Core<$t>>, $bits, false));
        )*};
    }
    #[cfg(feature = "cc")]
    both! {
        "ChaCha8" 38 chacha20::ChaCha8;
        "ChaCha12" 38 chacha20::ChaCha12;
        "ChaCha20" 38 chacha20::ChaCha20;
        "ChaCha20Legacy" 63 chacha20::ChaCha20Legacy;
        "XChaCha8" 38 chacha20::XChaCha8;
        "XChaCha12" 38 chacha20::XChaCha12;
        "XChaCha20" 38 chacha20::XChaCha20;
    }
    #[cfg(feature = "others")]
    both! {
        "Salsa8" 63 salsa20::Salsa8;
        "Salsa12" 63 salsa20::Salsa12;
        "Salsa20" 63 salsa20::Salsa20;
        "XSalsa8" 63 salsa20::XSalsa8;
        "XSalsa12" 63 salsa20::XSalsa12;
        "XSalsa20" 63 salsa20::XSalsa20;
    }
    #[cfg(feature = "others")]
    {
        v.push(("Salsa raw 8", raw_run::<cipher::consts::U4>, 63, true));
        v.push(("Salsa raw 20", raw_run::<cipher::consts::U10>, 63, true));
        v.push(("hsalsa 8", hsalsa8, 0, false));
        v.push(("hsalsa 12", hsalsa12, 0, false));
        v.push(("hsalsa 20", hsalsa20, 0, false));
    }
    #[cfg(feature = "cc")]
    {
        v.push(("hchacha 8", hchacha8, 0, false));
        v.push(("hchacha 12", hchacha12, 0, false));
        v.push(("hchacha 20", hchacha20, 0, false));
    }
    #[cfg(feature = "rng")]
    {
        v.push(("ChaCha8Rng", rng8, 63, false));
        v.push(("ChaCha12Rng", rng12, 63, false));
        v.push(("ChaCha20Rng", rng20, 63, false));
        v.push(("ChaCha20Rng", rng20, 63, false));
    }
    v
}

#[derive(Clone, Copy)]
struct R2;
#[cfg(any(feature = "cc", feature = "rng"))]
impl chacha20::Rounds for R2 {
    const COUNT: usize = 1;
}
#[cfg(feature = "cc")]
hfun!(hchacha2, chacha20::hchacha::<R2>);

#[cfg(all(feature = "cc", feature = "rng"))]
#[inline(never)]
fn mini_legacy(s: &Script, m: &mut Mat) {
    use chacha20::{ChaChaCore, variants::Legacy};
    let seed: [u8; 32] = m.key[..32].try_into().expect("harness: key");
    let c: ChaChaCore<R2, Legacy> = rand_core::SeedableRng::from_seed(seed);
    core_ops(c, s, m);
}

/// For slow interpreters: the code is the same for every round count.
fn few_rows() -> Vec<Row> {
    let mut v: Vec<Row> = Vec::new();
    #[cfg(feature = "cc")]
    {
        type Mini = chacha20::ChaChaCore<R2, chacha20::variants::Ietf>;
        v.push(("ChaCha with 2 rounds", cipher_run::<cipher::StreamCipherCoreWrapper<Mini>>, 38, false));
        v.push(("ChaCha with 2 rounds core", core_run::<Mini>, 38, false));
        #[cfg(feature = "rng")]
        v.push(("ChaCha legacy with 2 rounds core", mini_legacy, 63, false));
        v.push(("XChaCha8", cipher_run::<chacha20::XChaCha8>, 38, false));
        v.push(("hchacha with 2 rounds", hchacha2, 0, false));
    }
    #[cfg(feature = "rng")]
    v.push(("ChaCha8Rng", rng8, 63, false));
    v
}

fn script(p: &mut P, name: &str, bits: u32, big: usize) -> Script {
    let (mini, rng) = (name.contains("2 rounds"), name.contains("Rng"));
    let mut ops = Vec::new();
    for _ in 0..p.us(1, 5) {
        let o = p.us(0, 64);
        let l = match p.below(5) {
            0 => p.us(0, 64),
            1 => 64 * p.us(0, 17),
            2 => p.us(0, 300),
            _ => p.us(0, big),
        };
        let l = l.min(N - 64);
        ops.push(match p.below(8) {
            0 | 1 => {
                let v = if bits == 38 { u64::from(p.edge32()) * 64 } else { p.edge64() };
                Op::Seek(v.wrapping_add(p.below(64)).min(u64::MAX - 65536))
            }
            2 => Op::Pos,
            3 => Op::Stream(p.edge64()),
            4 => Op::Draw(p.below(8) as u8),
            _ => Op::Apply(p.below(28) as u8, o, l),
        });
    }
    if cfg!(miri) {
        // one request that takes every path, and little else
        ops.truncate(1);
        if let Some(Op::Apply(_, _, l)) = ops.first_mut() {
            *l = (*l).min(70);
        }
        // (sizes of the RNG's buffer, of a parallel batch and of one block)
        let n = if mini { 513 + p.us(0, 127) } else if rng { p.us(257, 270) } else { p.us(1, 70) };
        ops.push(Op::Apply(p.below(28) as u8, p.us(0, 3), n.min(N - 64)));
    } else {
        ops.push(Op::Apply(p.below(28) as u8, p.us(0, 3), p.us(1, 130)));
    }
    // stay inside the keystream
    if bits == 38 {
        for o in &mut ops {
            if let Op::Seek(v) = o {
                *v = (*v).min((1 << 38) - 65536);
            }
        }
    }
    Script { how: p.below(256) as u8, ops }
}

pub struct Ct {
    rows: Vec<Row>,
    m: Box<Mat>,
    taint: bool,
    big: usize,
    warm: Vec<bool>,
    from: usize,
    turn: bool,
}
impl Ct {
    pub fn new(taint: bool, big: usize, from: usize) -> Self {
        #[cfg(not(miri))]
        if taint {
            assert!(on_valgrind(), "harness: the taint monitor needs valgrind");
        } else {
            prepare_trace();
        }
        let rows = if cfg!(miri) { few_rows() } else { rows() };
        let warm = vec![false; rows.len()];
        Ct { rows, m: Box::new(Mat { key: [0; 64], iv: [0; 32], data: [0; N], inp: [0; N] }), taint, big, warm, from, turn: false }
    }

    fn secrets(&mut self, p: &mut P, raw: bool, public: &[u8; 8]) {
        let m = &mut *self.m;
        if cfg!(miri) {
            // (cheap to interpret; every field is all zeros in one execution and random in another)
            let v = p.next();
            let zero = p.below(4);
            self.turn = !self.turn;
            let t = self.turn;
            let of = |z: bool, i: usize| if z { 0 } else { (v >> (i % 57)) as u8 };
            for (i, b) in m.key.iter_mut().enumerate() {
                *b = of(t, i);
            }
            for (i, b) in m.iv.iter_mut().enumerate() {
                *b = of(t == (zero & 1 == 0), i);
            }
            m.data.fill(of(t == (zero & 2 == 0), 3));
            m.inp.fill(of(!t, 11));
            return;
        }
        match p.below(4) {
            0 => {
                let v = *p.pick(&[0u8, 0xff, 0x80, 1]);
                m.key.fill(v);
                m.iv.fill(v);
                m.data.fill(v);
                m.inp.fill(v);
            }
            1 => {
                p.material(&mut m.key);
                p.material(&mut m.iv);
                m.data.fill(0);
                p.fill(&mut m.inp);
            }
            _ => {
                p.fill(&mut m.key);
                p.fill(&mut m.iv);
                p.fill(&mut m.data);
                p.fill(&mut m.inp);
            }
        }
        if raw {
            m.key[32..40].copy_from_slice(public);
        }
    }

    pub fn case(&mut self, case: u64, rep: &mut Rep) -> Result<(), Bad> {
        let mut p = P::new(case);
        let which = if cfg!(miri) { ((case & 0xffff) as usize + self.from) % self.rows.len() } else { p.us(0, self.rows.len() - 1) };
        let (name, f, bits, raw) = self.rows[which];
        let s = script(&mut p, name, bits.max(8), self.big);
        let mut public = [0u8; 8];
        public[0] = p.below(256) as u8;
        if p.one_in(3) {
            public[..4].fill(0xff);
        }
        rep.evaluations += 1;
        rep.hit(&format!("scripts {name}"));
        let mut d = Fnv::default();
        d.bytes(format!("{name}{s:?}").as_bytes());
        rep.distinct.insert(d.0);
        rep.sample(|| format!("{name}: {s:?}"));
        #[cfg(miri)]
        let f: fn(&Script, &mut Mat) = black_box(f);
        #[cfg(miri)]
        {
            // the statements between the marks are compared by the caller
            // (the first execution evaluates constants)
            ct_mark(0);
            for run in 0..3 {
                self.secrets(&mut p, raw, &public);
                if run == 0 {
                    f(&s, &mut self.m);
                } else {
                    ct_mark(1);
                    f(&s, &mut self.m);
                    ct_mark(2);
                    rep.hit("traced executions");
                }
            }
            return Ok(());
        }
        #[cfg(not(miri))]
        self.native(&mut p, which, &s, &public, rep)
    }

    #[cfg(not(miri))]
    fn native(&mut self, p: &mut P, which: usize, s: &Script, public: &[u8; 8], rep: &mut Rep) -> Result<(), Bad> {
        let (name, f, _, raw) = self.rows[which];
        let f: fn(&Script, &mut Mat) = black_box(f);
        if self.taint {
            self.secrets(p, raw, public);
            let before = errors();
            let m = &mut *self.m;
            undefined(&mut m.key);
            if raw {
                defined(&mut m.key[32..40]);
            }
            undefined(&mut m.iv);
            undefined(&mut m.data);
            undefined(&mut m.inp);
            f(s, m);
            defined(&mut m.key);
            defined(&mut m.iv);
            defined(&mut m.data);
            defined(&mut m.inp);
            let n = errors() - before;
            rep.hit("tainted executions");
            if n > 0 {
                return viol(format!("{name}: {n} branches or addresses depend on secret data (memcheck) [how={} {:?}]", s.how, s.ops));
            }
            return Ok(());
        }
        // the first execution resolves symbols and detects CPU features
        self.secrets(p, raw, public);
        f(s, &mut self.m);
        if !self.warm[which] {
            self.warm[which] = true;
            f(s, &mut self.m);
        }
        let mut first = Vec::new();
        for run in 0..3 {
            self.secrets(p, raw, public);
            let m = &mut *self.m;
            RECORD.store(run == 0, Relaxed);
            POS.store(0, Relaxed);
            DIFF.store(0, Relaxed);
            let key = m.key;
            traced(f, s, m);
            let n = POS.load(Relaxed);
            rep.hit("traced executions");
            if run == 0 {
                LEN.store(n.min(CAP), Relaxed);
                first = key.to_vec();
                if n > CAP {
                    return Err(Bad::Harness(format!("{name}: trace of {n} steps does not fit")));
                }
                rep.add("steps in reference traces", n as u64);
                continue;
            }
            let d = DIFF.load(Relaxed);
            let len = LEN.load(Relaxed);
            if d != 0 || n != len {
                // SAFETY: no trap is pending
                let (rips, eas) = unsafe { ((&raw const RIPS).as_ref().expect("harness"), (&raw const EAS).as_ref().expect("harness")) };
                let i = if d != 0 { d - 1 } else { n.min(len) };
                let j = i.min(len.saturating_sub(1));
                let base = f as usize;
                let what = if d != 0 && i < len && rips[i] == DIFF_RIP.load(Relaxed) as u64 {
                    format!("memory address ({:#x} instead of {:#x}) of the instruction", DIFF_EA.load(Relaxed), eas[i])
                } else {
                    "sequence of instructions".into()
                };
                return viol(format!(
                    "{name}: the {what} at step {i} of {len} depends on the secrets (at function offset {:#x}, before it {:#x}) \
                     [keys {} and {}; how={} {:?}]",
                    (DIFF_RIP.load(Relaxed)).wrapping_sub(base),
                    (rips[j.saturating_sub(1)] as usize).wrapping_sub(base),
                    hexs(&first[..32]),
                    hexs(&key[..32]),
                    s.how,
                    s.ops
                ));
            }
        }
        Ok(())
    }

    pub fn report(&self, rep: &mut Rep) {
        #[cfg(not(miri))]
        if !self.taint {
            rep.counts.insert("instructions stepped".into(), STEPS.load(Relaxed) as u64);
            rep.counts.insert("memory operands traced".into(), MEMS.load(Relaxed) as u64);
        }
    }
}


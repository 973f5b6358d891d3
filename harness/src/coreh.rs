//! Monitor for the block-level interface: one core instance driven through
//! every block entry point and through custom backend sessions that interleave
//! single, parallel and tail generation, compared with the model block by block.

use cipher::inout::{InOut, InOutBuf};
use cipher::typenum::Unsigned;
use cipher::{
    Block, BlockSizeUser, ParBlocks, StreamCipherBackend, StreamCipherClosure, StreamCipherCore, StreamCipherSeekCore,
    array::Array,
};

use crate::dut::Kind;
use crate::hist::material;
use crate::model::Ks;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub ops: usize,
    pub model: bool,
    /// let the counter run through its maximum (block-level calls do not check)
    pub wrap: bool,
    /// largest number of blocks per call (0: no limit)
    pub small: usize,
    /// the sequence of bytes must not depend on the backend's parallelism
    pub portable: bool,
}

#[derive(Clone, Debug)]
enum Step {
    One,
    Par,
    Tail(usize),
    /// exactly this many blocks, by whatever calls the backend's width allows
    Spread(usize),
}
/// A backend session; output blocks are appended to `out`.
struct Session<'a, BS: cipher::array::ArraySize> {
    steps: &'a [Step],
    out: &'a mut Vec<u8>,
    par: &'a mut usize,
    _p: core::marker::PhantomData<BS>,
}
impl<BS: cipher::array::ArraySize> BlockSizeUser for Session<'_, BS> {
    type BlockSize = BS;
}
impl<BS: cipher::array::ArraySize> StreamCipherClosure for Session<'_, BS> {
    fn call<B: StreamCipherBackend<BlockSize = BS>>(self, backend: &mut B) {
        let par = B::ParBlocksSize::USIZE;
        *self.par = par;
        let mut plan = Vec::new();
        for s in self.steps {
            if let Step::Spread(n) = s {
                let mut left = *n;
                while left > 0 {
                    let h = crate::prng::mix((left * 64 + n) as u64) % 4;
                    let (st, k) = if left >= par && h != 0 {
                        (Step::Par, par)
                    } else if left < par && par > 1 && h == 1 {
                        (Step::Tail(left), left)
                    } else {
                        (Step::One, 1)
                    };
                    plan.push(st);
                    left -= k;
                }
            } else {
                plan.push(s.clone());
            }
        }
        for s in &plan {
            match s {
                Step::Spread(_) => unreachable!("harness: spread"),
                Step::One => {
                    let mut b: Block<B> = Array::default();
                    b.fill(0xA5);
                    backend.gen_ks_block(&mut b);
                    self.out.extend_from_slice(&b);
                }
                Step::Par => {
                    let mut b: ParBlocks<B> = Array::default();
                    backend.gen_par_ks_blocks(&mut b);
                    for x in &b {
                        self.out.extend_from_slice(x);
                    }
                }
                Step::Tail(n) => {
                    let n = n % par;
                    let mut v: ParBlocks<B> = Array::default();
                    for x in v.iter_mut() {
                        x.fill(0xA5);
                    }
                    backend.gen_tail_blocks(&mut v[..n]);
                    for x in &v[..n] {
                        self.out.extend_from_slice(x);
                    }
                    for x in &v[n..] {
                        assert!(x.iter().all(|b| *b == 0xA5), "DUT: gen_tail_blocks wrote past its slice");
                    }
                }
            }
        }
    }
}

pub trait CoreDut {
    fn block(&mut self, out: &mut [u8]);
    fn blocks(&mut self, out: &mut [u8]);
    fn apply_block(&mut self, inp: Option<&[u8]>, out: &mut [u8]);
    fn apply_blocks(&mut self, inp: Option<&[u8]>, out: &mut [u8], plain: bool);
    fn session(&mut self, steps: &[Steps], out: &mut Vec<u8>) -> usize;
    fn partial(self: Box<Self>, inp: Option<&[u8]>, out: &mut [u8], tr: bool) -> bool;
    fn get(&self) -> Option<u64>;
    fn set(&mut self, b: u64);
    fn remaining(&self) -> Option<usize>;
}
pub type Steps = (u8, usize);
fn steps(s: &[Steps]) -> Vec<Step> {
    s.iter()
        .map(|(k, n)| match k {
            0 => Step::One,
            1 => Step::Par,
            2 => Step::Tail(*n),
            _ => Step::Spread(*n),
        })
        .collect()
}

struct C<T>(T);
struct S<T>(T);

fn as_blocks<T: BlockSizeUser>(b: &mut [u8]) -> &mut [Block<T>] {
    let (c, t) = Array::slice_as_chunks_mut(b);
    assert!(t.is_empty(), "harness: whole blocks");
    c
}

macro_rules! core_common {
    () => {
        fn block(&mut self, out: &mut [u8]) {
            self.0.write_keystream_block(&mut as_blocks::<T>(out)[0]);
        }
        fn blocks(&mut self, out: &mut [u8]) {
            self.0.write_keystream_blocks(as_blocks::<T>(out));
        }
        fn apply_block(&mut self, inp: Option<&[u8]>, out: &mut [u8]) {
            let o = &mut as_blocks::<T>(out)[0];
            match inp {
                None => self.0.apply_keystream_block_inout(o.into()),
                Some(i) => {
                    let i: &Block<T> = i.try_into().expect("harness: block size");
                    self.0.apply_keystream_block_inout(InOut::from((i, o)));
                }
            }
        }
        fn apply_blocks(&mut self, inp: Option<&[u8]>, out: &mut [u8], plain: bool) {
            let o = as_blocks::<T>(out);
            match inp {
                None if plain => self.0.apply_keystream_blocks(o),
                None => self.0.apply_keystream_blocks_inout(o.into()),
                Some(i) => {
                    let (c, _) = Array::slice_as_chunks(i);
                    self.0.apply_keystream_blocks_inout(InOutBuf::new(c, o).expect("harness: equal lengths"));
                }
            }
        }
        fn session(&mut self, st: &[Steps], out: &mut Vec<u8>) -> usize {
            let mut par = 0;
            let st = steps(st);
            self.0.process_with_backend(Session { steps: &st, out, par: &mut par, _p: core::marker::PhantomData });
            par
        }
        fn partial(self: Box<Self>, inp: Option<&[u8]>, out: &mut [u8], tr: bool) -> bool {
            let b = match inp {
                None => InOutBuf::from(out),
                Some(i) => InOutBuf::new(i, out).expect("harness: equal lengths"),
            };
            if tr {
                self.0.try_apply_keystream_partial(b).is_ok()
            } else {
                self.0.apply_keystream_partial(b);
                true
            }
        }
        fn remaining(&self) -> Option<usize> {
            self.0.remaining_blocks()
        }
    };
}
impl<T: StreamCipherCore> CoreDut for S<T> {
    core_common!();
    fn get(&self) -> Option<u64> {
        None
    }
    fn set(&mut self, _: u64) {
        panic!("harness: not seekable")
    }
}
impl<T: StreamCipherSeekCore> CoreDut for C<T> {
    core_common!();
    fn get(&self) -> Option<u64> {
        let c: Result<u64, _> = self.0.get_block_pos().try_into();
        Some(c.unwrap_or_else(|_| panic!("harness: counter wider than 64 bits")))
    }
    fn set(&mut self, b: u64) {
        let c: Result<T::Counter, _> = b.try_into();
        self.0.set_block_pos(c.unwrap_or_else(|_| panic!("harness: counter value too wide")));
    }
}

pub fn build(kind: Kind, key: &[u8], iv: &[u8]) -> Option<Box<dyn CoreDut>> {
    crate::corety::build(kind, key, iv)
}
pub fn boxed_seek<T: StreamCipherSeekCore + 'static>(c: T) -> Box<dyn CoreDut> {
    Box::new(C(c))
}
pub fn boxed_seq<T: StreamCipherCore + 'static>(c: T) -> Box<dyn CoreDut> {
    Box::new(S(c))
}

struct Model {
    ks: Option<Ks>,
    blk: u64,
    max: Option<u64>,
    bs: usize,
}
impl Model {
    fn take(&mut self, out: &mut [u8]) {
        let bs = self.bs;
        for c in out.chunks_mut(bs) {
            if let Some(ks) = &mut self.ks {
                if ks.seq() {
                    ks.next(c);
                } else {
                    ks.at(u128::from(self.blk) * 64, c);
                }
            }
            self.blk = self.blk.wrapping_add(1);
            if let Some(m) = self.max {
                self.blk &= m;
            }
        }
    }
}

pub fn run_case(case: u64, cfg: &Cfg, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(&cfg.kinds);
    let end = cfg.wrap && p.one_in(4);
    let (key, iv) = material(&mut p, kind, end);
    let mut d = match guarded(|| build(kind, &key, &iv)) {
        Ok(Some(d)) => d,
        Ok(None) => return Err(Bad::Harness(format!("{kind:?} has no core here"))),
        Err(e) => return Err(e.into()),
    };
    let (ks, pos) = kind.model(&key, &iv);
    let bs = kind.block();
    let seekable = kind.seekable();
    let mut m = Model {
        ks: cfg.model.then_some(ks),
        blk: (pos / 64) as u64,
        max: seekable.then(|| kind.ctr_max()),
        bs,
    };
    let mut log = vec![format!("key={} iv={}", hexs(&key), hexs(&iv))];
    let mut dig = Fnv::default();
    let (mut got, mut want, mut data) = (Vec::new(), Vec::new(), Vec::new());
    macro_rules! fail {
        ($($a:tt)*) => {{
            let n = log.len();
            return viol(format!("{kind:?} core: {} [history ({n} ops): {}]", format!($($a)*), log[n.saturating_sub(12)..].join("; ")));
        }};
    }
    macro_rules! g {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => fail!("panic at {}:{}: {}", pn.file, pn.line, pn.msg),
            }
        };
    }
    macro_rules! state {
        () => {
            if let Some(b) = g!(d.get()) {
                dig.u(b);
                if b != m.blk {
                    fail!("block position is {b}, it should be {}", m.blk);
                }
                let left = kind.ctr_max() - m.blk;
                let want = usize::try_from(left).ok();
                let r = g!(d.remaining());
                if r != want {
                    fail!("remaining_blocks is {r:?} at block {}, {want:?} expected", m.blk);
                }
            } else if let Some(r) = g!(d.remaining()) {
                fail!("remaining_blocks is {r}, this cipher has no limit");
            }
        };
    }
    let n = p.us(1, cfg.ops);
    for _ in 0..n {
        let room = |m: &Model| -> usize {
            match m.max {
                Some(mx) if !cfg.wrap => usize::try_from(mx - m.blk).unwrap_or(usize::MAX),
                _ => usize::MAX,
            }
        };
        let lim = if cfg.small == 0 { usize::MAX } else { cfg.small };
        let cnt = |p: &mut P| lim.min(match p.below(6) {
            0 => p.us(0, 2),
            1 => *p.pick(&[3usize, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33]),
            _ => p.us(0, 40),
        });
        let roll = p.below(100);
        let before = m.blk;
        if seekable && roll < 18 {
            let b = match p.below(4) {
                0 if end => kind.ctr_max() - p.below(40),
                1 => m.blk.wrapping_sub(p.below(20)) & kind.ctr_max(),
                _ if kind.width() == 32 => u64::from(p.edge32()),
                _ => p.edge64(),
            };
            log.push(format!("set_block_pos {b}"));
            g!(d.set(b));
            m.blk = b;
            rep.hit("block positions set");
        } else if roll < 48 {
            // a custom session
            let k = p.us(0, 7);
            let mut st: Vec<Steps> = Vec::new();
            for _ in 0..k {
                let kind = p.below(7);
                let kind = if cfg.portable { 3 } else if kind == 6 { 3 } else { kind % 3 };
                st.push((kind as u8, p.us(0, 64).min(lim)));
            }
            if room(&m) < 64 * k {
                st.clear();
            }
            got.clear();
            log.push(format!("session {st:?} at block {before}"));
            let par = g!(d.session(&st, &mut got));
            want.clear();
            want.resize(got.len(), 0);
            let expect: usize = st
                .iter()
                .map(|(k, n)| match k {
                    0 => 1,
                    1 => par,
                    2 => n % par,
                    _ => *n,
                })
                .sum();
            if got.len() != expect * bs {
                return Err(Bad::Harness("session length".into()));
            }
            m.take(&mut want);
            rep.hit(&format!("sessions with {par} parallel blocks"));
        } else {
            let mut c = if bs == 1 { cnt(&mut p) * 8 } else { cnt(&mut p) };
            let which = p.below(5);
            if which == 0 || which == 2 {
                c = 1;
            }
            if c > room(&m) {
                continue;
            }
            let two = p.one_in(2);
            data.resize(c * bs, 0);
            p.fill(&mut data);
            got.clear();
            got.resize(c * bs, 0x3c);
            if !two {
                got.copy_from_slice(&data);
            }
            let inp = two.then_some(&data[..]);
            want.clear();
            want.resize(c * bs, 0);
            m.take(&mut want);
            log.push(format!("entry {which} blocks={c} two={two} at block {before}"));
            match which {
                0 => g!(d.block(&mut got)),
                1 => g!(d.blocks(&mut got)),
                2 => g!(d.apply_block(inp, &mut got)),
                _ => g!(d.apply_blocks(inp, &mut got, which == 3)),
            }
            if which >= 2 {
                for (w, x) in want.iter_mut().zip(&data) {
                    *w ^= *x;
                }
            }
            rep.hit("block-level calls");
        }
        if roll >= 18 || !seekable {
            dig.bytes(&got);
            if cfg.model && got != want {
                fail!("blocks from {before} are not the specified keystream: {}", diff(&got, &want));
            }
            rep.add("blocks compared", (want.len() / bs) as u64);
            if seekable && m.blk < before && !got.is_empty() {
                rep.hit("calls running through the counter maximum");
            }
            if kind.width() == 64 && before >> 32 != m.blk >> 32 {
                rep.hit("calls crossing a 2^32-block boundary");
            }
        }
        state!();
    }
    // the consuming partial entry
    let len = match p.below(3) {
        0 => p.us(0, bs),
        _ => p.length(bs, 4096),
    };
    let mut len = if cfg.small == 0 { len } else { len.min(cfg.small * bs + 3) };
    if seekable {
        let rem = kind.ctr_max() - m.blk;
        if rem < 64 && p.one_in(2) {
            len = (rem as usize * bs + p.us(0, 130)).saturating_sub(p.us(0, 70));
        }
    }
    let fits = !seekable || (len / bs) as u64 <= kind.ctr_max() - m.blk;
    let tr = p.one_in(2);
    let two = p.one_in(2);
    data.resize(len, 0);
    p.fill(&mut data);
    got.clear();
    got.resize(len, 0x3c);
    if !two {
        got.copy_from_slice(&data);
    }
    let keep = got.clone();
    log.push(format!("partial len={len} try={tr} at block {}", m.blk));
    let inp = two.then_some(&data[..]);
    let ok = match guarded(|| d.partial(inp, &mut got, tr)) {
        Ok(v) => v,
        Err(pn) if !fits && !tr && !pn.is_harness() => false,
        Err(pn) if pn.is_harness() => return Err(pn.into()),
        Err(pn) => fail!("panic at {}:{}: {}", pn.file, pn.line, pn.msg),
    };
    if ok != fits {
        fail!("apply_keystream_partial of {len} bytes {}", if ok { "succeeded" } else { "was refused" });
    }
    want.clear();
    want.resize(len, 0);
    if fits {
        m.take(&mut want);
        for (w, x) in want.iter_mut().zip(&data) {
            *w ^= *x;
        }
        dig.bytes(&got);
        if cfg.model && got != want {
            fail!("apply_keystream_partial of {len} bytes: not the specified keystream: {}", diff(&got, &want));
        }
    } else {
        rep.hit("partial requests refused");
        if got != keep {
            fail!("a refused apply_keystream_partial changed its output");
        }
    }
    rep.evaluations += 1;
    rep.hit(&format!("cases {kind:?}"));
    let mut f = Fnv::default();
    for l in &log {
        f.bytes(l.as_bytes());
    }
    if log.len() >= 3 {
        rep.distinct.insert(f.0);
    }
    rep.sample(|| format!("{kind:?} core: {}", log.join("; ")));
    if !cfg.model {
        rep.transcript.push((case, dig.0));
    }
    Ok(())
}

//! Stratified tour of the generation paths: every entry point with every small
//! number of blocks, with the counter placed so that a carry (or the end of
//! the counter) falls on each lane of a parallel batch. Cases are numbered
//! consecutively; cheap enough for an interpreter.

use crate::coreh::{CoreDut, Steps};
use crate::dut::{self, Ctor, ENTRIES, Kind, Ty};
use crate::mem::{Mode, Region};
use crate::model::Ks;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kinds: Vec<Kind>,
    /// reduced-round subjects only
    pub fast: bool,
    pub rng: bool,
    pub model: bool,
    pub mode: Mode,
    /// largest number of blocks
    pub most: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Subject {
    Core(Kind),
    Wrap(Kind),
    /// two-round variants: the same code with a quarter of the work
    #[cfg(feature = "cc")]
    MiniCore(Kind),
    #[cfg(feature = "cc")]
    MiniWrap(Kind),
    #[cfg(feature = "rng")]
    MiniGen(bool),
    #[cfg(feature = "rng")]
    Rng(u32),
}

fn subjects(c: &Cfg) -> Vec<Subject> {
    let mut v = Vec::new();
    for k in &c.kinds {
        #[cfg(feature = "cc")]
        match k {
            Kind::ChaCha8 => v.extend([Subject::MiniCore(*k), Subject::MiniWrap(*k)]),
            #[cfg(feature = "rng")]
            Kind::Legacy => v.extend([Subject::MiniCore(*k), Subject::MiniWrap(*k)]),
            _ => {}
        }
        if c.fast && crate::dut::CHACHA.contains(k) {
            continue;
        }
        if c.fast && k.rounds() != 8 && k.seekable() {
            continue;
        }
        if *k != Kind::Rc4 {
            v.push(Subject::Core(*k));
        }
        v.push(Subject::Wrap(*k));
    }
    #[cfg(feature = "rng")]
    if c.rng {
        v.extend([Subject::Rng(8), Subject::MiniGen(true)]);
        if !c.fast {
            v.extend([Subject::Rng(12), Subject::Rng(20), Subject::MiniGen(false)]);
        }
    }
    v
}

#[cfg(any(feature = "cc", feature = "rng"))]
mod mini {
    #[derive(Clone, Copy)]
    pub struct R2;
    impl chacha20::Rounds for R2 {
        const COUNT: usize = 1;
    }
}

/// (`$b` boxes a core)
#[cfg(feature = "cc")]
macro_rules! mini {
    ($k:expr, $key:expr, $iv:expr, $b:path, $w:expr) => {{
        use chacha20::variants::Ietf;
        use chacha20::ChaChaCore;
        use cipher::KeyIvInit;
        match $k {
            Kind::ChaCha8 => Some($b($w(
                ChaChaCore::<mini::R2, Ietf>::new_from_slices($key, $iv).expect("DUT: exact lengths were refused"),
            ))),
            #[cfg(feature = "rng")]
            _ => {
                // only reachable with a zero nonce
                let seed: [u8; 32] = $key[..].try_into().expect("harness: key length");
                Some($b($w(<ChaChaCore<mini::R2, chacha20::variants::Legacy> as rand_core::SeedableRng>::from_seed(seed))))
            }
            #[cfg(not(feature = "rng"))]
            _ => None,
        }
    }};
}

/// Number of blocks, small ones most of the time, and where the boundary lies.
fn size(p: &mut P, most: usize) -> usize {
    match p.below(8) {
        0 => p.us(0, 2),
        1 | 2 => p.us(1, 5),
        3 => p.us(3, 9),
        4 => *p.pick(&[7, 8, 9, 12, 15, 16, 17]),
        5 => p.us(1, 18),
        6 => *p.pick(&[4, 8, 16, 31, 32, 33]),
        _ => p.us(1, 40),
    }
    .min(most)
}
fn start(p: &mut P, n: usize, width: u32) -> u64 {
    let lane = p.below(n as u64 + 2);
    let mask = if width == 64 { u64::MAX } else { u64::from(u32::MAX) };
    let at = match p.below(8) {
        0 => p.below(3),
        1 | 2 => (1u64 << 32).wrapping_sub(lane),
        3 => 0u64.wrapping_sub(lane),
        4 => (p.below(1 << 32) << 32).wrapping_sub(lane),
        5 => (1u64 << p.below(64)).wrapping_sub(lane),
        6 => p.edge64(),
        _ => p.next(),
    };
    at & mask
}

pub struct Bufs {
    out: Region,
    inp: Region,
}
impl Bufs {
    pub fn new(m: Mode) -> Self {
        Bufs { out: Region::new(m), inp: Region::new(m) }
    }
}

fn at_blocks(ks: &mut Ks, blk: u64, mask: u64, out: &mut [u8], bs: usize) {
    if ks.seq() {
        ks.next(out);
        return;
    }
    for (i, c) in out.chunks_mut(bs).enumerate() {
        ks.at(u128::from(blk.wrapping_add(i as u64) & mask) * 64, c);
    }
}

pub fn run_case(case: u64, cfg: &Cfg, b: &mut Bufs, rep: &mut Rep) -> Result<(), Bad> {
    let subs = subjects(cfg);
    if subs.is_empty() {
        return Err(Bad::Harness("no subjects".into()));
    }
    let s = subs[(case % subs.len() as u64) as usize];
    let round = case / subs.len() as u64;
    let mut p = P::new(case);
    let r = match s {
        Subject::Core(k) => {
            let (key, iv) = material(&mut p, k);
            core_case(round, cfg, b, rep, &mut p, &format!("{k:?} core"), k, &key, &iv, || crate::coreh::build(k, &key, &iv), None)
        }
        #[cfg(feature = "cc")]
        Subject::MiniCore(k) => {
            let (key, iv) = mini_material(&mut p, k);
            let ks = mini_model(k, &key, &iv);
            let make = || mini!(k, &key, &iv, crate::coreh::boxed_seek, |c| c);
            core_case(round, cfg, b, rep, &mut p, &format!("{k:?} core with 2 rounds"), k, &key, &iv, make, Some(ks))
        }
        #[cfg(feature = "cc")]
        Subject::MiniWrap(k) => {
            let (key, iv) = mini_material(&mut p, k);
            let ks = mini_model(k, &key, &iv);
            let make = || mini!(k, &key, &iv, dut::boxed_seek, cipher::StreamCipherCoreWrapper::from_core);
            wrap_case(round, cfg, b, rep, &mut p, &format!("{k:?} with 2 rounds"), k, &key, &iv, make, (ks, 0))
        }
        Subject::Wrap(k) => {
            let (key, iv) = material(&mut p, k);
            let ctor = if k == Kind::Rc4 { Ctor::New } else { *p.pick(&[Ctor::New, Ctor::Slices, Ctor::FromCore]) };
            let ks = k.model(&key, &iv);
            wrap_case(round, cfg, b, rep, &mut p, &format!("{k:?}"), k, &key, &iv, || dut::build(k, ctor, &key, &iv), ks)
        }
        #[cfg(feature = "rng")]
        Subject::MiniGen(wide) => gen_case(cfg, rep, &mut p, wide),
        #[cfg(feature = "rng")]
        Subject::Rng(r) => rng_case(round, cfg, b, rep, &mut p, r),
    };
    if r.is_ok() {
        rep.evaluations += 1;
        let mut f = Fnv::default();
        f.u(case);
        rep.distinct.insert(f.0);
        rep.sample(|| format!("paths case {case}: {s:?}, tour round {round}"));
    }
    r
}

fn material(p: &mut P, k: Kind) -> (Vec<u8>, Vec<u8>) {
    let (a, b) = k.sizes();
    let (mut key, mut iv) = (vec![0; a], vec![0; b]);
    p.material(&mut key);
    p.material(&mut iv);
    (key, iv)
}

#[cfg(feature = "cc")]
fn mini_material(p: &mut P, k: Kind) -> (Vec<u8>, Vec<u8>) {
    let (key, mut iv) = material(p, k);
    if k == Kind::Legacy {
        iv.fill(0);
    }
    (key, iv)
}
#[cfg(feature = "cc")]
fn mini_model(k: Kind, key: &[u8], iv: &[u8]) -> Ks {
    match k {
        Kind::ChaCha8 => Ks::chacha_ietf(key, iv, 2),
        _ => Ks::chacha_djb(key, iv, 2),
    }
}

#[cfg(feature = "rng")]
fn gen_case(cfg: &Cfg, rep: &mut Rep, p: &mut P, wide: bool) -> Result<(), Bad> {
    use chacha20::ChaChaCore;
    use chacha20::variants::{Ietf, Legacy, Variant};
    use rand_core::{SeedableRng, block::Generator};
    fn go<V: Variant>(cfg: &Cfg, p: &mut P, wide: bool) -> Result<(), Bad>
    where
        V::Counter: TryFrom<u64> + TryInto<u64>,
    {
        let mut seed = [0u8; 32];
        p.material(&mut seed);
        let mask = if wide { u64::MAX } else { u32::MAX.into() };
        let lane = p.us(0, 8);
        let mut blk = start(p, lane, if wide { 64 } else { 32 });
        let mut buf = [0x5a5a_5a5au32; 64];
        let mut c = guarded(|| ChaChaCore::<mini::R2, V>::from_seed(seed)).map_err(Bad::from)?;
        let v = V::Counter::try_from(blk).unwrap_or_else(|_| panic!("harness: counter"));
        guarded(|| c.set_block_pos(v)).map_err(Bad::from)?;
        for call in 0..2 {
            guarded(|| c.generate(&mut buf)).map_err(Bad::from)?;
            for i in 0..4u64 {
                let at = blk.wrapping_add(i) & mask;
                let want = match (cfg.model, wide) {
                    (false, _) => continue,
                    (_, true) => crate::model::chacha_djb_block(&seed, &[0; 8], at, 2),
                    _ => crate::model::chacha_ietf_block(&seed, &[0; 12], at as u32, 2),
                };
                if buf[16 * i as usize..16 * i as usize + 16] != want {
                    return viol(format!(
                        "2-round generator (64-bit counter: {wide}) seed={}: call {call}: block {i} from {blk} is not keystream block {at}",
                        hexs(&seed)
                    ));
                }
            }
            blk = blk.wrapping_add(4) & mask;
            let got: u64 = c.get_block_pos().try_into().unwrap_or_else(|_| panic!("harness: counter"));
            if got != blk {
                return viol(format!("2-round generator (64-bit counter: {wide}): block position is {got} after generating, {blk} expected"));
            }
        }
        Ok(())
    }
    if wide { go::<Legacy>(cfg, p, true)? } else { go::<Ietf>(cfg, p, false)? }
    rep.hit("paths generator with 2 rounds");
    Ok(())
}

const NPATH: u64 = 13;

#[allow(clippy::too_many_arguments)]
fn core_case(
    round: u64,
    cfg: &Cfg,
    b: &mut Bufs,
    rep: &mut Rep,
    p: &mut P,
    name: &str,
    k: Kind,
    key: &[u8],
    iv: &[u8],
    make: impl FnOnce() -> Option<Box<dyn CoreDut>>,
    ks: Option<Ks>,
) -> Result<(), Bad> {
    let path = round % NPATH;
    let bs = k.block();
    let seekable = k.seekable();
    let mask = if k.width() == 32 { u64::from(u32::MAX) } else { u64::MAX };
    let n = size(p, cfg.most);
    let (mut ks, pos0) = match ks {
        Some(ks) => (ks, 0),
        None => k.model(key, iv),
    };
    let mut blk = (pos0 / 64) as u64;
    macro_rules! g {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => {
                    return viol(format!(
                        "{name} key={} iv={}: path {path} with {n} blocks at block {blk}: panic at {}:{}: {}",
                        hexs(key), hexs(iv), pn.file, pn.line, pn.msg
                    ))
                }
            }
        };
    }
    let Some(mut d) = g!(make()) else { return Err(Bad::Harness(format!("{name} has no core here"))) };
    if seekable {
        blk = start(p, n, k.width());
        g!(d.set(blk));
    }
    let from = blk;
    let align = p.us(0, 1);
    let mut two = false;
    let mut xor = true;
    let mut len = n * bs;
    let mut steps: Vec<Steps> = Vec::new();
    match path {
        0 => xor = false,
        1 | 3 => {}
        2 => two = true,
        4 => {
            xor = false;
            len = bs;
        }
        5 | 6 => {
            two = path == 6;
            len = bs;
        }
        7 => steps = vec![(2, n)],
        8 => steps = vec![(1, 0), (0, 0)],
        9 => steps = vec![(0, 0), (2, n), (1, 0)],
        _ => {
            two = path == 11;
            len = match p.below(3) {
                0 => n * bs,
                1 => n * bs + p.us(1, bs.max(2) - 1),
                _ => (n * bs).saturating_sub(p.us(1, bs)),
            };
            if path == 12 && seekable {
                // ends exactly at, or one byte past, the end of the keystream
                let over = p.us(0, 2);
                blk = mask - (len as u64 / bs as u64).min(mask);
                len = len / bs * bs + [0, 1, bs][over];
                g!(d.set(blk));
            }
        }
    }
    let what = format!("path {path}, {n} blocks, {len} bytes, two buffers: {two}, from block {}", if path == 12 { blk } else { from });
    macro_rules! fail {
        ($($a:tt)*) => { return viol(format!("{name} key={} iv={}: {what}: {}", hexs(key), hexs(iv), format!($($a)*))) };
    }
    if steps.is_empty() {
        let mut want = vec![0u8; len];
        let mut data = vec![0u8; len];
        if xor {
            p.fill(&mut data);
        }
        let fits = path < 10 || !seekable || (len / bs) as u64 <= mask - blk;
        if cfg.model && fits {
            at_blocks(&mut ks, blk, mask, &mut want, bs);
            for (w, x) in want.iter_mut().zip(&data) {
                *w ^= *x;
            }
        }
        b.out.place(len, align).copy_from_slice(&data);
        if two {
            b.inp.place(len, align ^ 1).copy_from_slice(&data);
            b.inp.protect(true);
            b.out.slice().fill(0x3c);
        } else if !xor {
            b.out.slice().fill(0x3c);
        }
        let before = (!fits).then(|| b.out.slice().to_vec());
        let Bufs { out, inp } = b;
        let inb = if two { Some(&*inp.slice()) } else { None };
        let o = out.slice();
        let mut ok = true;
        if path < 10 {
            match path {
                0 => g!(d.blocks(o)),
                1 => g!(d.apply_blocks(None, o, false)),
                2 => g!(d.apply_blocks(inb, o, false)),
                3 => g!(d.apply_blocks(None, o, true)),
                4 => g!(d.block(o)),
                _ => g!(d.apply_block(inb, o)),
            }
            blk = blk.wrapping_add((len / bs) as u64) & mask;
        } else {
            // consumes the core
            let dd = d;
            let tr = path == 12 || p.one_in(2);
            if fits || tr {
                ok = g!(dd.partial(inb, o, tr));
            } else {
                b.inp.protect(false);
                return Ok(());
            }
            check_out(b, &want, &data, two, cfg, fits, ok, before.as_deref(), rep).or_else(|e| fail!("{e}"))?;
            rep.hit(&format!("paths {name} partial"));
            return Ok(());
        }
        check_out(b, &want, &data, two, cfg, fits, ok, None, rep).or_else(|e| fail!("{e}"))?;
    } else {
        let mut got = Vec::new();
        let par = g!(d.session(&steps, &mut got));
        let mut want = vec![0u8; got.len()];
        if cfg.model {
            at_blocks(&mut ks, blk, mask, &mut want, bs);
            if got != want {
                fail!("session with {par} parallel blocks: {}", diff(&got, &want));
            }
            rep.add("blocks compared", (got.len() / bs) as u64);
        }
        blk = blk.wrapping_add((got.len() / bs) as u64) & mask;
    }
    if seekable && from.wrapping_add(40) & mask < from {
        rep.hit("paths near the counter maximum");
    }
    if let Some(at) = g!(d.get()) {
        if at != blk {
            fail!("block position is {at} afterwards, it should be {blk}");
        }
        let left = usize::try_from(mask - blk).ok();
        let r = g!(d.remaining());
        if r != left {
            fail!("remaining_blocks is {r:?} afterwards, {left:?} expected");
        }
    }
    // the state left behind
    let mut got = vec![0u8; bs];
    let mut want = vec![0u8; bs];
    g!(d.block(&mut got));
    if cfg.model {
        at_blocks(&mut ks, blk, mask, &mut want, bs);
        if got != want {
            fail!("the block after it, {blk}, is not the specified keystream: {}", diff(&got, &want));
        }
    }
    rep.hit(&format!("paths {name}"));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_out(
    b: &mut Bufs,
    want: &[u8],
    data: &[u8],
    two: bool,
    cfg: &Cfg,
    fits: bool,
    ok: bool,
    before: Option<&[u8]>,
    rep: &mut Rep,
) -> Result<(), String> {
    b.inp.protect(false);
    if ok != fits {
        return Err(if ok { "succeeded past the end of the keystream".into() } else { "was refused".into() });
    }
    b.out.check().map_err(|e| format!("output: {e}"))?;
    if two {
        b.inp.check().map_err(|e| format!("input: {e}"))?;
        if b.inp.slice() != data {
            return Err("changed its input buffer".into());
        }
    }
    let got = b.out.slice();
    if !fits {
        if before.is_some_and(|x| x != got) {
            return Err("a refused request changed its output".into());
        }
        rep.hit("requests refused at the end");
    } else if cfg.model {
        if got != want {
            return Err(format!("not the specified keystream: {}", diff(got, want)));
        }
        rep.add("bytes compared", want.len() as u64);
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn wrap_case(
    round: u64,
    cfg: &Cfg,
    b: &mut Bufs,
    rep: &mut Rep,
    p: &mut P,
    name: &str,
    k: Kind,
    key: &[u8],
    iv: &[u8],
    make: impl FnOnce() -> Option<Box<dyn dut::Dut>>,
    (mut ks, pos0): (Ks, u128),
) -> Result<(), Bad> {
    let bs = k.block();
    let n = size(p, cfg.most) * if bs == 1 { 8 } else { 1 };
    let mut pos = pos0;
    let e1 = ENTRIES[(round % ENTRIES.len() as u64) as usize];
    let head = if p.one_in(3) { 0 } else { p.us(0, bs) };
    let mid = match p.below(3) {
        0 => n * bs,
        1 => n * bs + p.us(0, bs - 1),
        _ => (n * bs).saturating_sub(p.us(0, bs)),
    };
    let reqs = [head, mid, p.us(0, bs + 1)];
    let total: usize = reqs.iter().sum();
    let log = format!("{name} key={} iv={}: {e1:?}, requests {reqs:?}", hexs(key), hexs(iv));
    macro_rules! g {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => return viol(format!("{log}: at byte {pos}: panic at {}:{}: {}", pn.file, pn.line, pn.msg)),
            }
        };
    }
    let Some(mut d) = g!(make()) else { return Err(Bad::Harness(format!("{k:?} is not compiled in"))) };
    if k.seekable() {
        let top = k.cap().unwrap_or(0);
        let at = u128::from(start(p, n, k.width())) * 64 + u128::from(p.below(64));
        pos = at.min(top - total as u128);
        if pos <= u128::from(u64::MAX) && p.one_in(2) {
            if !g!(d.seek(Ty::U64, pos, true)) {
                return viol(format!("{log}: seek to {pos} was refused"));
            }
        } else if !g!(d.seek(Ty::U128, pos, true)) {
            return viol(format!("{log}: seek to {pos} was refused"));
        }
    }
    for (i, len) in reqs.into_iter().enumerate() {
        let align = p.us(0, 1);
        let e = if i == 1 { e1 } else { *p.pick(ENTRIES) };
        let two = e.two_buffers();
        let mut data = vec![0u8; len];
        if !e.writes_raw() {
            p.fill(&mut data);
        }
        let mut want = vec![0u8; len];
        if cfg.model {
            if ks.seq() { ks.next(&mut want) } else { ks.at(pos, &mut want) }
            for (w, x) in want.iter_mut().zip(&data) {
                *w ^= *x;
            }
        }
        b.out.place(len, align).copy_from_slice(&data);
        b.inp.place(len, align ^ 1).copy_from_slice(&data);
        b.inp.protect(true);
        if two || e.writes_raw() {
            b.out.slice().fill(0x3c);
        }
        let Bufs { out, inp } = b;
        let ok = g!(d.apply(e, inp.slice(), out.slice()));
        if let Err(x) = check_out(b, &want, &data, two, cfg, true, ok, None, rep) {
            return viol(format!("{log}: request {i} ({e:?}, {len} bytes) at byte {pos}: {x}"));
        }
        pos += len as u128;
    }
    if k.seekable() {
        let now = g!(d.pos(Ty::U128, true));
        if now != Some(pos) {
            return viol(format!("{log}: position is {now:?}, it should be {pos}"));
        }
    }
    rep.hit(&format!("paths {name}"));
    Ok(())
}

#[cfg(feature = "rng")]
fn rng_case(round: u64, cfg: &Cfg, b: &mut Bufs, rep: &mut Rep, p: &mut P, rounds: u32) -> Result<(), Bad> {
    const MASK: u128 = (1 << 68) - 1;
    let mut seed = [0u8; 32];
    p.material(&mut seed);
    let mut iv = [0u8; 8];
    p.material(&mut iv);
    let stream = u64::from_le_bytes(iv);
    let n = size(p, cfg.most.min(20));
    let blk = start(p, n, 64);
    let mut w = (u128::from(blk) * 16 + u128::from(p.below(16))) & MASK;
    let log = format!("ChaCha{rounds}Rng seed={} stream={stream} word position {w}", hexs(&seed));
    macro_rules! g {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => return viol(format!("{log}: panic at {}:{}: {}", pn.file, pn.line, pn.msg)),
            }
        };
    }
    let mut last = (u64::MAX, [0u32; 16]);
    let mut fresh = true;
    let mut word = |w: u128| -> u32 {
        let bl = (w >> 4) as u64;
        if fresh || last.0 != bl {
            last = (bl, crate::model::chacha_djb_block(&seed, &iv, bl, rounds));
            fresh = false;
        }
        last.1[(w & 15) as usize]
    };
    let mut d = g!(crate::rngh::build(rounds, seed));
    g!(d.set_stream(stream));
    g!(d.set_word_pos(w));
    for i in 0..3u64 {
        match (round + i) % 4 {
            0 => {
                let v = g!(d.u32(p.one_in(2)));
                if cfg.model && v != word(w) {
                    return viol(format!("{log}: next_u32 at word {w} is not the keystream word"));
                }
                w = (w + 1) & MASK;
            }
            1 => {
                let v = g!(d.u64(p.one_in(2)));
                if cfg.model && v != u64::from(word(w)) | u64::from(word((w + 1) & MASK)) << 32 {
                    return viol(format!("{log}: next_u64 at word {w} is not the keystream"));
                }
                w = (w + 2) & MASK;
            }
            _ => {
                let len = (n * 64 + p.us(0, 70)).saturating_sub(p.us(0, 70));
                let align = p.us(0, 1);
                b.out.place(len, align).fill(0x3c);
                g!(d.fill(p.one_in(2), b.out.slice()));
                if let Err(x) = b.out.check() {
                    return viol(format!("{log}: fill of {len} bytes: {x}"));
                }
                if cfg.model {
                    for (j, c) in b.out.slice().chunks(4).enumerate() {
                        let at = (w + j as u128) & MASK;
                        if c != &word(at).to_le_bytes()[..c.len()] {
                            return viol(format!("{log}: fill of {len} bytes at word {w}: word {j} is not the keystream's"));
                        }
                    }
                    rep.add("bytes compared", len as u64);
                }
                w = (w + len.div_ceil(4) as u128) & MASK;
            }
        }
        let got = g!(d.word_pos());
        if got != w {
            return viol(format!("{log}: word position is {got}, it should be {w}"));
        }
    }
    rep.hit(&format!("paths ChaCha{rounds}Rng"));
    Ok(())
}

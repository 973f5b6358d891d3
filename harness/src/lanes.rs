//! Systematic tour of the counter arithmetic of parallel backends: batches of
//! every length laid across every kind of counter boundary at every offset.

use crate::coreh::{self, CoreDut};
use crate::dut::Kind;
use crate::model::Ks;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub rng: bool,
    /// two-round variants only (of what has them)
    pub fast: bool,
    /// run through the counter maximum as well
    pub wrap: bool,
    /// largest offset and batch
    pub most: u64,
    /// one offset per case, for slow interpreters
    pub single: bool,
}

#[derive(Clone, Copy, Debug)]
enum Subject {
    Core(Kind),
    #[cfg(feature = "cc")]
    Mini(Kind),
    #[cfg(feature = "rng")]
    Gen(bool),
}

fn subjects(c: &Cfg) -> Vec<Subject> {
    let mut v = Vec::new();
    for k in &c.kinds {
        if !k.seekable() {
            continue;
        }
        #[cfg(feature = "cc")]
        if matches!(k, Kind::ChaCha8) || (cfg!(feature = "rng") && matches!(k, Kind::Legacy)) {
            v.push(Subject::Mini(*k));
        }
        if c.fast && (crate::dut::CHACHA.contains(k) || k.rounds() != 8) {
            continue;
        }
        v.push(Subject::Core(*k));
    }
    #[cfg(feature = "rng")]
    if c.rng {
        v.extend([Subject::Gen(true), Subject::Gen(false)]);
    }
    v
}

#[cfg(any(feature = "cc", feature = "rng"))]
#[derive(Clone, Copy)]
struct R2;
#[cfg(any(feature = "cc", feature = "rng"))]
impl chacha20::Rounds for R2 {
    const COUNT: usize = 1;
}

#[cfg(feature = "rng")]
struct GenDut<V: chacha20::variants::Variant>(chacha20::ChaChaCore<R2, V>);
#[cfg(feature = "rng")]
impl<V: chacha20::variants::Variant> GenDut<V>
where
    V::Counter: TryFrom<u64> + TryInto<u64>,
{
    fn new(seed: &[u8; 32]) -> Self {
        GenDut(rand_core::SeedableRng::from_seed(*seed))
    }
}
/// what the tour needs of a subject
trait Lane {
    fn set(&mut self, b: u64);
    fn get(&mut self) -> Option<u64>;
    /// `how`: which of the calls; `out` holds whole blocks
    fn go(&mut self, out: &mut [u8], how: usize);
    fn hows(&self) -> usize;
    /// sizes are rounded up to this
    fn unit(&self) -> usize;
}
impl Lane for Box<dyn CoreDut> {
    fn set(&mut self, b: u64) {
        (**self).set(b);
    }
    fn get(&mut self) -> Option<u64> {
        (**self).get()
    }
    fn go(&mut self, out: &mut [u8], how: usize) {
        match how {
            0 => self.blocks(out),
            1 => {
                out.fill(0);
                self.apply_blocks(None, out, false);
            }
            2 => {
                let z = vec![0u8; out.len()];
                self.apply_blocks(Some(&z), out, false);
            }
            _ => {
                let mut v = Vec::new();
                self.session(&[(3, out.len() / 64)], &mut v);
                out.copy_from_slice(&v);
            }
        }
    }
    fn hows(&self) -> usize {
        4
    }
    fn unit(&self) -> usize {
        1
    }
}
#[cfg(feature = "rng")]
impl<V: chacha20::variants::Variant> Lane for GenDut<V>
where
    V::Counter: TryFrom<u64> + TryInto<u64>,
{
    fn set(&mut self, b: u64) {
        let v = V::Counter::try_from(b).unwrap_or_else(|_| panic!("harness: counter"));
        self.0.set_block_pos(v);
    }
    fn get(&mut self) -> Option<u64> {
        Some(self.0.get_block_pos().try_into().unwrap_or_else(|_| panic!("harness: counter")))
    }
    fn go(&mut self, out: &mut [u8], _: usize) {
        use rand_core::block::Generator;
        for c in out.chunks_mut(256) {
            let mut b = [0xabab_abab_u32; 64];
            self.0.generate(&mut b);
            for (o, w) in c.chunks_mut(4).zip(b) {
                o.copy_from_slice(&w.to_le_bytes());
            }
        }
    }
    fn hows(&self) -> usize {
        1
    }
    fn unit(&self) -> usize {
        4
    }
}

pub fn run_case(case: u64, cfg: &Cfg, rep: &mut Rep) -> Result<(), Bad> {
    let subs = subjects(cfg);
    if subs.is_empty() {
        return Err(Bad::Harness("no subjects".into()));
    }
    let s = subs[(case % subs.len() as u64) as usize];
    let most = cfg.most;
    let mut round = case / subs.len() as u64;
    // the offset fastest, then the size of the batch, then the boundary
    let (only, long) = (round % (most + 1), round / (most + 1) % 2 == 0);
    if cfg.single {
        round /= 2 * (most + 1);
    }
    let mut p = P::new(case);
    let mut key;
    let mut iv;
    let width;
    let (mut d, ks): (Box<dyn Lane>, Ks) = match s {
        Subject::Core(k) => {
            let (a, b) = k.sizes();
            (key, iv) = (vec![0; a], vec![0; b]);
            p.material(&mut key);
            p.material(&mut iv);
            width = k.width();
            let c = guarded(|| coreh::build(k, &key, &iv)).map_err(Bad::from)?;
            let Some(c) = c else { return Err(Bad::Harness(format!("{k:?} has no core here"))) };
            (Box::new(c), k.model(&key, &iv).0)
        }
        #[cfg(feature = "cc")]
        Subject::Mini(k) => {
            use chacha20::{ChaChaCore, variants};
            (key, iv) = (vec![0; 32], vec![0; 12]);
            p.material(&mut key);
            width = k.width();
            if width == 32 {
                p.material(&mut iv);
                let c = guarded(|| -> ChaChaCore<R2, variants::Ietf> {
                    cipher::KeyIvInit::new_from_slices(&key, &iv).expect("DUT: exact lengths were refused")
                })
                .map_err(Bad::from)?;
                (Box::new(coreh::boxed_seek(c)), Ks::chacha_ietf(&key, &iv, 2))
            } else {
                #[cfg(feature = "rng")]
                {
                    let seed: [u8; 32] = key[..].try_into().expect("harness: key length");
                    let c = guarded(|| <ChaChaCore<R2, variants::Legacy> as rand_core::SeedableRng>::from_seed(seed))
                        .map_err(Bad::from)?;
                    (Box::new(coreh::boxed_seek(c)), Ks::chacha_djb(&key, &[0; 8], 2))
                }
                #[cfg(not(feature = "rng"))]
                unreachable!("harness: no 64-bit variant")
            }
        }
        #[cfg(feature = "rng")]
        Subject::Gen(wide) => {
            (key, iv) = (vec![0; 32], vec![0; 12]);
            p.material(&mut key);
            let seed: [u8; 32] = key[..].try_into().expect("harness: seed length");
            width = if wide { 64 } else { 32 };
            if wide {
                let g = guarded(|| GenDut::<chacha20::variants::Legacy>::new(&seed)).map_err(Bad::from)?;
                (Box::new(g), Ks::chacha_djb(&key, &[0; 8], 2))
            } else {
                let g = guarded(|| GenDut::<chacha20::variants::Ietf>::new(&seed)).map_err(Bad::from)?;
                (Box::new(g), Ks::chacha_ietf(&key, &iv, 2))
            }
        }
    };
    let mask = if width == 64 { u64::MAX } else { u64::from(u32::MAX) };
    // the boundary that is crossed
    let b = match (width, round % 4) {
        (64, 0) => 1u64 << 32,
        (64, 1) if cfg.wrap => 0,
        (64, 1 | 2) => (p.range(2, (1 << 32) - 1)) << 32,
        (64, _) => 1 << p.range(5, 63),
        (_, 0) if cfg.wrap => 0,
        (_, 1) => 1 << 31,
        _ => 1u64 << p.range(5, 31),
    };
    // the keystream around it
    let lo = b.wrapping_sub(most) & mask;
    let (first, last) = if cfg.single {
        // (the batch size is decided as below)
        (most - only, most - only + if long { 8 } else { only + 1 } + 3)
    } else {
        (0, 2 * most + 5)
    };
    let mut around = vec![0u8; 64 * (2 * most + 16) as usize];
    for (i, c) in around.chunks_mut(64).enumerate() {
        if (i as u64) < first || i as u64 > last {
            continue;
        }
        // (a counter past its maximum starts again)
        ks.at(u128::from(lo.wrapping_add(i as u64) & mask) * 64, c);
    }
    let name = format!("{s:?} key={} iv={}", hexs(&key), hexs(&iv));
    let unit = d.unit();
    let mut buf = vec![0u8; 64 * (most as usize + 12)];
    let mut how = round as usize;
    for k in 0..=most {
        let at = b.wrapping_sub(k) & mask;
        if cfg.single && k != only {
            continue;
        }
        let n = match (k + round) % 3 {
            _ if cfg.single => if long { 8 } else { k + 1 },
            // up to the boundary and a little further
            0 => (k + 1).min(most),
            1 => most,
            _ => p.range(1, most),
        } as usize;
        let n = n.div_ceil(unit) * unit;
        if !cfg.wrap && b == 0 {
            return Err(Bad::Harness("boundary".into()));
        }
        how = (how + 1) % d.hows();
        let o = &mut buf[..64 * n];
        o.fill(0x77);
        let r = guarded(|| {
            d.set(at);
            d.go(o, how);
            d.get()
        });
        let got = match r {
            Ok(g) => g,
            Err(pn) if pn.is_harness() => return Err(pn.into()),
            Err(pn) => return viol(format!("{name}: {n} blocks from block {at}: panic at {}:{}: {}", pn.file, pn.line, pn.msg)),
        };
        let w = &around[64 * (most - k) as usize..][..64 * n];
        if o != w {
            return viol(format!(
                "{name}: call kind {how} for {n} blocks from block {at} ({k} before the boundary {b}): not the specified keystream: {}",
                diff(o, w)
            ));
        }
        let want = at.wrapping_add(n as u64) & mask;
        if got != Some(want) {
            return viol(format!("{name}: block position {got:?} after {n} blocks from block {at}, {want} expected"));
        }
        rep.hit("batches across a counter boundary");
    }
    rep.evaluations += 1;
    rep.hit(&format!("lane tours {s:?}"));
    let mut f = Fnv::default();
    f.bytes(name.as_bytes());
    f.u(b);
    f.u(case);
    rep.distinct.insert(f.0);
    rep.sample(|| format!("lane tour {name}: boundary {b}, offsets 0 to {most}"));
    Ok(())
}

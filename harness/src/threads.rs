//! Independence monitor: many instances, built, used, handed over and queried
//! by racing threads, each judged against its own model only.
#![allow(unused_imports, unused_macros, unused_variables)]

use std::marker::PhantomData;
use std::sync::{Barrier, Mutex};

use crate::dut::{self, Ctor, Dut, Entry, Kind, Ty};
use crate::hist::material;
use crate::inst::Core;
use crate::model::Ks;
use crate::prng::{P, mix};
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

/// Moves a boxed instance to another thread. Whether its type may be moved is
/// decided by `send_sync` (a violation there ends the run first).
struct Force<T>(T);
// SAFETY: see above
unsafe impl<T> Send for Force<T> {}
// SAFETY: only `&self` queries are made through a shared reference
unsafe impl<T> Sync for Force<T> {}

enum Thing {
    C(Box<dyn Dut>),
    #[cfg(feature = "rng")]
    R(Box<dyn crate::rngh::RngDut>),
}
struct Inst {
    t: Force<Thing>,
    name: String,
    seekable: bool,
    ks: Ks,
    pos: u128,
    cap: u128,
    ops: u32,
    owners: u32,
}
impl Inst {
    fn want(&mut self, out: &mut [u8]) {
        if self.ks.seq() { self.ks.next(out) } else { self.ks.at(self.pos, out) }
        self.pos += out.len() as u128;
    }
}

fn make(p: &mut P, kinds: &[Kind]) -> Result<Inst, Bad> {
    #[cfg(feature = "rng")]
    if p.one_in(4) || kinds.is_empty() {
        let mut seed = [0u8; 32];
        p.material(&mut seed);
        let rounds = *p.pick(&[8u32, 12, 20]);
        let mut d = guarded(|| crate::rngh::build(rounds, seed))?;
        let mut stream = 0;
        let mut pos = 0;
        if p.one_in(2) {
            stream = p.edge64();
            guarded(|| d.set_stream(stream))?;
        }
        if p.one_in(2) {
            pos = u128::from(p.edge64() >> 1) * 16 + u128::from(p.below(16));
            guarded(|| d.set_word_pos(pos))?;
        }
        return Ok(Inst {
            name: format!("ChaCha{rounds}Rng seed={} stream={stream} word={pos}", hexs(&seed)),
            seekable: false,
            ks: Ks::chacha_djb(&seed, &stream.to_le_bytes(), rounds),
            pos: pos * 4,
            cap: u128::MAX,
            t: Force(Thing::R(d)),
            ops: 0,
            owners: 0,
        });
    }
    let kind = *p.pick(kinds);
    let (key, iv) = material(p, kind, false);
    cipher_inst(p, kind, &key, &iv)
}

fn cipher_inst(p: &mut P, kind: Kind, key: &[u8], iv: &[u8]) -> Result<Inst, Bad> {
    let c = *p.pick(&[Ctor::New, Ctor::Slices, Ctor::FromCore]);
    let d = guarded(|| dut::build(kind, c, key, iv))?
        .ok_or_else(|| Bad::Harness(format!("{kind:?} is not compiled in")))?;
    let (ks, pos) = kind.model(key, iv);
    Ok(Inst {
        name: format!("{kind:?} key={} iv={}", hexs(key), hexs(iv)),
        seekable: kind.seekable(),
        ks,
        pos,
        cap: kind.cap().unwrap_or(u128::MAX),
        t: Force(Thing::C(d)),
        ops: 0,
        owners: 0,
    })
}

/// Changes little or nothing: caches and tables keyed by part of the secret
/// would confuse such relatives.
fn relative(p: &mut P, base: &[u8], out: &mut [u8]) {
    let n = out.len();
    out.copy_from_slice(&base[..n]);
    if n == 0 {
        return;
    }
    match p.below(10) {
        0 => {
            let b = p.us(0, 8 * n - 1);
            out[b / 8] ^= 1 << (b % 8);
        }
        1 => out[n - 1] ^= p.below(255) as u8 + 1,
        2 => out[0] ^= p.below(255) as u8 + 1,
        3 => {
            let h = p.us(0, n - 1);
            p.fill(&mut out[h..]);
        }
        4 => {
            let h = p.us(1, n);
            p.fill(&mut out[..h]);
        }
        5 => {
            // the same words in another order
            let w = n / 4;
            if w > 1 {
                let (a, b) = (p.us(0, w - 1), p.us(0, w - 1));
                for k in 0..4 {
                    out.swap(4 * a + k, 4 * b + k);
                }
            }
        }
        6 => p.fill(out),
        _ => {}
    }
}

/// A crowd of related instances on one thread: used in turn, dropped, and
/// rebuilt at the same addresses, each judged against its own model only.
pub fn crowd_case(case: u64, kinds: &[Kind], big: usize, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let mut base = [0u8; 256];
    let mut biv = [0u8; 32];
    p.material(&mut base[..32]);
    p.fill(&mut base[32..]);
    p.material(&mut biv);
    let home = kinds.get(p.below(kinds.len() as u64) as usize).copied();
    let most = if cfg!(miri) { 6 } else if p.one_in(40) { p.us(100, 700) } else { p.us(2, 24) };
    let steps = if most > 24 { most * 3 } else { p.us(4, if cfg!(miri) { 14 } else { 120 }) };
    let mut live: Vec<Inst> = Vec::new();
    let mut names = Fnv::default();
    // every argument is passed in the same two buffers
    let (mut key, mut iv) = ([0u8; 256], [0u8; 32]);
    for _ in 0..steps {
        if live.is_empty() || (live.len() < most && p.one_in(if most > 24 { 2 } else { 4 })) {
            #[cfg(feature = "rng")]
            if kinds.is_empty() || p.one_in(6) {
                let mut seed = [0u8; 32];
                relative(&mut p, &base, &mut seed);
                let rounds = *p.pick(&[8u32, 12, 20]);
                let mut d = guarded(|| crate::rngh::build(rounds, seed))?;
                let stream = if p.one_in(2) { 0 } else { u64::from_le_bytes(biv[..8].try_into().expect("harness: 8")) ^ p.below(3) };
                let pos = if p.one_in(2) { 0 } else { u128::from(p.edge64() >> 1) * 16 + u128::from(p.below(16)) };
                guarded(|| d.set_stream(stream))?;
                guarded(|| d.set_word_pos(pos))?;
                let i = Inst {
                    name: format!("ChaCha{rounds}Rng seed={} stream={stream} word={pos}", hexs(&seed)),
                    seekable: false,
                    ks: Ks::chacha_djb(&seed, &stream.to_le_bytes(), rounds),
                    pos: pos * 4,
                    cap: u128::MAX,
                    t: Force(Thing::R(d)),
                    ops: 0,
                    owners: 0,
                };
                names.bytes(i.name.as_bytes());
                live.push(i);
                rep.hit("instances");
                continue;
            }
            let kind = match home {
                Some(h) if !p.one_in(3) => h,
                _ => *p.pick(kinds),
            };
            let (kl, nl) = kind.sizes();
            let kl = if kind == Kind::Rc4 && p.one_in(2) { p.us(1, 256) } else { kl };
            relative(&mut p, &base, &mut key[..kl]);
            relative(&mut p, &biv, &mut iv[..nl]);
            let i = cipher_inst(&mut p, kind, &key[..kl], &iv[..nl])?;
            names.bytes(i.name.as_bytes());
            // the arguments are dead now
            if p.one_in(2) {
                key.fill(0xee);
                iv.fill(0xee);
            }
            live.push(i);
            rep.hit("instances");
            continue;
        }
        let j = p.below(live.len() as u64) as usize;
        match p.below(12) {
            0 => {
                live.swap_remove(j);
                rep.hit("dropped among others");
            }
            1 => query(&live[j], &mut p, rep)?,
            2 => {
                let k = p.below(live.len() as u64) as usize;
                live.swap(j, k);
            }
            _ => step(&mut live[j], &mut p, big, rep)?,
        }
    }
    for i in &mut live {
        step(i, &mut p, 70, rep)?;
        query(i, &mut p, rep)?;
    }
    rep.distinct.insert(names.0);
    rep.evaluations += 1;
    rep.hit(&format!("crowds of {}", match live.len() { 0..=4 => "1-4", 5..=24 => "5-24", _ => "100 and more" }));
    rep.sample(|| {
        format!("crowd of {}: {}", live.len(), live.iter().take(3).map(|i| format!("{} ({} ops)", i.name, i.ops)).collect::<Vec<_>>().join("; "))
    });
    Ok(())
}

fn step(i: &mut Inst, p: &mut P, big: usize, rep: &mut Rep) -> Result<(), Bad> {
    i.ops += 1;
    let n = p.us(0, big);
    let at = i.pos;
    let (got, want) = match &mut i.t.0 {
        Thing::C(d) => {
            if i.seekable && p.one_in(5) {
                let to = (u128::from(p.edge32()) * 64 + u128::from(p.below(64))).min(i.cap);
                if !guarded(|| d.seek(Ty::U128, to, true))? {
                    return viol(format!("{}: seek to {to} refused", i.name));
                }
                i.pos = to;
                rep.hit("seeks");
            }
            let n = if i.cap - i.pos < n as u128 { (i.cap - i.pos) as usize } else { n };
            let e = *p.pick(&[Entry::TryApply, Entry::TryB2b, Entry::TryWrite, Entry::UInoutSame]);
            let mut data = vec![0u8; n];
            p.fill(&mut data);
            let src = data.clone();
            if !guarded(|| d.apply(e, &src, &mut data))? {
                return viol(format!("{}: request of {n} bytes at {} refused", i.name, i.pos));
            }
            if !e.writes_raw() {
                for (a, b) in data.iter_mut().zip(&src) {
                    *a ^= b;
                }
            }
            let mut w = vec![0u8; n];
            i.want(&mut w);
            (data, w)
        }
        #[cfg(feature = "rng")]
        Thing::R(d) => {
            let got = match p.below(3) {
                0 => guarded(|| d.u32(false))?.to_le_bytes().to_vec(),
                1 => guarded(|| d.u64(false))?.to_le_bytes().to_vec(),
                _ => {
                    let mut b = vec![0u8; n / 4 * 4];
                    guarded(|| d.fill(false, &mut b))?;
                    b
                }
            };
            let mut w = vec![0u8; got.len()];
            i.want(&mut w);
            (got, w)
        }
    };
    if got != want {
        return viol(format!(
            "{}: at byte {at} the output is not the instance's own keystream (operation {} after {} owners): {}",
            i.name,
            i.ops,
            i.owners,
            diff(&got, &want)
        ));
    }
    rep.add("bytes compared", got.len() as u64);
    rep.hit("operations");
    Ok(())
}

/// What any number of threads may ask at once.
fn query(i: &Inst, p: &mut P, rep: &mut Rep) -> Result<(), Bad> {
    match &i.t.0 {
        Thing::C(d) => {
            if i.seekable {
                let q = guarded(|| d.pos(Ty::U128, true))?;
                if q != Some(i.pos) {
                    return viol(format!("{}: a shared position query gave {q:?}, not {}", i.name, i.pos));
                }
            }
            let n = p.us(0, 1000);
            if guarded(|| d.check(n))? != (i.cap - i.pos >= n as u128) {
                return viol(format!("{}: a shared remaining query for {n} bytes at {} is wrong", i.name, i.pos));
            }
        }
        #[cfg(feature = "rng")]
        Thing::R(d) => {
            let q = guarded(|| d.word_pos())?;
            if q * 4 != i.pos & ((1 << 70) - 1) {
                return viol(format!("{}: a shared position query gave {q}, not {}", i.name, i.pos / 4));
            }
            let s = guarded(|| (d.ser(), d.eq_self()))?;
            if s.0[40..] != (i.pos / 4).to_le_bytes()[..9] || !s.1 {
                return viol(format!("{}: a shared serialisation is wrong", i.name));
            }
        }
    }
    rep.hit("shared queries");
    Ok(())
}

pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub threads: usize,
    pub ops: usize,
    pub big: usize,
}

pub fn run_case(case: u64, cfg: &Cfg, rep: &mut Rep) -> Result<(), Bad> {
    send_sync(rep)?;
    let mut p = P::new(case);
    let t = cfg.threads.max(2);
    let per = p.us(1, 3);
    let barrier = Barrier::new(t);
    let pool: Mutex<Vec<Inst>> = Mutex::new(Vec::new());
    let hand = p.one_in(2);
    let outs: Vec<(Rep, Result<(), Bad>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let (barrier, pool) = (&barrier, &pool);
                let seed = mix(case ^ mix(k as u64 + 1));
                s.spawn(move || {
                    let mut p = P::new(seed);
                    let mut rep = Rep::default();
                    // the first use of every thread at the same moment
                    barrier.wait();
                    let r = (|| -> Result<(), Bad> {
                        let mut mine = Vec::new();
                        for _ in 0..per {
                            mine.push(make(&mut p, &cfg.kinds)?);
                        }
                        for _ in 0..cfg.ops {
                            if mine.is_empty() {
                                mine.extend(pool.lock().expect("harness: pool").pop());
                                continue;
                            }
                            let j = p.below(mine.len() as u64) as usize;
                            step(&mut mine[j], &mut p, cfg.big, &mut rep)?;
                            if hand && p.one_in(4) {
                                // give one away, take another one
                                let mut g = pool.lock().expect("harness: pool");
                                let i = mine.swap_remove(j);
                                g.push(i);
                                let n = g.len() as u64;
                                let mut i = g.swap_remove(p.below(n) as usize);
                                i.owners += 1;
                                mine.push(i);
                                rep.hit("hand-overs");
                            }
                        }
                        pool.lock().expect("harness: pool").append(&mut mine);
                        Ok(())
                    })();
                    (rep, r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    let mut bad = None;
    let mut take = |outs: Vec<(Rep, Result<(), Bad>)>, rep: &mut Rep| {
        for (r, e) in outs {
            for (k, n) in r.counts {
                rep.add(&k, n);
            }
            if let Err(e) = e {
                bad.get_or_insert(e);
            }
        }
    };
    take(outs, rep);
    let all = pool.into_inner().expect("harness: pool");
    let outs: Vec<(Rep, Result<(), Bad>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let all = &all;
                s.spawn(move || {
                    let mut p = P::new(mix(case ^ mix(k as u64 + 100)));
                    let mut rep = Rep::default();
                    let mut go = || -> Result<(), Bad> {
                        for i in all {
                            query(i, &mut p, &mut rep)?;
                        }
                        Ok(())
                    };
                    let r = go();
                    (rep, r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    take(outs, rep);
    if let Some(e) = bad {
        return Err(e);
    }
    let mut f = Fnv::default();
    for i in &all {
        f.bytes(i.name.as_bytes());
        f.u(i.ops.into());
        f.u(i.owners.into());
    }
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    rep.add("instances", all.len() as u64);
    rep.sample(|| {
        format!(
            "{t} threads, {} instances: {}",
            all.len(),
            all.iter().take(3).map(|i| format!("{} ({} ops, {} owners)", i.name, i.ops, i.owners)).collect::<Vec<_>>().join("; ")
        )
    });
    Ok(())
}

struct Auto<T>(PhantomData<T>);
// only a type name: its own Send / Sync must not depend on T
unsafe impl<T> Send for Auto<T> {}
unsafe impl<T> Sync for Auto<T> {}
trait Sends {
    fn sends(&self) -> bool;
}
impl<T: Send> Sends for Auto<T> {
    fn sends(&self) -> bool {
        true
    }
}
impl<T> Sends for &Auto<T> {
    fn sends(&self) -> bool {
        false
    }
}
trait Shares {
    fn shares(&self) -> bool;
}
impl<T: Sync> Shares for Auto<T> {
    fn shares(&self) -> bool {
        true
    }
}
impl<T> Shares for &Auto<T> {
    fn shares(&self) -> bool {
        false
    }
}

/// Every public type may be sent to and shared with other threads.
pub fn send_sync(rep: &mut Rep) -> Result<(), Bad> {
    let mut n = 0u64;
    macro_rules! all {
        ($($t:ty;)*) => {$(
            let a = Auto::<$t>(PhantomData);
            if !(&a).sends() || !(&a).shares() {
                return viol(format!("{} cannot be sent to or shared with other threads", std::any::type_name::<$t>()));
            }
            n += 1;
        )*};
    }
    #[cfg(feature = "cc")]
    all! {
        chacha20::ChaCha8; chacha20::ChaCha12; chacha20::ChaCha20; chacha20::ChaCha20Legacy;
        chacha20::XChaCha8; chacha20::XChaCha12; chacha20::XChaCha20;
        Core<chacha20::ChaCha8>; Core<chacha20::ChaCha12>; Core<chacha20::ChaCha20>; Core<chacha20::ChaCha20Legacy>;
        Core<chacha20::XChaCha8>; Core<chacha20::XChaCha12>; Core<chacha20::XChaCha20>;
    }
    #[cfg(feature = "rng")]
    all! {
        chacha20::ChaCha8Rng; chacha20::ChaCha12Rng; chacha20::ChaCha20Rng;
        chacha20::ChaChaCore<chacha20::R20, chacha20::variants::Legacy>;
        chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Ietf>;
    }
    #[cfg(feature = "others")]
    all! {
        salsa20::Salsa8; salsa20::Salsa12; salsa20::Salsa20; salsa20::XSalsa8; salsa20::XSalsa12; salsa20::XSalsa20;
        Core<salsa20::Salsa8>; Core<salsa20::XSalsa20>; salsa20::SalsaCore<cipher::consts::U10>;
        hc_256::Hc256; Core<hc_256::Hc256>; rabbit::Rabbit; rabbit::RabbitKeyOnly; rabbit::RabbitCore;
        rabbit::RabbitKeyOnlyCore; rc4::Rc4;
    }
    rep.counts.insert("types that are Send and Sync".into(), n);
    Ok(())
}

/// Whole lives (build, a short request at a position, drop) of one kind of
/// instance, repeated by all threads at once with a few alternating secrets
/// whose outputs were computed before: state shared behind the scenes would
/// be torn or mixed up.
pub fn burst_case(case: u64, cfg: &Cfg, reps: usize, rep: &mut Rep) -> Result<(), Bad> {
    struct Life {
        key: Vec<u8>,
        iv: Vec<u8>,
        at: Option<u128>,
        want: Vec<u8>,
        sub: Option<[u8; 32]>,
    }
    let mut p = P::new(case);
    let use_rng = cfg!(feature = "rng") && (cfg.kinds.is_empty() || p.one_in(6));
    let kind = if cfg.kinds.is_empty() { Kind::ChaCha8 } else { *p.pick(&cfg.kinds) };
    let rounds = if use_rng { *p.pick(&[8u32, 12, 20]) } else { kind.rounds() };
    let (bk, biv) = material(&mut p, kind, false);
    let len = *p.pick(&[0usize, 1, 40, 64, 130, 300, 700]);
    let near = p.one_in(2);
    let mut lives = Vec::new();
    for _ in 0..p.us(2, 4) {
        let (mut key, mut iv) = material(&mut p, kind, false);
        if use_rng {
            key.resize(32, 7);
        }
        if near && bk.len() == key.len() {
            relative(&mut p, &bk, &mut key);
            relative(&mut p, &biv, &mut iv);
        }
        let (mut ks, pos0) = if use_rng { (Ks::chacha_djb(&key, &[0; 8], rounds), 0) } else { kind.model(&key, &iv) };
        let room = if use_rng { u128::MAX } else { kind.cap().unwrap_or(u128::MAX) };
        let at = if kind.seekable() && p.one_in(2) || room - pos0 < 1000 { Some(u128::from(p.edge32()) * 8) } else { None };
        let mut want = vec![0u8; len];
        match at {
            _ if ks.seq() => ks.next(&mut want),
            _ if use_rng => ks.at(at.unwrap_or(0) / 4 * 4, &mut want),
            a => ks.at(a.unwrap_or(pos0), &mut want),
        }
        let sub = match kind {
            _ if use_rng => None,
            Kind::XChaCha8 | Kind::XChaCha12 | Kind::XChaCha20 => Some(crate::model::hchacha(&key, &iv[..16], rounds)),
            Kind::XSalsa8 | Kind::XSalsa12 | Kind::XSalsa20 => Some(crate::model::hsalsa(&key, &iv[..16], rounds)),
            _ => None,
        };
        lives.push(Life { key, iv, at, want, sub });
    }
    let t = cfg.threads.max(2);
    let barrier = Barrier::new(t);
    let outs: Vec<Result<(), Bad>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let (barrier, lives) = (&barrier, &lives);
                let seed = mix(case ^ mix(k as u64 + 7));
                s.spawn(move || {
                    let mut p = P::new(seed);
                    let mut got = vec![0u8; len];
                    barrier.wait();
                    for n in 0..reps {
                        let l = p.pick(lives);
                        got.fill(0);
                        let mut gsub = None;
                        let g = &mut got;
                        guarded(|| {
                            #[cfg(feature = "rng")]
                            if use_rng {
                                let mut d = crate::rngh::build(rounds, l.key[..].try_into().expect("harness: 32"));
                                if let Some(a) = l.at {
                                    d.set_word_pos(a / 4);
                                }
                                d.fill(false, g);
                                return;
                            }
                            if l.sub.is_some() && n % 2 == 1 {
                                gsub = crate::misc::subkey(kind, &l.key, &l.iv);
                                return;
                            }
                            let c = [Ctor::New, Ctor::Slices, Ctor::FromCore][n % 3];
                            let mut d = dut::build(kind, c, &l.key, &l.iv).expect("harness: not compiled in");
                            if let Some(a) = l.at {
                                assert!(d.seek(Ty::U128, a, true), "DUT: seek refused");
                            }
                            assert!(d.apply(Entry::TryApply, &[], g), "DUT: request refused");
                        })?;
                        let name = || {
                            let k = if use_rng { format!("ChaCha{rounds}Rng") } else { format!("{kind:?}") };
                            format!("{k} key={} iv={} at={:?}, in life {n} of one of {t} threads that do the same", hexs(&l.key), hexs(&l.iv), l.at)
                        };
                        match gsub {
                            Some(s) => {
                                if Some(s) != l.sub {
                                    return viol(format!("{}: subkey differs from the model", name()));
                                }
                            }
                            None => {
                                if got != l.want {
                                    return viol(format!("{}: {}", name(), diff(&got, &l.want)));
                                }
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    for o in outs {
        o?;
    }
    rep.add("concurrent lives", (t * reps) as u64);
    rep.hit(&format!("bursts {}", if use_rng { "RNG".into() } else { format!("{kind:?}") }));
    let mut f = Fnv::default();
    for l in &lives {
        f.bytes(&l.key);
        f.bytes(&l.iv);
    }
    f.u(kind as u64);
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    Ok(())
}

//! Lockstep monitor: a history of public calls on one cipher instance, each
//! result compared with the specification's model.

use crate::dut::{self, Ctor, Dut, ENTRIES, Entry, Kind, TYS, Ty};
use crate::mem::{Mode, Region};
use crate::model::Ks;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub ops: usize,
    pub big: usize,
    pub mode: Mode,
    /// percent of operations that are seeks / position queries / remaining checks
    pub seek: u64,
    pub query: u64,
    /// percent of cases that live at the end of the keystream
    pub end: u64,
    /// keep sizes within 32 bits, so that the history is the same on every target
    pub portable: bool,
    /// compute the model (false: only the transcript)
    pub model: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            kinds: Vec::new(),
            ops: 14,
            big: 1 << 16,
            mode: Mode::Canary,
            seek: 18,
            query: 12,
            end: 12,
            portable: false,
            model: true,
        }
    }
}

pub struct Bufs {
    pub out: Region,
    pub inp: Region,
    exp: Vec<u8>,
    pre: Vec<u8>,
    pin: Vec<u8>,
}
impl Bufs {
    pub fn new(m: Mode) -> Self {
        Bufs { out: Region::new(m), inp: Region::new(m), exp: vec![], pre: vec![], pin: vec![] }
    }
}

/// Sequential model or positional model with the current position.
struct Model {
    ks: Option<Ks>,
    pos: u128,
    cap: Option<u128>,
}
impl Model {
    fn fits(&self, n: usize) -> bool {
        self.cap.is_none_or(|c| self.pos + n as u128 <= c)
    }
    fn take(&mut self, out: &mut [u8]) {
        if let Some(ks) = &mut self.ks {
            if ks.seq() { ks.next(out) } else { ks.at(self.pos, out) }
        }
        self.pos += out.len() as u128;
    }
}

pub fn material(p: &mut P, kind: Kind, end: bool) -> (Vec<u8>, Vec<u8>) {
    let (kl, nl) = kind.sizes();
    let kl = if kind == Kind::Rc4 {
        match p.below(6) {
            0 => 32,
            1 => p.us(1, 5),
            2 => p.us(250, 256),
            3 => 16,
            _ => p.us(1, 256),
        }
    } else {
        kl
    };
    let mut key = vec![0; kl];
    let mut iv = vec![0; nl];
    p.material(&mut key);
    p.material(&mut iv);
    if kind.is_raw() {
        let c = if end { u64::MAX - p.below(6) } else { p.edge64() };
        if end || !p.one_in(4) {
            key[32..40].copy_from_slice(&c.to_le_bytes());
        }
        // constants of the real cipher most of the time, arbitrary otherwise
        if !p.one_in(3) {
            for (i, w) in [(0usize, b"expa"), (5, b"nd 3"), (10, b"2-by"), (15, b"te k")] {
                key[4 * i..4 * i + 4].copy_from_slice(w);
            }
        }
    }
    (key, iv)
}

/// A byte position worth visiting; may lie past the end of the keystream.
pub fn position(p: &mut P, kind: Kind, end: bool) -> u128 {
    let cap = kind.cap().unwrap_or(u128::MAX);
    let sub = |p: &mut P| -> u128 {
        match p.below(5) {
            0 => 0,
            1 => 63,
            2 => 1,
            _ => u128::from(p.below(64)),
        }
    };
    if end || p.one_in(8) {
        return match p.below(8) {
            0 => cap,
            1 => cap + u128::from(p.range(1, 200)),
            2 => cap - u128::from(p.below(64)),
            3 => p.edge128(),
            4 => cap - u128::from(p.below(64)) * 64,
            _ => cap - u128::from(p.below(64 * 40)),
        };
    }
    let blk = if kind.width() == 32 { u64::from(p.edge32()) } else { p.edge64() };
    (u128::from(blk) * 64 + sub(p)).min(cap)
}

struct Run<'a> {
    kind: Kind,
    d: Box<dyn Dut>,
    m: Model,
    b: &'a mut Bufs,
    rep: &'a mut Rep,
    dig: Fnv,
    log: Vec<String>,
    cfg: &'a Cfg,
}

impl Run<'_> {
    fn fail<T>(&self, what: String) -> Result<T, Bad> {
        let n = self.log.len();
        let tail = self.log[n.saturating_sub(12)..].join("; ");
        viol(format!("{:?}: {what} [history ({n} ops): {tail}]", self.kind))
    }
    fn wrap<T>(&self, r: Result<T, crate::rep::PanicAt>) -> Result<T, Bad> {
        match r {
            Ok(v) => Ok(v),
            Err(p) => match Bad::from(p) {
                Bad::Violation(s) => self.fail(s),
                b => Err(b),
            },
        }
    }

    fn apply(&mut self, p: &mut P, e: Entry, len: usize) -> Result<(), Bad> {
        let (ao, ai) = (p.below(64) as usize, p.below(64) as usize);
        let fits = self.m.fits(len);
        // unchecked entry points are only specified while keystream remains
        let e = if !fits && e.unchecked() { Entry::TryApply } else { e };
        self.log.push(format!("{e:?} len={len} at pos={} align={ao},{ai}", self.m.pos));
        let b = &mut *self.b;
        b.pre.resize(len, 0);
        if p.one_in(16) { b.pre.fill(0) } else { p.fill(&mut b.pre) }
        b.out.place(len, ao).copy_from_slice(&b.pre);
        let two = e.two_buffers();
        if two {
            b.pin.resize(len, 0);
            p.fill(&mut b.pin);
            b.inp.place(len, ai).copy_from_slice(&b.pin);
            b.inp.protect(true);
        } else {
            b.pin.clear();
            b.inp.place(0, 1);
        }
        // expectation
        let before = self.m.pos;
        b.exp.clear();
        if fits {
            b.exp.resize(len, 0);
            self.m.take(&mut b.exp);
            if !e.writes_raw() {
                let src = if two { &b.pin } else { &b.pre };
                for (x, y) in b.exp.iter_mut().zip(src) {
                    *x ^= *y;
                }
            }
        } else {
            b.exp.extend_from_slice(&b.pre);
        }
        let d = &mut self.d;
        let r = {
            let inp: *const [u8] = b.inp.slice();
            let out = b.out.slice();
            // SAFETY: two different regions.
            let inp = unsafe { &*inp };
            guarded(|| d.apply(e, inp, out))
        };
        if two {
            b.inp.protect(false);
        }
        let ok = match r {
            Ok(v) => v,
            Err(pn) if !fits && e.panics() && !pn.is_harness() => {
                self.rep.hit("exhausted: panicking entry panicked");
                false
            }
            Err(pn) => return self.wrap(Err(pn)),
        };
        let b = &mut *self.b;
        if ok != fits {
            let cap = self.m.cap;
            return self.fail(format!(
                "{e:?} of {len} bytes at position {before} {} although the keystream length is {cap:?}",
                if ok { "succeeded" } else { "was refused" }
            ));
        }
        if let Err(s) = b.out.check().and_then(|()| b.inp.check()) {
            return self.fail(format!("{e:?} of {len} bytes: {s}"));
        }
        if two {
            let got = b.inp.slice();
            if got != &b.pin[..] {
                return self.fail(format!("{e:?} changed its input buffer"));
            }
        }
        let got = b.out.slice();
        if self.cfg.model && got != &b.exp[..] {
            let s = diff(got, &b.exp);
            return self.fail(if fits {
                format!("{e:?} of {len} bytes at position {before}: output is not the specified keystream: {s}")
            } else {
                format!("{e:?} was refused but the output buffer changed: {s}")
            });
        }
        if self.cfg.model {
            self.dig.u(len as u64);
        } else {
            self.dig.bytes(got);
        }
        self.dig.u(u64::from(ok));
        if !fits {
            self.rep.hit("exhausted: request refused");
        } else {
            self.rep.add("bytes compared", len as u64);
            if self.kind.width() != 0 && len > 0 {
                let (b0, b1) = (before / 64, (before + len as u128 - 1) / 64);
                if b0 >> 32 != b1 >> 32 {
                    self.rep.hit("request crosses a 2^32-block boundary");
                }
                if before % 64 != 0 && b1 > b0 {
                    self.rep.hit("request starts inside a block and leaves it");
                }
                if self.m.cap == Some(self.m.pos) {
                    self.rep.hit("request ends exactly at the end of the keystream");
                }
            }
        }
        Ok(())
    }

    fn seek(&mut self, p: &mut P, pos: u128) -> Result<(), Bad> {
        let mut ty = *p.pick(TYS);
        let mut pos = pos;
        if pos > ty.max() || (self.cfg.portable && ty == Ty::Usize && pos > u128::from(u32::MAX)) {
            if p.one_in(3) && ty.max() < u128::from(u64::MAX) {
                pos = match p.below(3) {
                    0 => ty.max() - u128::from(p.below(200)),
                    _ => u128::from(p.next()) % ty.max(),
                };
                if self.cfg.portable && ty == Ty::Usize {
                    ty = Ty::U32;
                }
            } else {
                ty = if pos > u128::from(u64::MAX) { Ty::U128 } else { Ty::U64 };
            }
        }
        let fallible = !p.one_in(4);
        self.log.push(format!("seek {pos}:{ty:?}"));
        let valid = self.m.cap.is_some_and(|c| pos <= c);
        let d = &mut self.d;
        let ok = match guarded(|| d.seek(ty, pos, fallible)) {
            Ok(v) => v,
            Err(pn) if !valid && !fallible && !pn.is_harness() => false,
            Err(pn) => return self.wrap(Err(pn)),
        };
        if ok != valid {
            return self.fail(format!(
                "seek to {pos} ({ty:?}) {} although positions run to {:?}",
                if ok { "succeeded" } else { "was refused" },
                self.m.cap
            ));
        }
        self.dig.u(u64::from(ok));
        self.rep.hit(if ok { "seeks accepted" } else { "seeks refused" });
        if ok {
            self.m.pos = pos;
        }
        Ok(())
    }

    fn pos(&mut self, p: &mut P) -> Result<(), Bad> {
        let mut ty = *p.pick(TYS);
        if self.cfg.portable && ty == Ty::Usize {
            ty = Ty::U64;
        }
        let fallible = !p.one_in(3);
        self.log.push(format!("pos:{ty:?}"));
        let want = self.m.pos;
        let d = &self.d;
        let got = match guarded(|| d.pos(ty, fallible)) {
            Ok(v) => v,
            // the panicking form reports an unrepresentable position
            Err(pn) if !fallible && !pn.is_harness() && pn.msg.contains("represented") => None,
            Err(pn) => return self.wrap(Err(pn)),
        };
        // A position is representable when it fits the type. The trait computes it
        // from the end of the current block, so the last block below the type's
        // maximum may legitimately be refused.
        let blk_end = want.div_ceil(64) * 64;
        let must = blk_end <= ty.max();
        match got {
            Some(g) if g != want => {
                return self.fail(format!("current position ({ty:?}) is reported as {g}, it is {want}"));
            }
            None if must => {
                return self.fail(format!("current position {want} was refused as {ty:?}"));
            }
            None => self.rep.hit("positions not representable"),
            Some(_) => self.rep.hit("positions compared"),
        }
        self.dig.u(got.unwrap_or(u128::MAX) as u64);
        Ok(())
    }

    fn check(&mut self, p: &mut P) -> Result<(), Bad> {
        let lim: u128 = if self.cfg.portable { u32::MAX.into() } else { usize::MAX as u128 };
        let n = match (self.m.cap, p.below(4)) {
            (Some(c), 0..=2) => {
                let rem = c - self.m.pos;
                let j = u128::from(p.below(130));
                (if p.one_in(2) { rem.saturating_sub(j) } else { rem.saturating_add(j) }).min(lim)
            }
            _ => u128::from(p.edge64()).min(lim),
        } as usize;
        self.log.push(format!("check_remaining({n})"));
        let want = self.m.fits(n);
        let d = &self.d;
        let got = self.wrap(guarded(|| d.check(n)))?;
        if got != want {
            return self.fail(format!(
                "check_remaining({n}) at position {} says {got}, keystream length {:?}",
                self.m.pos, self.m.cap
            ));
        }
        self.dig.u(u64::from(got));
        self.rep.hit(if got { "remaining: yes" } else { "remaining: no" });
        Ok(())
    }

    /// Buffers of different lengths are refused and nothing happens.
    fn mismatch(&mut self, p: &mut P) -> Result<(), Bad> {
        let a = p.us(0, 200);
        let mut c = p.us(0, 200);
        if a == c {
            c += 1;
        }
        let e = *p.pick(&[Entry::TryB2b, Entry::B2b, Entry::UB2b]);
        self.log.push(format!("{e:?} in={a} out={c}"));
        let b = &mut *self.b;
        b.pre.resize(c, 0);
        p.fill(&mut b.pre);
        b.out.place(c, 0).copy_from_slice(&b.pre);
        b.inp.place(a, 1).fill(7);
        let d = &mut self.d;
        let inp: *const [u8] = b.inp.slice();
        let out = b.out.slice();
        // SAFETY: two different regions.
        let r = guarded(|| d.apply(e, unsafe { &*inp }, out));
        match r {
            Ok(false) => {}
            Ok(true) => return self.fail(format!("{e:?} accepted {a} input bytes for {c} output bytes")),
            Err(pn) if e == Entry::B2b && !pn.is_harness() => {}
            Err(pn) => return self.wrap(Err(pn)),
        }
        let b = &mut *self.b;
        if b.out.slice() != &b.pre[..] || b.out.check().is_err() {
            return self.fail(format!("{e:?} with mismatched lengths modified its output"));
        }
        self.rep.hit("mismatched lengths refused");
        Ok(())
    }
}

pub fn run_case(case: u64, cfg: &Cfg, b: &mut Bufs, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(&cfg.kinds);
    let end = kind.cap().is_some() && p.below(100) < cfg.end;
    let (key, iv) = material(&mut p, kind, end);
    let ctor = *p.pick(&[Ctor::New, Ctor::New, Ctor::Slices, Ctor::FromCore]);
    let d = match guarded(|| dut::build(kind, ctor, &key, &iv)) {
        Ok(Some(d)) => d,
        Ok(None) => return Err(Bad::Harness(format!("{kind:?} is not compiled in"))),
        Err(pn) => return Err(pn.into()),
    };
    let (ks, pos) = kind.model(&key, &iv);
    let mut r = Run {
        kind,
        d,
        m: Model { ks: if cfg.model { Some(ks) } else { None }, pos, cap: kind.cap() },
        b,
        rep,
        dig: Fnv::default(),
        log: Vec::new(),
        cfg,
    };
    r.log.push(format!("{ctor:?} key={} iv={}", hexs(&key), hexs(&iv)));
    let seekable = kind.seekable();
    if seekable && (end || p.one_in(2)) {
        let q = position(&mut p, kind, end);
        r.seek(&mut p, q)?;
    }
    let n = p.us(1, cfg.ops);
    for _ in 0..n {
        let roll = p.below(100);
        if seekable && roll < cfg.seek {
            let q = match p.below(8) {
                // nearby: forwards or backwards
                0 => r.m.pos.saturating_sub(u128::from(p.below(300))),
                1 => r.m.pos + u128::from(p.below(300)),
                2 => r.m.pos,
                _ => position(&mut p, kind, end),
            };
            r.seek(&mut p, q)?;
        } else if roll < cfg.seek + cfg.query {
            match p.below(4) {
                0 => r.mismatch(&mut p)?,
                1 => r.check(&mut p)?,
                2 if seekable => r.pos(&mut p)?,
                _ if seekable => r.pos(&mut p)?,
                _ => r.check(&mut p)?,
            }
        } else {
            let mut len = p.length(kind.block(), cfg.big);
            if let Some(c) = r.m.cap {
                let rem = c - r.m.pos;
                if rem < 1 << 13 && p.one_in(2) {
                    let rem = rem as usize;
                    len = match p.below(5) {
                        0 => rem,
                        1 => rem + 1,
                        2 => rem.saturating_sub(p.below(70) as usize),
                        3 => rem + p.below(200) as usize,
                        _ => len,
                    };
                }
            }
            let e = *p.pick(ENTRIES);
            r.apply(&mut p, e, len)?;
        }
    }
    // final observations
    if seekable {
        r.pos(&mut p)?;
    }
    r.check(&mut p)?;
    let l = p.us(1, 70);
    r.apply(&mut p, Entry::TryWrite, l)?;
    if seekable {
        r.pos(&mut p)?;
    }
    let (dig, log) = (r.dig.0, std::mem::take(&mut r.log));
    drop(r);
    rep.evaluations += 1;
    rep.hit(&format!("cases {kind:?}"));
    let mut f = Fnv::default();
    for l in &log {
        f.bytes(l.as_bytes());
    }
    if log.len() >= 3 {
        rep.distinct.insert(f.0);
    }
    rep.sample(|| format!("{kind:?}: {}", log.join("; ")));
    if !cfg.model {
        rep.transcript.push((case, dig));
    }
    Ok(())
}

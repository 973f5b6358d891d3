//! Request-shape monitor. The oracle is a second instance of the same cipher
//! that serves the whole range with one keystream request; the instance under
//! observation serves it through an arbitrary sequence of requests.

use crate::dut::{self, Ctor, ENTRIES, Entry, Kind, Ty};
use crate::hist::{Bufs, material, position};
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kinds: Vec<Kind>,
    pub big: usize,
}

pub fn run_case(case: u64, cfg: &Cfg, b: &mut Bufs, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(&cfg.kinds);
    let end = kind.cap().is_some() && p.one_in(10);
    let (key, iv) = material(&mut p, kind, end);
    let mk = |c: Ctor| -> Result<Box<dyn dut::Dut>, Bad> {
        match guarded(|| dut::build(kind, c, &key, &iv)) {
            Ok(Some(d)) => Ok(d),
            Ok(None) => Err(Bad::Harness(format!("{kind:?} is not compiled in"))),
            Err(e) => Err(e.into()),
        }
    };
    let mut one = mk(Ctor::New)?;
    let mut many = mk(*p.pick(&[Ctor::New, Ctor::Slices, Ctor::FromCore]))?;
    let mut back = mk(Ctor::New)?;
    let bs = kind.block();
    let mut total = match p.below(6) {
        0 => p.us(0, 4 * bs),
        1 => p.us(0, cfg.big),
        _ => p.us(0, 40 * bs + 300),
    };
    let style = p.below(5);
    match style {
        0 => total = total.min(p.us(0, 400)),
        1 => total = total.min(40 * bs + 100),
        _ => {}
    }
    let mut start = 0u128;
    let mut log = vec![format!("key={} iv={}", hexs(&key), hexs(&iv))];
    macro_rules! fail {
        ($($a:tt)*) => {{
            let n = log.len();
            return viol(format!("{kind:?}: {} [{n} steps: {}]", format!($($a)*), log[n.saturating_sub(14)..].join("; ")));
        }};
    }
    macro_rules! g {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(v) => v,
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => fail!("panic at {}:{}: {}", pn.file, pn.line, pn.msg),
            }
        };
    }
    if kind.seekable() && (kind.is_raw() || p.one_in(2)) {
        let cap = kind.cap().expect("harness: cap");
        start = position(&mut p, kind, end).min(cap);
        total = total.min(usize::try_from(cap - start).unwrap_or(usize::MAX));
        log.push(format!("start={start} total={total}"));
        for d in [&mut one, &mut many, &mut back] {
            if !g!(d.seek(Ty::U128, start, true)) {
                fail!("seek to {start} was refused");
            }
        }
    } else {
        log.push(format!("total={total}"));
    }
    let mut ks = vec![0u8; total];
    if !g!(one.apply(Entry::TryWrite, &[], &mut ks)) {
        fail!("one request for {total} bytes was refused");
    }
    let mut msg = vec![0u8; total];
    match p.below(4) {
        0 => {}
        1 => msg.fill(0xff),
        _ => p.fill(&mut msg),
    }
    let mut cipher = vec![0u8; total];
    let mut at = 0;
    while at < total || p.one_in(4) {
        let left = total - at;
        let n = match style {
            0 => p.us(0, 3),
            1 => p.us(0, bs + 1),
            2 => p.length(bs, cfg.big),
            3 => *p.pick(&[bs, 2 * bs, 4 * bs, 8 * bs, 16 * bs, bs - 1, bs + 1, 4 * bs + 1, 16 * bs + 5]),
            _ => left,
        }
        .min(left);
        let e = *p.pick(ENTRIES);
        let (ao, ai) = (p.us(0, 63), p.us(0, 63));
        log.push(format!("{e:?} {n} align={ao},{ai}"));
        let src = &msg[at..at + n];
        let out = b.out.place(n, ao);
        if e.two_buffers() {
            p.fill(out);
            b.inp.place(n, ai).copy_from_slice(src);
        } else {
            out.copy_from_slice(src);
            b.inp.place(0, 1);
        }
        let inp: *const [u8] = b.inp.slice();
        let out = b.out.slice();
        // SAFETY: two different regions.
        let ok = g!(many.apply(e, unsafe { &*inp }, out));
        if !ok {
            fail!("request of {n} bytes refused");
        }
        if let Err(s) = b.out.check().and_then(|()| b.inp.check()) {
            fail!("{e:?} of {n} bytes: {s}");
        }
        let got = b.out.slice();
        let want: Vec<u8> = if e.writes_raw() {
            ks[at..at + n].to_vec()
        } else {
            src.iter().zip(&ks[at..]).map(|(a, b)| a ^ b).collect()
        };
        if got != &want[..] {
            fail!("{e:?} of {n} bytes at offset {at} differs from the one-request keystream: {}", diff(got, &want));
        }
        for i in 0..n {
            cipher[at + i] = src[i] ^ ks[at + i];
        }
        if e.two_buffers() && b.inp.slice() != src {
            fail!("{e:?} changed its input");
        }
        at += n;
        rep.hit(&format!("requests {e:?}"));
    }
    // applying the keystream to the ciphertext returns the message
    let mut at = 0;
    while at < total {
        let n = (p.length(bs, cfg.big)).min(total - at).max(1);
        if !g!(back.apply(Entry::TryApply, &[], &mut cipher[at..at + n])) {
            fail!("request of {n} bytes refused when decrypting");
        }
        at += n;
    }
    if cipher != msg {
        fail!("decryption does not return the message: {}", diff(&cipher, &msg));
    }
    if kind.seekable() {
        for d in [&one, &many, &back] {
            let q = g!(d.pos(Ty::U128, true));
            if q != Some(start + total as u128) {
                fail!("after {total} bytes from {start} the position is {q:?}");
            }
        }
    }
    // the three instances continue identically
    let cont = if let Some(c) = kind.cap() { 150.min(c - start - total as u128) as usize } else { 150 };
    let mut t = [[0u8; 150]; 3];
    for (d, o) in [&mut one, &mut many, &mut back].into_iter().zip(&mut t) {
        if !g!(d.apply(Entry::TryWrite, &[], &mut o[..cont])) {
            fail!("continuation refused");
        }
    }
    if t[0] != t[1] || t[0] != t[2] {
        fail!("instances continue differently after the same number of bytes");
    }
    // mismatched lengths
    let (x, y) = (p.us(0, 150), p.us(0, 150));
    if x != y {
        let mut o = vec![0x5a; y];
        let i = vec![1u8; x];
        for e in [Entry::TryB2b, Entry::UB2b] {
            if g!(many.apply(e, &i, &mut o)) || o.iter().any(|v| *v != 0x5a) {
                fail!("{e:?} with {x} input and {y} output bytes was accepted or wrote output");
            }
        }
        if let Ok(true) = guarded(|| many.apply(Entry::B2b, &i, &mut o)) {
            fail!("B2b with {x} input and {y} output bytes was accepted");
        }
        rep.hit("mismatched lengths refused");
    }
    rep.add("bytes compared", total as u64);
    rep.evaluations += 1;
    rep.hit(&format!("cases {kind:?}"));
    let mut f = Fnv::default();
    for l in &log {
        f.bytes(l.as_bytes());
    }
    rep.distinct.insert(f.0);
    rep.sample(|| format!("{kind:?}: {}", log.join("; ")));
    Ok(())
}

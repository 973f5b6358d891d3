//! Smaller lockstep monitors: the HChaCha / HSalsa functions, long sequential
//! streams, and the RNG block generator.

use crate::dut::{self, Ctor, ENTRIES, Kind};
use crate::hist::material;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

/// HChaCha / HSalsa of the variant's round count.
pub fn subkey(kind: Kind, key: &[u8], inp: &[u8]) -> Option<[u8; 32]> {
    #[allow(unused_variables)]
    let k: &cipher::array::Array<u8, cipher::consts::U32> = key.try_into().expect("harness: key length");
    #[allow(unused_variables)]
    let i: &cipher::array::Array<u8, cipher::consts::U16> = inp[..16].try_into().expect("harness: input length");
    Some(match kind {
        #[cfg(feature = "cc")]
        Kind::XChaCha8 => chacha20::hchacha::<chacha20::R8>(k, i).into(),
        #[cfg(feature = "cc")]
        Kind::XChaCha12 => chacha20::hchacha::<chacha20::R12>(k, i).into(),
        #[cfg(feature = "cc")]
        Kind::XChaCha20 => chacha20::hchacha::<chacha20::R20>(k, i).into(),
        #[cfg(feature = "others")]
        Kind::XSalsa8 | Kind::Raw8 => salsa20::hsalsa::<cipher::consts::U4>(k, i).into(),
        #[cfg(feature = "others")]
        Kind::XSalsa12 | Kind::Raw12 => salsa20::hsalsa::<cipher::consts::U6>(k, i).into(),
        #[cfg(feature = "others")]
        Kind::XSalsa20 | Kind::Raw20 => salsa20::hsalsa::<cipher::consts::U10>(k, i).into(),
        _ => return None,
    })
}

/// HChaCha / HSalsa
pub fn hfun_case(case: u64, kinds: &[Kind], rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(kinds);
    let mut key = [0u8; 32];
    let mut inp = [0u8; 16];
    p.material(&mut key);
    p.material(&mut inp);
    let r = kind.rounds();
    let got: Result<[u8; 32], _> = guarded(|| subkey(kind, &key, &inp).expect("harness: no such function"));
    let got = got.map_err(Bad::from)?;
    let want = match kind {
        Kind::XChaCha8 | Kind::XChaCha12 | Kind::XChaCha20 => crate::model::hchacha(&key, &inp, r),
        _ => crate::model::hsalsa(&key, &inp, r),
    };
    if got != want {
        return viol(format!(
            "subkey function of {kind:?}: key={} input={}: {}",
            hexs(&key),
            hexs(&inp),
            diff(&got, &want)
        ));
    }
    let mut f = Fnv::default();
    f.bytes(&key);
    f.bytes(&inp);
    f.u(r.into());
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    rep.hit(&format!("subkeys {kind:?}"));
    Ok(())
}

/// Rabbit with secrets that drive the counter system into its rare states.
pub fn redge_case(case: u64, kinds: &[Kind], rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(kinds);
    let (mut key, mut iv) = material(&mut p, kind, false);
    match kind {
        Kind::Rabbit => crate::model::Rabbit::edge(&mut p, &mut key, &mut iv, true),
        Kind::RabbitKey => crate::model::Rabbit::edge(&mut p, &mut key, &mut [0; 8], false),
        _ => return Err(Bad::Harness("redge is about Rabbit".into())),
    }
    let Some(mut d) = guarded(|| dut::build(kind, Ctor::New, &key, &iv))? else {
        return Err(Bad::Harness(format!("{kind:?} is not compiled in")));
    };
    let (mut ks, _) = kind.model(&key, &iv);
    let (mut o, mut x) = ([0u8; 160], [0u8; 160]);
    let e = *p.pick(ENTRIES);
    let ok = guarded(|| d.apply(e, &[0u8; 160], &mut o))?;
    ks.next(&mut x);
    if !ok || o != x {
        return viol(format!("{kind:?} key={} iv={}: {e:?} of 160 bytes: {}", hexs(&key), hexs(&iv), diff(&o, &x)));
    }
    if let crate::model::Ks::Rabbit(r) = &ks {
        rep.add("Rabbit updates in states of probability 2^-30", r.rare);
    }
    rep.evaluations += 1;
    let mut f = Fnv::default();
    f.bytes(&key);
    f.bytes(&iv);
    f.u(kind as u64);
    rep.distinct.insert(f.0);
    Ok(())
}

/// One long stream in random requests.
pub fn long_case(case: u64, kinds: &[Kind], total: usize, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(kinds);
    let (key, iv) = material(&mut p, kind, false);
    let mut d = match guarded(|| dut::build(kind, Ctor::New, &key, &iv)) {
        Ok(Some(d)) => d,
        Ok(None) => return Err(Bad::Harness(format!("{kind:?} is not compiled in"))),
        Err(e) => return Err(e.into()),
    };
    let (mut ks, pos0) = kind.model(&key, &iv);
    let cap = kind.cap().map_or(usize::MAX, |c| usize::try_from(c - pos0).unwrap_or(usize::MAX));
    let total = total.min(cap);
    let mut at = 0usize;
    let mut buf = vec![0u8; 1 << 17];
    let mut exp = vec![0u8; 1 << 17];
    while at < total {
        let n = match p.below(6) {
            0 => p.us(1, 100),
            1 => p.length(kind.block(), 1 << 16),
            2 => kind.block() * p.us(1, 64),
            _ => p.us(1, 1 << 17),
        }
        .min(total - at);
        let e = *p.pick(ENTRIES);
        let (o, x) = (&mut buf[..n], &mut exp[..n]);
        o.fill(0);
        let zero = [0u8; 1 << 17];
        let ok = match guarded(|| d.apply(e, &zero[..n], o)) {
            Ok(v) => v,
            Err(pn) => return Err(pn.into()),
        };
        if ks.seq() {
            ks.next(x);
        } else {
            ks.at(pos0 + at as u128, x);
        }
        if !ok || o != x {
            return viol(format!(
                "{kind:?} key={} iv={}: {e:?} of {n} bytes at offset {at} of a long stream: {}",
                hexs(&key),
                hexs(&iv),
                if ok { diff(o, x) } else { "refused".into() }
            ));
        }
        at += n;
    }
    if let crate::model::Ks::Rabbit(r) = &ks {
        rep.add("Rabbit counter updates", r.updates);
        rep.add("Rabbit counter carries", r.carries);
    }
    rep.add("long stream bytes", total as u64);
    rep.evaluations += 1;
    rep.hit(&format!("long streams {kind:?}"));
    let mut f = Fnv::default();
    f.bytes(&key);
    f.bytes(&iv);
    f.u(kind as u64);
    rep.distinct.insert(f.0);
    Ok(())
}

/// The RNG block generator: four blocks per call, position kept by the core.
#[cfg(feature = "rng")]
pub fn gen_case(case: u64, rep: &mut Rep) -> Result<(), Bad> {
    use chacha20::variants::{Ietf, Legacy, Variant};
    use chacha20::{ChaChaCore, R8, R12, R20, Rounds};
    use rand_core::{SeedableRng, block::Generator};

    fn go<R: Rounds, V: Variant>(p: &mut P, rounds: u32, wide: bool, rep: &mut Rep) -> Result<(), Bad>
    where
        V::Counter: TryFrom<u64> + TryInto<u64>,
    {
        let mut seed = [0u8; 32];
        p.material(&mut seed);
        let mut c = guarded(|| ChaChaCore::<R, V>::from_seed(seed)).map_err(Bad::from)?;
        let mask = if wide { u64::MAX } else { u32::MAX.into() };
        let mut blk = 0u64;
        let mut log = vec![format!("rounds={rounds} wide={wide} seed={}", hexs(&seed))];
        for _ in 0..p.us(1, 8) {
            if p.one_in(2) {
                blk = if wide { p.edge64() } else { p.edge32().into() };
                log.push(format!("set_block_pos {blk}"));
                let v = V::Counter::try_from(blk).unwrap_or_else(|_| panic!("harness: counter"));
                guarded(|| c.set_block_pos(v)).map_err(Bad::from)?;
            }
            let mut buf = [0xdead_beefu32; 64];
            guarded(|| c.generate(&mut buf)).map_err(Bad::from)?;
            log.push(format!("generate at {blk}"));
            for i in 0..4u64 {
                let b = blk.wrapping_add(i) & mask;
                let want = if wide {
                    crate::model::chacha_djb_block(&seed, &[0; 8], b, rounds)
                } else {
                    crate::model::chacha_ietf_block(&seed, &[0; 12], b as u32, rounds)
                };
                if buf[16 * i as usize..16 * i as usize + 16] != want {
                    return viol(format!("generated block {i} from {blk} is not keystream block {b} [{}]", log.join("; ")));
                }
            }
            if blk.wrapping_add(4) & mask < blk {
                rep.hit("generator calls through the counter maximum");
            }
            blk = blk.wrapping_add(4) & mask;
            let got: u64 = c.get_block_pos().try_into().unwrap_or_else(|_| panic!("harness: counter"));
            if got != blk {
                return viol(format!("block position is {got} after generating, {blk} expected [{}]", log.join("; ")));
            }
            rep.hit("generator calls");
        }
        let mut f = Fnv::default();
        for l in &log {
            f.bytes(l.as_bytes());
        }
        rep.distinct.insert(f.0);
        rep.evaluations += 1;
        Ok(())
    }
    let mut p = P::new(case);
    match p.below(6) {
        0 => go::<R8, Legacy>(&mut p, 8, true, rep),
        1 => go::<R12, Legacy>(&mut p, 12, true, rep),
        2 => go::<R20, Legacy>(&mut p, 20, true, rep),
        3 => go::<R8, Ietf>(&mut p, 8, false, rep),
        4 => go::<R12, Ietf>(&mut p, 12, false, rep),
        _ => go::<R20, Ietf>(&mut p, 20, false, rep),
    }
}

/// Single requests of several MiB (more than 65536 blocks of every cipher);
/// with `huge`, of more than 2^32 bytes.
pub fn huge_case(case: u64, kinds: &[Kind], huge: u64, rng: bool, twin: bool, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let mut kinds: Vec<Kind> = kinds.to_vec();
    if huge > 0 {
        // one of each block size that is fast enough
        kinds.retain(|k| matches!(k, Kind::ChaCha8 | Kind::Legacy | Kind::XChaCha8 | Kind::Salsa8 | Kind::Rc4 | Kind::Rabbit | Kind::Hc256));
    }
    let use_rng = cfg!(feature = "rng") && rng && huge == 0 && (kinds.is_empty() || p.one_in(5));
    if kinds.is_empty() && !use_rng {
        return Err(Bad::Harness("no kinds for this engine".into()));
    }
    let kind = if kinds.is_empty() { Kind::ChaCha8 } else { *p.pick(&kinds) };
    let most = if huge > 0 { (1u64 << 32) + p.range(1, 1 << 20) } else { p.range(4 << 20, 20 << 20) } as usize;
    let n = match kind.block() {
        _ if huge > 0 => most,
        64 => (most / 64 * 64) + *p.pick(&[0usize, 0, 1, 63, 17]),
        16 => most / 4,
        4 => most / 8,
        _ => most / 16,
    };
    #[cfg(feature = "rng")]
    if use_rng {
        let mut seed = [0u8; 32];
        p.material(&mut seed);
        let rounds = *p.pick(&[8u32, 12, 20]);
        let n = (most / 64 * 64) + *p.pick(&[0usize, 0, 1, 63, 17, 252, 4]);
        let mut d = guarded(|| crate::rngh::build(rounds, seed)).map_err(Bad::from)?;
        let (s, w) = (p.edge64(), u128::from(p.edge64()) * 16 + u128::from(p.below(16)));
        guarded(|| d.set_stream(s)).map_err(Bad::from)?;
        guarded(|| d.set_word_pos(w)).map_err(Bad::from)?;
        let mut o = vec![0u8; n];
        let tr = p.one_in(2);
        guarded(|| d.fill(tr, &mut o)).map_err(Bad::from)?;
        let ks = crate::model::Ks::chacha_djb(&seed, &s.to_le_bytes(), rounds);
        let mut x = vec![0u8; n];
        ks.at(w * 4, &mut x);
        let who = format!("ChaCha{rounds}Rng seed={} stream={s} word position={w}", hexs(&seed));
        if o != x {
            return viol(format!("{who}: one fill of {n} bytes: {}", diff(&o, &x)));
        }
        let (got, want) = (d.word_pos(), (w + n.div_ceil(4) as u128) & ((1 << 68) - 1));
        if got != want {
            return viol(format!("{who}: word position {got} after one fill of {n} bytes, {want} expected"));
        }
        rep.evaluations += 1;
        rep.hit("fills of several MiB");
        let mut f = Fnv::default();
        f.bytes(who.as_bytes());
        f.u(n as u64);
        rep.distinct.insert(f.0);
        return Ok(());
    }
    let (key, iv) = material(&mut p, kind, false);
    let c = *p.pick(&[Ctor::New, Ctor::Slices, Ctor::FromCore]);
    let mut d = match guarded(|| dut::build(kind, c, &key, &iv)) {
        Ok(Some(d)) => d,
        Ok(None) => return Err(Bad::Harness(format!("{kind:?} is not compiled in"))),
        Err(e) => return Err(e.into()),
    };
    let (mut ks, mut pos) = kind.model(&key, &iv);
    if kind.seekable() && p.one_in(2) {
        let cap = kind.cap().unwrap_or(u128::MAX >> 1).min(u64::MAX.into());
        let room = cap.saturating_sub(n as u128);
        pos = match p.below(4) {
            0 => room,
            1 => room - u128::from(p.below(300)).min(room),
            2 => u128::from(p.edge64()).min(room) / 64 * 64,
            _ => u128::from(p.edge64()).min(room),
        };
        // in block terms the counter must not have passed its maximum
        match guarded(|| d.seek(dut::Ty::U128, pos, true)) {
            Ok(true) => {}
            Ok(false) => return viol(format!("{kind:?}: refused to seek to {pos}")),
            Err(e) => return Err(e.into()),
        }
    } else if kind.cap().is_some_and(|c| c - pos < n as u128) {
        return Ok(());
    }
    let e = *p.pick(ENTRIES);
    let e = if huge > 0 { dut::Entry::TryApply } else { e };
    let inp = if huge > 0 { Vec::new() } else { vec![0u8; n] };
    let mut o = vec![0u8; n];
    let ok = match guarded(|| d.apply(e, &inp, &mut o)) {
        Ok(v) => v,
        Err(pn) => return Err(pn.into()),
    };
    let who = format!("{kind:?} key={} iv={} {e:?} of {n} bytes at {pos}", hexs(&key), hexs(&iv));
    if !ok {
        return viol(format!("{who}: refused"));
    }
    // the judge is the model, or the same cipher asked in small pieces
    let mut other = None;
    if twin {
        let mut t = guarded(|| dut::build(kind, Ctor::New, &key, &iv)).map_err(Bad::from)?.expect("harness: built before");
        if kind.seekable() && !guarded(|| t.seek(dut::Ty::U128, pos, true)).map_err(Bad::from)? {
            return viol(format!("{who}: a second instance refused to seek there"));
        }
        other = Some(t);
    }
    let mut x = vec![0u8; 1 << 20];
    for (i, ch) in o.chunks(1 << 20).enumerate() {
        let at = i << 20;
        let x = &mut x[..ch.len()];
        if let Some(t) = &mut other {
            x.fill(0);
            let mut done = 0;
            while done < x.len() {
                let m = p.us(1, 100_000).min(x.len() - done);
                if !guarded(|| t.apply(dut::Entry::TryApply, &[], &mut x[done..done + m])).map_err(Bad::from)? {
                    return viol(format!("{who}: in pieces it is refused at byte {}", at + done));
                }
                done += m;
            }
        } else if ks.seq() {
            ks.next(x);
        } else if huge == 0 || i % 64 == 0 || at + (4 << 20) > n {
            ks.at(pos + at as u128, x);
        } else {
            continue;
        }
        if ch != x {
            return viol(format!("{who}: from byte {at} of the request: {}", diff(ch, x)));
        }
    }
    if kind.seekable() {
        let want = pos + n as u128;
        let got = guarded(|| d.pos(dut::Ty::U128, true)).map_err(Bad::from)?;
        if got != Some(want) {
            return viol(format!("{who}: position {got:?} afterwards, {want} expected"));
        }
    }
    // and the stream goes on
    if kind.cap().is_none_or(|c| c - pos >= n as u128 + 100) {
        let (mut a, mut b) = ([0u8; 100], [0u8; 100]);
        match guarded(|| d.apply(dut::Entry::TryApply, &[], &mut a)) {
            Ok(true) => {}
            Ok(false) => return viol(format!("{who}: the next request was refused")),
            Err(pn) => return Err(pn.into()),
        }
        if let Some(t) = &mut other {
            b.fill(0);
            guarded(|| t.apply(dut::Entry::TryApply, &[], &mut b)).map_err(Bad::from)?;
        } else if ks.seq() {
            ks.next(&mut b);
        } else {
            ks.at(pos + n as u128, &mut b);
        }
        if a != b {
            return viol(format!("{who}: the request after it: {}", diff(&a, &b)));
        }
    }
    rep.evaluations += 1;
    rep.hit(&format!("{} {kind:?}", if huge > 0 { "requests of more than 2^32 bytes" } else { "requests of several MiB" }));
    rep.add("bytes in single requests", n as u64);
    let mut f = Fnv::default();
    f.bytes(who.as_bytes());
    rep.distinct.insert(f.0);
    Ok(())
}

/// The generic round counts: every public generic type and function with round
/// counts other than the named ones.
/// `only`: the ways to use (one digit each).
pub fn rounds_case(case: u64, only: &str, rep: &mut Rep) -> Result<(), Bad> {
    use crate::model::Ks;
    #[allow(unused_mut)]
    let mut p = P::new(case);
    #[allow(unused_mut)]
    let mut ways: Vec<u32> = Vec::new();
    #[cfg(feature = "cc")]
    ways.extend([0, 1]);
    // built through its RNG seed (the named type is the only one with a nonce)
    #[cfg(all(feature = "cc", feature = "rng"))]
    ways.push(2);
    #[cfg(feature = "others")]
    ways.extend([3, 4, 5, 6]);
    ways.retain(|w| only.contains(&w.to_string()));
    if ways.is_empty() {
        return Err(Bad::Harness("no generic types are compiled in".into()));
    }
    let way = *p.pick(&ways);
    let (mut key, mut inp) = ([0u8; 32], [0u8; 24]);
    p.material(&mut key);
    p.material(&mut inp);
    let mut state = [0u32; 16];
    for w in &mut state {
        *w = p.edge32();
    }
    /// what is compared with the model
    enum Got {
        Fun([u8; 32], [u8; 32]),
        Cipher(Box<dyn dut::Dut>, Ks, u128, bool),
    }
    let which = p.below(8);
    let mut who = String::new();
    let got = guarded(|| -> Option<Got> {
        #[cfg(feature = "cc")]
        macro_rules! cc {
            ($($i:literal $n:literal),*) => {{
                use chacha20::{ChaChaCore, Rounds, variants::Ietf};
                $(if which == $i {
                    #[derive(Clone, Copy)]
                    struct R;
                    impl Rounds for R {
                        const COUNT: usize = $n;
                    }
                    let r = 2 * $n;
                    who = format!("{r} rounds, case {way}");
                    let k = (&key).into();
                    return Some(match way {
                        0 => Got::Fun(
                            chacha20::hchacha::<R>(k, inp[..16].try_into().expect("harness: 16")).into(),
                            crate::model::hchacha(&key, &inp[..16], r),
                        ),
                        1 => {
                            let c: ChaChaCore<R, Ietf> =
                                cipher::KeyIvInit::new(k, inp[..12].try_into().expect("harness: 12"));
                            let w = cipher::StreamCipherCoreWrapper::from_core(c);
                            Got::Cipher(dut::boxed_seek(w), Ks::chacha_ietf(&key, &inp[..12], r), 0, false)
                        }
                        #[cfg(not(feature = "rng"))]
                        _ => return None,
                        #[cfg(feature = "rng")]
                        _ => {
                            let c: ChaChaCore<R, chacha20::variants::Legacy> = rand_core::SeedableRng::from_seed(key);
                            let w = cipher::StreamCipherCoreWrapper::from_core(c);
                            Got::Cipher(dut::boxed_seek(w), Ks::chacha_djb(&key, &[0; 8], r), 0, true)
                        }
                    });
                })*
                None
            }};
        }
        #[cfg(feature = "others")]
        macro_rules! sa {
            ($($i:literal $n:literal $u:ident),*) => {{
                use salsa20::{SalsaCore, XSalsaCore};
                $(if which == $i {
                    type R = cipher::consts::$u;
                    let r = 2 * $n;
                    who = format!("{r} rounds, case {way}");
                    let k = (&key).into();
                    return Some(match way {
                        3 => Got::Fun(
                            salsa20::hsalsa::<R>(k, inp[..16].try_into().expect("harness: 16")).into(),
                            crate::model::hsalsa(&key, &inp[..16], r),
                        ),
                        4 => {
                            let c: SalsaCore<R> = cipher::KeyIvInit::new(k, inp[..8].try_into().expect("harness: 8"));
                            let w = cipher::StreamCipherCoreWrapper::from_core(c);
                            Got::Cipher(dut::boxed_seek(w), Ks::salsa(&key, &inp[..8], r), 0, true)
                        }
                        5 => {
                            let c: XSalsaCore<R> = cipher::KeyIvInit::new(k, (&inp).into());
                            let w = cipher::StreamCipherCoreWrapper::from_core(c);
                            Got::Cipher(dut::boxed_seek(w), Ks::xsalsa(&key, &inp, r), 0, true)
                        }
                        _ => {
                            let w = cipher::StreamCipherCoreWrapper::from_core(SalsaCore::<R>::from_raw_state(state));
                            let at = u128::from(state[8]) | u128::from(state[9]) << 32;
                            Got::Cipher(dut::boxed_seek(w), Ks::salsa_raw(state, r), at * 64, true)
                        }
                    });
                })*
                None
            }};
        }
        match way {
            #[cfg(feature = "cc")]
            0..=2 => cc!(0 1, 1 2, 2 3, 3 5, 4 7, 5 8, 6 16, 7 33),
            #[cfg(feature = "others")]
            3..=6 => sa!(0 1 U1, 1 2 U2, 2 3 U3, 3 5 U5, 4 7 U7, 5 8 U8, 6 16 U16, 7 33 U33),
            _ => None,
        }
    })
    .map_err(Bad::from)?;
    let who = format!("{who}: key={} input={} state={state:x?}", hexs(&key), hexs(&inp));
    match got {
        None => return Err(Bad::Harness("rounds: nothing built".into())),
        Some(Got::Fun(g, w)) => {
            if g != w {
                return viol(format!("subkey function of {who}: {}", diff(&g, &w)));
            }
            rep.hit("subkeys with other round counts");
        }
        Some(Got::Cipher(mut d, ks, mut pos, wide)) => {
            for i in 0..p.us(1, if cfg!(miri) { 2 } else { 5 }) {
                let end = if wide { u128::from(u64::MAX) * 64 } else { u128::from(u32::MAX) * 64 };
                let n = p.us(0, if cfg!(miri) { 300 } else { 1500 });
                if i > 0 || end - pos.min(end) < n as u128 {
                    let to = u128::from(if wide { p.edge64() } else { p.edge32().into() }) * 64 + u128::from(p.below(64));
                    pos = to.min(end - n as u128);
                    if !guarded(|| d.seek(dut::Ty::U128, pos, true)).map_err(Bad::from)? {
                        return viol(format!("{who}: seek to {pos} refused"));
                    }
                }
                let (inp, mut a, mut b) = (vec![0u8; n], vec![0u8; n], vec![0u8; n]);
                let e = *p.pick(ENTRIES);
                let ok = guarded(|| d.apply(e, &inp, &mut a)).map_err(Bad::from)?;
                ks.at(pos, &mut b);
                if !ok || a != b {
                    return viol(format!("{who}: {e:?} of {n} bytes at {pos}: {}", if ok { diff(&a, &b) } else { "refused".into() }));
                }
                pos += n as u128;
                let q = guarded(|| d.pos(dut::Ty::U128, true)).map_err(Bad::from)?;
                if q != Some(pos) {
                    return viol(format!("{who}: position {q:?}, {pos} expected"));
                }
            }
            rep.hit("ciphers with other round counts");
        }
    }
    let mut f = Fnv::default();
    f.bytes(who.as_bytes());
    f.u(p.next());
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    Ok(())
}

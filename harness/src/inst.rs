//! Monitors over every concrete public type: what Debug prints, and which
//! construction arguments are accepted.
#![allow(unused_variables, unused_macros, unused_imports, dead_code, unused_mut)]

use std::collections::BTreeMap;
use std::fmt::{Debug, Write};

use cipher::{
    AlgorithmName, BlockSizeUser, InnerIvInit, IvSizeUser, KeyInit, KeyIvInit, KeySizeUser, StreamCipher,
    StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeek,
};

use crate::dut::{Ctor, Dut, Kind, raw_state};
use crate::mem::Region;
use crate::prng::P;
use crate::rep::{Bad, Fnv, Rep, diff, guarded, hexs, viol};

/// Names the core types that are only reachable through a public alias.
pub trait CoreOf {
    type Core;
}
impl<C: StreamCipherCore> CoreOf for StreamCipherCoreWrapper<C>
where
    C::BlockSize: block_buffer::BlockSizes,
{
    type Core = C;
}
#[allow(type_alias_bounds)]
pub type Core<W: CoreOf> = <W as CoreOf>::Core;

// ---------------------------------------------------------------- Debug

/// Finds out (by autoref specialisation) whether a type can be printed.
pub struct Probe<'a, T>(pub &'a T);
pub trait Printed {
    fn texts(&self) -> Option<Vec<String>>;
}
impl<T: Debug> Printed for Probe<'_, T> {
    fn texts(&self) -> Option<Vec<String>> {
        let v = self.0;
        Some(vec![
            format!("{v:?}"),
            format!("{v:#?}"),
            format!("{v:x?}"),
            format!("{v:#X?}"),
            format!("{v:+?}"),
            format!("{v:06.3?}"),
            format!("{:?}", Some(v)),
        ])
    }
}
impl<T> Printed for &Probe<'_, T> {
    fn texts(&self) -> Option<Vec<String>> {
        None
    }
}
pub struct Name<T>(pub core::marker::PhantomData<T>);
pub trait Named {
    fn name(&self) -> Option<String>;
}
struct AlgName<T>(core::marker::PhantomData<T>);
impl<T: AlgorithmName> std::fmt::Display for AlgName<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        T::write_alg_name(f)
    }
}
impl<T: AlgorithmName> Named for Name<T> {
    fn name(&self) -> Option<String> {
        Some(AlgName::<T>(core::marker::PhantomData).to_string())
    }
}
impl<T> Named for &Name<T> {
    fn name(&self) -> Option<String> {
        None
    }
}

fn use_cipher<C: StreamCipher>(c: &mut C, p: &mut P) {
    for _ in 0..p.us(0, 4) {
        let mut b = vec![0u8; p.us(0, 200)];
        p.fill(&mut b);
        let _ = c.try_apply_keystream(&mut b);
    }
}
fn use_seek<C: StreamCipher + StreamCipherSeek>(c: &mut C, p: &mut P) {
    if p.one_in(2) {
        let pos = match p.below(3) {
            0 => p.edge128(),
            1 => u128::from(p.edge32()) * 64 + u128::from(p.below(64)),
            _ => u128::from(p.below(1000)),
        };
        let _ = c.try_seek(pos);
    }
    use_cipher(c, p);
}
fn use_core<C: StreamCipherCore>(c: &mut C, p: &mut P) {
    let mut b = cipher::Block::<C>::default();
    for _ in 0..p.us(0, 5) {
        c.write_keystream_block(&mut b);
    }
}

#[derive(Default)]
pub struct Seen(BTreeMap<(&'static str, usize), String>);

/// One instance with random secrets and history; its text must be the one
/// every other instance of the type has.
pub fn debug_case(case: u64, seen: &mut Seen, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let mut key = [0u8; 256];
    let mut iv = [0u8; 32];
    p.material(&mut key);
    p.material(&mut iv);
    let mut idx = 0u64;
    let which = p.below(48);
    macro_rules! one {
        ($name:expr, $make:expr, $use:expr) => {{
            if idx == which {
                let mut v = guarded(|| $make)?;
                guarded(|| $use(&mut v, &mut p))?;
                let got = guarded(|| (&Probe(&v)).texts())?;
                let alg = guarded(|| name_of!(&v))?;
                return judge($name, got, alg, seen, rep, &key, &iv);
            }
            idx += 1;
        }};
    }
    macro_rules! name_of {
        ($v:expr) => {{
            let n = name_for($v);
            (&n).name()
        }};
    }
    macro_rules! keyiv {
        ($($name:literal $kl:literal $nl:literal $use:ident $ty:ty;)*) => {$(
            one!($name, <$ty as KeyIvInit>::new_from_slices(&key[..$kl], &iv[..$nl]).expect("DUT: exact lengths refused"), $use);
            one!(concat!($name, " core"), <Core<$ty> as KeyIvInit>::new_from_slices(&key[..$kl], &iv[..$nl]).expect("DUT: exact lengths refused"), use_core);
        )*};
    }
    #[cfg(feature = "cc")]
    keyiv! {
        "ChaCha8" 32 12 use_seek chacha20::ChaCha8;
        "ChaCha12" 32 12 use_seek chacha20::ChaCha12;
        "ChaCha20" 32 12 use_seek chacha20::ChaCha20;
        "ChaCha20Legacy" 32 8 use_seek chacha20::ChaCha20Legacy;
        "XChaCha8" 32 24 use_seek chacha20::XChaCha8;
        "XChaCha12" 32 24 use_seek chacha20::XChaCha12;
        "XChaCha20" 32 24 use_seek chacha20::XChaCha20;
    }
    #[cfg(feature = "others")]
    keyiv! {
        "Salsa8" 32 8 use_seek salsa20::Salsa8;
        "Salsa12" 32 8 use_seek salsa20::Salsa12;
        "Salsa20" 32 8 use_seek salsa20::Salsa20;
        "XSalsa8" 32 24 use_seek salsa20::XSalsa8;
        "XSalsa12" 32 24 use_seek salsa20::XSalsa12;
        "XSalsa20" 32 24 use_seek salsa20::XSalsa20;
        "Hc256" 32 32 use_cipher hc_256::Hc256;
        "Rabbit" 16 8 use_cipher rabbit::Rabbit;
    }
    #[cfg(feature = "others")]
    {
        one!("RabbitKeyOnly", rabbit::RabbitKeyOnly::new_from_slice(&key[..16]).expect("DUT: exact length refused"), use_cipher);
        one!("RabbitKeyOnly core", rabbit::RabbitKeyOnlyCore::new_from_slice(&key[..16]).expect("DUT: exact length refused"), use_core);
        one!("Rc4", rc4::Rc4::new_from_slice(&key[..1 + (iv[0] as usize)]).expect("DUT: 1 to 256 bytes refused"), use_cipher);
        one!("SalsaCore raw", salsa20::SalsaCore::<cipher::consts::U10>::from_raw_state(raw_state(&key)), use_core);
    }
    #[cfg(feature = "rng")]
    {
        use rand_core::{Rng, SeedableRng, block::Generator};
        macro_rules! rng {
            ($($name:literal $t:ty;)*) => {$(
                one!($name, <$t>::from_seed(key[..32].try_into().expect("harness: seed")), |r: &mut $t, p: &mut P| {
                    if p.one_in(2) { r.set_stream(p.edge64()); }
                    if p.one_in(2) { r.set_word_pos(p.edge128()); }
                    for _ in 0..p.us(0, 5) { r.next_u32(); }
                    let mut b = vec![0u8; p.us(0, 300)];
                    r.fill_bytes(&mut b);
                });
            )*};
        }
        rng! { "ChaCha8Rng" chacha20::ChaCha8Rng; "ChaCha12Rng" chacha20::ChaCha12Rng; "ChaCha20Rng" chacha20::ChaCha20Rng; }
        macro_rules! genr {
            ($($name:literal $t:ty;)*) => {$(
                one!($name, <$t>::from_seed(key[..32].try_into().expect("harness: seed")), |r: &mut $t, p: &mut P| {
                    if p.one_in(2) { r.set_block_pos(p.edge64() as _); }
                    let mut o = [0u32; 64];
                    for _ in 0..p.us(0, 3) { r.generate(&mut o); }
                });
            )*};
        }
        genr! {
            "ChaChaCore<8, Legacy>" chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Legacy>;
            "ChaChaCore<20, Legacy>" chacha20::ChaChaCore<chacha20::R20, chacha20::variants::Legacy>;
            "ChaChaCore<12, Ietf>" chacha20::ChaChaCore<chacha20::R12, chacha20::variants::Ietf>;
        }
    }
    if idx <= which {
        // the case fell outside the list of this build
        rep.hit("draws outside the type list");
    }
    Ok(())
}

/// Only for type inference: the name probe of a value's type.
fn name_for<T>(_: &T) -> Name<T> {
    Name(core::marker::PhantomData)
}

fn judge(
    name: &'static str,
    got: Option<Vec<String>>,
    alg: Option<String>,
    seen: &mut Seen,
    rep: &mut Rep,
    key: &[u8],
    iv: &[u8],
) -> Result<(), Bad> {
    let n = got.as_ref().map_or(0, Vec::len);
    rep.hit(&format!("{} {name}", if n > 0 { "printed" } else { "no Debug:" }));
    let all = got.into_iter().flatten().chain(alg.map(|a| format!("algorithm name {a}")));
    for (i, t) in all.enumerate() {
        let e = seen.0.entry((name, i)).or_insert_with(|| t.clone());
        if *e != t {
            return viol(format!(
                "{name}: form {i} prints {t:?} for key={} iv={} and {e:?} for another instance",
                hexs(&key[..64]),
                hexs(iv)
            ));
        }
        rep.hit("texts compared");
    }
    let mut f = Fnv::default();
    f.bytes(name.as_bytes());
    f.bytes(key);
    if n > 0 {
        rep.distinct.insert(f.0);
        rep.sample(|| format!("{name}: {:?}", seen.0.get(&(name, 0))));
    }
    rep.evaluations += 1;
    Ok(())
}

// ---------------------------------------------------------------- construction

const TRY: usize = 300;

fn ks<C: StreamCipher>(mut c: C) -> Vec<u8> {
    let mut b = vec![0u8; TRY];
    c.apply_keystream(&mut b);
    b
}

pub struct Args {
    pub key: Region,
    pub iv: Region,
}

fn pick_len(p: &mut P, right: usize) -> usize {
    match p.below(8) {
        0 | 1 | 2 => right,
        3 => right + 1,
        4 => right.saturating_sub(1),
        5 => *p.pick(&[0usize, 1, 4, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 48, 64, 96, 128, 255, 256, 257, 258, 260, 272, 288, 512, 4096, 65536, 65568]),
        6 => p.us(0, 300),
        _ => p.us(0, 70),
    }
}

/// Construction with arbitrary lengths, through every path.
pub fn ctor_case(case: u64, kinds: &[Kind], a: &mut Args, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let kind = *p.pick(kinds);
    if kind.is_raw() {
        return Ok(());
    }
    let (rk, rn) = kind.sizes();
    let kl = if kind == Kind::Rc4 { pick_len(&mut p, 256) } else { pick_len(&mut p, rk) };
    let nl = if rn == 0 { 0 } else { pick_len(&mut p, rn) };
    let mut key0 = vec![0u8; kl];
    let mut iv0 = vec![0u8; nl];
    p.material(&mut key0);
    p.material(&mut iv0);
    let (ao, ai) = (p.us(0, 63), p.us(0, 63));
    a.key.place(kl, ao).copy_from_slice(&key0);
    a.iv.place(nl, ai).copy_from_slice(&iv0);
    let key: &[u8] = {
        let s = a.key.slice();
        // SAFETY: only reborrowed after the last use of `key`.
        unsafe { core::slice::from_raw_parts(s.as_ptr(), s.len()) }
    };
    let iv: &[u8] = {
        let s = a.iv.slice();
        // SAFETY: as above.
        unsafe { core::slice::from_raw_parts(s.as_ptr(), s.len()) }
    };
    let valid = if kind == Kind::Rc4 { (1..=256).contains(&kl) } else { kl == rk && nl == rn };
    let ctx = format!("{kind:?}: key of {kl} bytes, nonce of {nl} bytes");
    // every outcome: (path, accepted, keystream)
    let mut outs: Vec<(&'static str, bool, Option<Vec<u8>>)> = Vec::new();
    macro_rules! path {
        ($name:literal, $e:expr) => {{
            match guarded(|| $e.ok().map(ks)) {
                Ok(r) => outs.push(($name, r.is_some(), r)),
                Err(pn) if pn.is_harness() => return Err(pn.into()),
                Err(pn) => return viol(format!("{ctx}: {} panics at {}:{}: {} (key={} iv={})", $name, pn.file, pn.line, pn.msg, hexs(&key0), hexs(&iv0))),
            }
        }};
    }
    type R<T> = Result<T, ()>;
    macro_rules! keyiv {
        ($ty:ty) => {{
            if (<$ty>::key_size(), <$ty>::iv_size()) != (rk, rn)
                || (<Core<$ty>>::key_size(), <Core<$ty>>::iv_size()) != (rk, rn)
            {
                return viol(format!("{kind:?}: key_size / iv_size report {} / {}", <$ty>::key_size(), <$ty>::iv_size()));
            }
            path!("new_from_slices", <$ty>::new_from_slices(key, iv));
            path!("core new_from_slices + from_core", <Core<$ty> as KeyIvInit>::new_from_slices(key, iv).map(<$ty>::from_core));
            if valid {
                path!("new", R::Ok(<$ty as KeyIvInit>::new(key.try_into().expect("harness: key"), iv.try_into().expect("harness: iv"))));
                path!("core new + from_core", R::Ok(<$ty>::from_core(KeyIvInit::new(key.try_into().expect("harness: key"), iv.try_into().expect("harness: iv")))));
            }
        }};
    }
    match kind {
        #[cfg(feature = "cc")]
        Kind::ChaCha8 => keyiv!(chacha20::ChaCha8),
        #[cfg(feature = "cc")]
        Kind::ChaCha12 => keyiv!(chacha20::ChaCha12),
        #[cfg(feature = "cc")]
        Kind::ChaCha20 => keyiv!(chacha20::ChaCha20),
        #[cfg(feature = "cc")]
        Kind::Legacy => keyiv!(chacha20::ChaCha20Legacy),
        #[cfg(feature = "cc")]
        Kind::XChaCha8 => keyiv!(chacha20::XChaCha8),
        #[cfg(feature = "cc")]
        Kind::XChaCha12 => keyiv!(chacha20::XChaCha12),
        #[cfg(feature = "cc")]
        Kind::XChaCha20 => keyiv!(chacha20::XChaCha20),
        #[cfg(feature = "others")]
        Kind::Salsa8 => keyiv!(salsa20::Salsa8),
        #[cfg(feature = "others")]
        Kind::Salsa12 => keyiv!(salsa20::Salsa12),
        #[cfg(feature = "others")]
        Kind::Salsa20 => keyiv!(salsa20::Salsa20),
        #[cfg(feature = "others")]
        Kind::XSalsa8 => keyiv!(salsa20::XSalsa8),
        #[cfg(feature = "others")]
        Kind::XSalsa12 => keyiv!(salsa20::XSalsa12),
        #[cfg(feature = "others")]
        Kind::XSalsa20 => keyiv!(salsa20::XSalsa20),
        #[cfg(feature = "others")]
        Kind::Hc256 => keyiv!(hc_256::Hc256),
        #[cfg(feature = "others")]
        Kind::Rabbit => {
            keyiv!(rabbit::Rabbit);
            // key set-up first, then the IV
            match guarded(|| rabbit::RabbitKeyOnlyCore::new_from_slice(key).ok())? {
                None if kl == rk => return viol(format!("{ctx}: the key-only core refuses the key")),
                None => {}
                Some(c) => {
                    path!("key then IV slice", rabbit::RabbitCore::inner_iv_slice_init(c, iv).map(rabbit::Rabbit::from_core));
                    if valid {
                        let c = guarded(|| <rabbit::RabbitKeyOnlyCore as KeyInit>::new(key.try_into().expect("harness: key")))?;
                        path!("key then IV", R::Ok(rabbit::Rabbit::from_core(rabbit::RabbitCore::inner_iv_init(c, iv.try_into().expect("harness: iv")))));
                    }
                }
            }
        }
        #[cfg(feature = "others")]
        Kind::RabbitKey => {
            if rabbit::RabbitKeyOnly::key_size() != 16 || rabbit::RabbitKeyOnlyCore::key_size() != 16 {
                return viol("RabbitKeyOnly: key_size is not 16".into());
            }
            path!("new_from_slice", rabbit::RabbitKeyOnly::new_from_slice(key));
            path!("core new_from_slice + from_core", rabbit::RabbitKeyOnlyCore::new_from_slice(key).map(rabbit::RabbitKeyOnly::from_core));
            if valid {
                path!("new", R::Ok(rabbit::RabbitKeyOnly::new(key.try_into().expect("harness: key"))));
                path!("core new + from_core", R::Ok(rabbit::RabbitKeyOnly::from_core(KeyInit::new(key.try_into().expect("harness: key")))));
            }
        }
        #[cfg(feature = "others")]
        Kind::Rc4 => {
            path!("new_from_slice", rc4::Rc4::new_from_slice(key));
            if kl == 32 {
                path!("new", R::Ok(<rc4::Rc4 as KeyInit>::new(key.try_into().expect("harness: key"))));
            }
        }
        #[allow(unreachable_patterns)]
        _ => return Ok(()),
    }
    for (path, ok, _) in &outs {
        if *ok != valid {
            return viol(format!("{ctx}: {path} {} it", if *ok { "accepts" } else { "refuses" }));
        }
        rep.hit(if valid { "constructions accepted" } else { "constructions refused" });
    }
    if valid {
        let (mut m, _) = kind.model(&key0, &iv0);
        let mut want = vec![0u8; TRY];
        if m.seq() { m.next(&mut want) } else { m.at(0, &mut want) }
        for (path, _, got) in &outs {
            if let Some(got) = got {
                if *got != want {
                    return viol(format!(
                        "{ctx}: the instance made by {path} does not start with the cipher's keystream: {} (key={} iv={})",
                        diff(got, &want),
                        hexs(&key0),
                        hexs(&iv0)
                    ));
                }
            }
        }
        // position 0
        if kind.seekable() {
            for c in [Ctor::New, Ctor::Slices, Ctor::FromCore] {
                let q = guarded(|| {
                    crate::dut::build(kind, c, &key0, &iv0).expect("harness: kind").pos(crate::dut::Ty::U128, true)
                })?;
                if q != Some(0) {
                    return viol(format!("{ctx}: {c:?} starts at position {q:?}"));
                }
            }
        }
    }
    if a.key.slice() != key0 || a.iv.slice() != iv0 {
        return viol(format!("{ctx}: construction changed the key or nonce it was given"));
    }
    if let Err(s) = a.key.check().and_then(|()| a.iv.check()) {
        return viol(format!("{ctx}: {s}"));
    }
    let mut f = Fnv::default();
    f.bytes(&key0);
    f.u(kind as u64);
    f.bytes(&iv0);
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    rep.hit(&format!("cases {kind:?}"));
    rep.sample(|| format!("{ctx}: {}", if valid { "accepted by every path, same keystream" } else { "refused by every path" }));
    Ok(())
}

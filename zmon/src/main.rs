//! Memory monitor for `zeroize`: looks at the bytes an instance occupied at
//! the moment its allocation is given back, after random histories.
//!
//! Oracle (non-interference): those bytes are the same whatever the key, nonce,
//! seed, position and history were. Bytes that change when only the previous
//! contents of stack and heap change are uninitialised padding and not judged.
#![allow(unused_imports, unused_macros, unused_variables, dead_code)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::hint::black_box;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

#[path = "../../harness/src/prng.rs"]
mod prng;
#[path = "../../harness/src/rep.rs"]
mod rep;
use prng::{P, mix};
use rep::{Bad, Fnv, Rep, guarded, hexs, viol};

const MAX: usize = 16384;
static TARGET: AtomicUsize = AtomicUsize::new(0);
static TAKEN: AtomicUsize = AtomicUsize::new(0);
static mut SNAP: [u8; MAX] = [0; MAX];

struct Watch;
// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p as usize == TARGET.load(SeqCst) {
            TARGET.store(0, SeqCst);
            let n = l.size().min(MAX);
            for i in 0..n {
                // SAFETY: one thread; inside the block being freed
                unsafe { (&raw mut SNAP).cast::<u8>().add(i).write_volatile(p.add(i).read_volatile()) };
            }
            TAKEN.store(n, SeqCst);
        }
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Watch = Watch;

/// Overwrites the dead part of the stack.
#[inline(never)]
fn scribble(b: u8) {
    let mut a = [0u8; 40000];
    for x in a.iter_mut() {
        // SAFETY: a plain local
        unsafe { (x as *mut u8).write_volatile(b) };
    }
    black_box(&mut a);
}

/// (bytes at deallocation)
fn life<T>(env: u8, make: &dyn Fn() -> T, used: &dyn Fn(&mut T)) -> Vec<u8> {
    scribble(env);
    let mut b: Box<MaybeUninit<T>> = Box::new_uninit();
    // SAFETY: fills the fresh allocation
    unsafe { std::ptr::write_bytes(b.as_mut_ptr().cast::<u8>(), env ^ 0x3c, size_of::<T>()) };
    black_box(&mut b);
    b.write(make());
    // SAFETY: just written
    let mut b = unsafe { b.assume_init() };
    scribble(env.wrapping_add(1));
    used(&mut b);
    black_box(&mut *b);
    TAKEN.store(0, SeqCst);
    TARGET.store(&raw const *b as usize, SeqCst);
    drop(b);
    let n = TAKEN.load(SeqCst);
    assert!(n == size_of::<T>(), "harness: the deallocation was not seen");
    // SAFETY: one thread
    unsafe { std::slice::from_raw_parts((&raw const SNAP).cast::<u8>(), n).to_vec() }
}

/// Dropped in place, in memory that stays allocated.
fn life_in_place<T>(env: u8, make: &dyn Fn() -> T, used: &dyn Fn(&mut T)) -> Vec<u8> {
    scribble(env);
    let mut b: Box<MaybeUninit<T>> = Box::new_uninit();
    // SAFETY: as in `life`
    unsafe { std::ptr::write_bytes(b.as_mut_ptr().cast::<u8>(), env ^ 0x3c, size_of::<T>()) };
    b.write(make());
    let p = b.as_mut_ptr();
    // SAFETY: initialised, dropped once
    unsafe {
        used(&mut *p);
        black_box(&mut *p);
        std::ptr::drop_in_place(p);
        black_box(p);
        (0..size_of::<T>()).map(|i| p.cast::<u8>().add(i).read_volatile()).collect()
    }
}

#[derive(Default)]
struct State {
    reference: BTreeMap<&'static str, Vec<u8>>,
    mask: BTreeMap<&'static str, Vec<bool>>,
    /// bytes known to be padding (type name -> offsets), found by an earlier `isinit` run
    pad: BTreeMap<String, Vec<usize>>,
    /// (offset, after use?): only find out whether this byte of the instance is initialised
    probe: Option<(usize, bool)>,
}

/// Reads one byte of an instance. Under Miri this is an error if the byte is
/// padding (moving or storing a value leaves its padding uninitialised there).
fn is_init<T>(off: usize, after: bool, make: &dyn Fn() -> T, used: &dyn Fn(&mut T)) {
    let mut b: Box<MaybeUninit<T>> = Box::new_uninit();
    b.write(make());
    if after {
        // SAFETY: just written
        used(unsafe { b.assume_init_mut() });
    }
    assert!(off < size_of::<T>(), "harness: offset");
    println!("PROBING");
    // SAFETY: inside the allocation; that the byte is initialised is what Miri is asked
    let v = unsafe { b.as_ptr().cast::<u8>().add(off).read() };
    println!("INIT {}", u32::from(v) < 256);
}

struct Probe<T>(PhantomData<T>);
trait Marked {
    fn marked(&self) -> bool;
}
impl<T: zeroize::ZeroizeOnDrop> Marked for Probe<T> {
    fn marked(&self) -> bool {
        true
    }
}
impl<T> Marked for &Probe<T> {
    fn marked(&self) -> bool {
        false
    }
}

#[allow(clippy::too_many_arguments)]
fn judge<T>(
    name: &'static str,
    marked: bool,
    case: u64,
    st: &mut State,
    rep: &mut Rep,
    make: &dyn Fn() -> T,
    used: &dyn Fn(&mut T),
    secret: &str,
) -> Result<(), Bad> {
    if !marked {
        return viol(format!("{name} does not implement ZeroizeOnDrop"));
    }
    if let Some((off, after)) = st.probe {
        is_init(off, after, make, used);
        return Ok(());
    }
    let e0 = mix(case ^ 77) as u8;
    for in_place in [false, true] {
        let run = |env: u8| -> Result<Vec<u8>, Bad> {
            Ok(guarded(|| if in_place { life_in_place(env, make, used) } else { life(env, make, used) })?)
        };
        let got = run(e0)?;
        let n = got.len();
        let rf = st.reference.entry(name).or_insert_with(|| got.clone()).clone();
        let mask = st.mask.entry(name).or_insert_with(|| {
            let mut m = vec![false; n];
            for o in st.pad.get(name).into_iter().flatten() {
                m[*o] = true;
            }
            m
        });
        let bad = |g: &[u8], m: &[bool]| (0..n).filter(|i| !m[*i] && g[*i] != rf[*i]).collect::<Vec<_>>();
        if !bad(&got, mask).is_empty() {
            // does the difference come from the environment (padding)?
            for k in 1..=12u8 {
                let again = run(e0.wrapping_add(k.wrapping_mul(41)))?;
                for i in 0..n {
                    if again[i] != got[i] {
                        mask[i] = true;
                    }
                }
            }
            let b = bad(&got, mask);
            if !b.is_empty() {
                return viol(format!(
                    "{name} ({n} bytes): {} bytes left after drop depend on its secrets or history, at offsets {:?}{}; memory: {} ({secret})",
                    b.len(),
                    &b[..b.len().min(64)],
                    if in_place { " (dropped in place)" } else { "" },
                    hexs(&got[b[0]..n.min(b[0] + 32)]),
                ));
            }
        }
        rep.add("bytes judged after drop", mask.iter().filter(|m| !**m).count() as u64);
        rep.hit(&format!("drops {name}"));
    }
    let masked = st.mask[name].iter().filter(|m| **m).count() as u64;
    rep.counts.insert(format!("padding bytes {name}"), masked);
    let mut f = Fnv::default();
    f.bytes(name.as_bytes());
    f.bytes(secret.as_bytes());
    rep.distinct.insert(f.0);
    rep.evaluations += 1;
    rep.sample(|| format!("{name}: {secret}: {} bytes, {masked} of them padding", st.reference[name].len()));
    Ok(())
}

#[cfg(any(feature = "chacha", feature = "salsa", feature = "hc", feature = "rabbit", feature = "rc4"))]
mod ciphers {
    use super::*;
    use cipher::{KeyIvInit, StreamCipher, StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeek, StreamCipherSeekCore};
    pub trait CoreOf {
        type Core;
    }
    impl<C: StreamCipherCore> CoreOf for StreamCipherCoreWrapper<C>
    where
        C::BlockSize: block_buffer::BlockSizes,
    {
        type Core = C;
    }
    #[allow(type_alias_bounds)]
    pub type Core<W: CoreOf> = <W as CoreOf>::Core;

    pub fn use_cipher<C: StreamCipher>(c: &mut C, h: u64) {
        let mut p = P::new(h);
        for _ in 0..p.us(0, 4) {
            let mut b = vec![0u8; p.us(0, 300)];
            match p.below(3) {
                0 => {
                    let _ = c.try_write_keystream(&mut b);
                }
                _ => {
                    let _ = c.try_apply_keystream(&mut b);
                }
            }
        }
    }
    pub fn use_seek<C: StreamCipher + StreamCipherSeek>(c: &mut C, h: u64) {
        let mut p = P::new(h ^ 1);
        for _ in 0..p.us(0, 2) {
            let pos = match p.below(5) {
                0 => p.edge128(),
                1 => (1u128 << 38) - 64 - u128::from(p.below(200)),
                2 => (1u128 << 70) - 64 - u128::from(p.below(200)),
                3 => u128::from(p.edge32()) * 64 + u128::from(p.below(64)),
                _ => u128::from(p.below(1000)),
            };
            let _ = c.try_seek(pos);
            if p.one_in(2) {
                use_cipher(c, p.next());
            }
        }
        use_cipher(c, p.next());
    }
    pub fn use_core<C: StreamCipherCore>(c: &mut C, h: u64) {
        let mut p = P::new(h);
        let mut b = vec![cipher::Block::<C>::default(); 20];
        for _ in 0..p.us(0, 4) {
            let n = p.us(0, 20);
            if p.one_in(2) {
                c.write_keystream_blocks(&mut b[..n]);
            } else {
                c.apply_keystream_blocks(&mut b[..n]);
            }
        }
    }
}
#[cfg(any(feature = "chacha", feature = "salsa", feature = "hc", feature = "rabbit", feature = "rc4"))]
use ciphers::*;

fn one(case: u64, st: &mut State, rep: &mut Rep) -> Result<(), Bad> {
    let mut p = P::new(case);
    let mut key = [0u8; 256];
    let mut iv = [0u8; 32];
    p.material(&mut key);
    p.material(&mut iv);
    let h = p.next();
    let which = p.below(40);
    let mut idx = 0u64;
    macro_rules! ty {
        ($name:expr, $t:ty, $make:expr, $use:expr) => {{
            if idx % 40 == which {
                let probe = Probe::<$t>(PhantomData);
                let marked = (&probe).marked();
                let secret = format!("key={} iv={} history={h:x}", hexs(&key[..32]), hexs(&iv));
                return judge::<$t>($name, marked, case, st, rep, &|| $make, &|c: &mut $t| $use(c, h), &secret);
            }
            idx += 1;
        }};
    }
    macro_rules! keyiv {
        ($($name:literal $kl:literal $nl:literal $use:ident $t:ty;)*) => {$(
            ty!($name, $t, <$t as cipher::KeyIvInit>::new_from_slices(&key[..$kl], &iv[..$nl]).expect("DUT: exact lengths refused"), $use);
            ty!(concat!($name, " core"), Core<$t>, <Core<$t> as cipher::KeyIvInit>::new_from_slices(&key[..$kl], &iv[..$nl]).expect("DUT: exact lengths refused"), use_core);
        )*};
    }
    #[cfg(feature = "chacha")]
    keyiv! {
        "ChaCha8" 32 12 use_seek chacha20::ChaCha8;
        "ChaCha12" 32 12 use_seek chacha20::ChaCha12;
        "ChaCha20" 32 12 use_seek chacha20::ChaCha20;
        "ChaCha20Legacy" 32 8 use_seek chacha20::ChaCha20Legacy;
        "XChaCha8" 32 24 use_seek chacha20::XChaCha8;
        "XChaCha12" 32 24 use_seek chacha20::XChaCha12;
        "XChaCha20" 32 24 use_seek chacha20::XChaCha20;
    }
    #[cfg(feature = "salsa")]
    {
        keyiv! {
            "Salsa8" 32 8 use_seek salsa20::Salsa8;
            "Salsa12" 32 8 use_seek salsa20::Salsa12;
            "Salsa20" 32 8 use_seek salsa20::Salsa20;
            "XSalsa8" 32 24 use_seek salsa20::XSalsa8;
            "XSalsa12" 32 24 use_seek salsa20::XSalsa12;
            "XSalsa20" 32 24 use_seek salsa20::XSalsa20;
        }
        type Raw = salsa20::SalsaCore<cipher::consts::U10>;
        ty!("SalsaCore raw", Raw, Raw::from_raw_state(core::array::from_fn(|i| u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]))), use_core);
    }
    #[cfg(feature = "hc")]
    keyiv! { "Hc256" 32 32 use_cipher hc_256::Hc256; }
    #[cfg(feature = "rabbit")]
    {
        use cipher::KeyInit;
        keyiv! { "Rabbit" 16 8 use_cipher rabbit::Rabbit; }
        ty!("RabbitKeyOnly", rabbit::RabbitKeyOnly, rabbit::RabbitKeyOnly::new_from_slice(&key[..16]).expect("DUT: exact length refused"), use_cipher);
        ty!("RabbitKeyOnly core", rabbit::RabbitKeyOnlyCore, rabbit::RabbitKeyOnlyCore::new_from_slice(&key[..16]).expect("DUT: exact length refused"), use_core);
    }
    #[cfg(feature = "rc4")]
    {
        use cipher::KeyInit;
        ty!("Rc4", rc4::Rc4, rc4::Rc4::new_from_slice(&key[..1 + iv[0] as usize]).expect("DUT: 1 to 256 bytes refused"), use_cipher);
    }
    #[cfg(feature = "rng")]
    {
        use chacha20::variants::{Ietf, Legacy};
        use chacha20::{ChaCha8Rng, ChaCha12Rng, ChaCha20Rng, ChaChaCore, R8, R12, R20};
        use rand_core::{Rng, SeedableRng, block::Generator};
        let seed: [u8; 32] = key[..32].try_into().expect("harness: seed");
        macro_rules! rng {
            ($($name:literal $t:ty;)*) => {$(
                ty!($name, $t, <$t>::from_seed(seed), |r: &mut $t, h: u64| {
                    let mut p = P::new(h);
                    if p.one_in(2) { r.set_stream(p.edge64()); }
                    if p.one_in(2) { r.set_word_pos(p.edge128()); }
                    for _ in 0..p.us(0, 5) {
                        if p.one_in(2) { r.next_u32(); } else { r.next_u64(); }
                    }
                    let mut b = vec![0u8; p.us(0, 300)];
                    r.fill_bytes(&mut b);
                    if p.one_in(3) { *r = <$t>::deserialize_state(&r.serialize_state()); r.next_u32(); }
                    if p.one_in(4) { r.set_block_pos(p.edge64()); }
                });
            )*};
        }
        rng! { "ChaCha8Rng" ChaCha8Rng; "ChaCha12Rng" ChaCha12Rng; "ChaCha20Rng" ChaCha20Rng; }
        macro_rules! genr {
            ($($name:literal $t:ty;)*) => {$(
                ty!($name, $t, { let mut c = <$t>::from_seed(seed); c.set_block_pos(h as _); c }, |r: &mut $t, h: u64| {
                    let mut p = P::new(h);
                    let mut o = [0u32; 64];
                    for _ in 0..p.us(0, 3) { r.generate(&mut o); }
                    if p.one_in(3) { r.set_block_pos(p.edge64() as _); }
                });
            )*};
        }
        genr! {
            "ChaChaCore<8, Legacy>" ChaChaCore<R8, Legacy>;
            "ChaChaCore<12, Legacy>" ChaChaCore<R12, Legacy>;
            "ChaChaCore<20, Legacy>" ChaChaCore<R20, Legacy>;
            "ChaChaCore<8, Ietf>" ChaChaCore<R8, Ietf>;
            "ChaChaCore<20, Ietf>" ChaChaCore<R20, Ietf>;
        }
        // what the generator's own clean-up hook must do to an output buffer
        if idx % 40 == which {
            let mut c = ChaChaCore::<R20, Legacy>::from_seed(seed);
            let mut o = [0u32; 64];
            c.generate(&mut o);
            guarded(|| Generator::drop(&mut c, &mut o))?;
            if o != [0u32; 64] {
                return viol(format!("Generator::drop leaves keystream in the buffer: seed={}", hexs(&seed)));
            }
            rep.hit("generator buffers erased");
        }
        idx += 1;
    }
    rep.hit("draws outside the type list");
    Ok(())
}

fn main() {
    rep::install_hook();
    let a: BTreeMap<String, String> = std::env::args()
        .skip(2)
        .map(|s| {
            let (k, v) = s.split_once('=').expect("harness: key=value");
            (k.to_string(), v.to_string())
        })
        .collect();
    let num = |k: &str, d: u64| {
        a.get(k).map_or(d, |s| match s.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).expect("harness: number"),
            None => s.parse().expect("harness: number"),
        })
    };
    let (seed, shard, secs, cases) = (num("seed", 1), num("shard", 0), num("secs", 0), num("cases", u64::MAX));
    let only = a.get("case").map(|_| num("case", 0));
    let mut st = State::default();
    for part in a.get("pad").map_or("", |s| s).split(';').filter(|s| !s.is_empty()) {
        let (n, o) = part.split_once('@').expect("harness: pad");
        st.pad.insert(n.into(), o.split('+').map(|x| x.parse().expect("harness: pad")).collect());
    }
    let mut rep = Rep::default();
    if a.contains_key("off") {
        st.probe = Some((num("off", 0) as usize, num("after", 0) == 1));
        let r = one(num("case", 0), &mut st, &mut rep);
        assert!(r.is_ok(), "harness: probe");
        return;
    }
    // calibration: the reference of every type comes from a fixed first pass
    let t0 = Instant::now();
    let tag = mix(seed) ^ mix(shard ^ 0x7a);
    let mut i = 0u64;
    loop {
        if i >= cases || (secs > 0 && i % 8 == 0 && t0.elapsed().as_secs() >= secs) {
            break;
        }
        // replays need the reference instances: run the first cases, too
        let case = match only {
            Some(c) if i == 400 => c,
            Some(_) => mix(0x51 + i),
            None => mix(tag.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15))),
        };
        match one(case, &mut st, &mut rep) {
            Ok(()) => {}
            Err(Bad::Violation(s)) => rep.violations.push((case, s)),
            Err(Bad::Harness(s)) => rep.harness.push((case, s)),
        }
        i += 1;
        if rep.violations.len() + rep.harness.len() >= 5 || (only.is_some() && i > 400) {
            break;
        }
    }
    println!("VMON-JSON {}", rep.json(&[("engine", "zeroize".into())]));
}

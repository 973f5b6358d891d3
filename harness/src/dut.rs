//! The real ciphers behind one object-safe interface, one entry per public type.

use cipher::inout::InOutBuf;
use cipher::{KeyInit, KeyIvInit, StreamCipher, StreamCipherCoreWrapper, StreamCipherSeek};

use crate::model::{self, Ks};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    ChaCha8,
    ChaCha12,
    ChaCha20,
    Legacy,
    XChaCha8,
    XChaCha12,
    XChaCha20,
    Salsa8,
    Salsa12,
    Salsa20,
    XSalsa8,
    XSalsa12,
    XSalsa20,
    Raw8,
    Raw12,
    Raw20,
    Hc256,
    Rabbit,
    RabbitKey,
    Rc4,
}
use Kind::*;

pub const CHACHA: &[Kind] = &[ChaCha8, ChaCha12, ChaCha20, Legacy];
pub const XCHACHA: &[Kind] = &[XChaCha8, XChaCha12, XChaCha20];
pub const SALSA: &[Kind] = &[Salsa8, Salsa12, Salsa20];
pub const XSALSA: &[Kind] = &[XSalsa8, XSalsa12, XSalsa20, Raw8, Raw12, Raw20];
pub const ALL: &[Kind] = &[
    ChaCha8, ChaCha12, ChaCha20, Legacy, XChaCha8, XChaCha12, XChaCha20, Salsa8, Salsa12, Salsa20, XSalsa8,
    XSalsa12, XSalsa20, Raw8, Raw12, Raw20, Hc256, Rabbit, RabbitKey, Rc4,
];

impl Kind {
    pub fn parse(s: &str) -> Option<Vec<Kind>> {
        Some(match s {
            "chacha" => CHACHA.to_vec(),
            "xchacha" => XCHACHA.to_vec(),
            "salsa" => SALSA.to_vec(),
            "xsalsa" => XSALSA.to_vec(),
            "cc" => [CHACHA, XCHACHA].concat(),
            "seek" => ALL.iter().copied().filter(|k| k.seekable()).collect(),
            "others" => ALL.iter().copied().filter(|k| !CHACHA.contains(k) && !XCHACHA.contains(k)).collect(),
            "all" => ALL.to_vec(),
            "none" => Vec::new(),
            _ => vec![*ALL.iter().find(|k| format!("{k:?}").eq_ignore_ascii_case(s))?],
        })
    }
    pub fn available(self) -> bool {
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 | Legacy | XChaCha8 | XChaCha12 | XChaCha20 => cfg!(feature = "cc"),
            _ => cfg!(feature = "others"),
        }
    }
    pub fn seekable(self) -> bool {
        !matches!(self, Hc256 | Rabbit | RabbitKey | Rc4)
    }
    pub fn block(self) -> usize {
        match self {
            Hc256 => 4,
            Rabbit | RabbitKey => 16,
            Rc4 => 1,
            _ => 64,
        }
    }
    /// Counter width in bits (0: not seekable).
    pub fn width(self) -> u32 {
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 | XChaCha8 | XChaCha12 | XChaCha20 => 32,
            Hc256 | Rabbit | RabbitKey | Rc4 => 0,
            _ => 64,
        }
    }
    pub fn ctr_max(self) -> u64 {
        match self.width() {
            32 => u64::from(u32::MAX),
            _ => u64::MAX,
        }
    }
    /// Keystream length in bytes that may be handed out; None: unlimited.
    pub fn cap(self) -> Option<u128> {
        match self.width() {
            0 => None,
            _ => Some(u128::from(self.ctr_max()) * 64),
        }
    }
    pub fn rounds(self) -> u32 {
        match self {
            ChaCha8 | XChaCha8 | Salsa8 | XSalsa8 | Raw8 => 8,
            ChaCha12 | XChaCha12 | Salsa12 | XSalsa12 | Raw12 => 12,
            _ => 20,
        }
    }
    pub fn is_raw(self) -> bool {
        matches!(self, Raw8 | Raw12 | Raw20)
    }
    /// (key length, nonce length); a raw state is carried as a 64-byte "key".
    pub fn sizes(self) -> (usize, usize) {
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 => (32, 12),
            Legacy => (32, 8),
            XChaCha8 | XChaCha12 | XChaCha20 | XSalsa8 | XSalsa12 | XSalsa20 => (32, 24),
            Salsa8 | Salsa12 | Salsa20 => (32, 8),
            Raw8 | Raw12 | Raw20 => (64, 0),
            Hc256 => (32, 32),
            Rabbit => (16, 8),
            RabbitKey => (16, 0),
            Rc4 => (32, 0),
        }
    }
    /// The specification's keystream and the position a fresh instance starts at.
    pub fn model(self, key: &[u8], iv: &[u8]) -> (Ks, u128) {
        let r = self.rounds();
        let ks = match self {
            ChaCha8 | ChaCha12 | ChaCha20 => Ks::chacha_ietf(key, iv, r),
            Legacy => Ks::chacha_djb(key, iv, r),
            XChaCha8 | XChaCha12 | XChaCha20 => Ks::xchacha(key, iv, r),
            Salsa8 | Salsa12 | Salsa20 => Ks::salsa(key, iv, r),
            XSalsa8 | XSalsa12 | XSalsa20 => Ks::xsalsa(key, iv, r),
            Raw8 | Raw12 | Raw20 => {
                let st = raw_state(key);
                let ctr = u64::from(st[8]) | u64::from(st[9]) << 32;
                return (Ks::salsa_raw(st, r), u128::from(ctr) * 64);
            }
            Hc256 => Ks::Hc(model::Hc256::new(key, iv)),
            Rabbit => Ks::Rabbit(model::Rabbit::new(key, Some(iv))),
            RabbitKey => Ks::Rabbit(model::Rabbit::new(key, None)),
            Rc4 => Ks::Rc4(model::Rc4::new(key)),
        };
        (ks, 0)
    }
}

pub fn raw_state(b: &[u8]) -> [u32; 16] {
    core::array::from_fn(|i| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]))
}

/// How an instance is built.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ctor {
    /// `KeyIvInit::new` / `KeyInit::new` / RC4 `new_from_slice`
    New,
    /// `new_from_slices`
    Slices,
    /// core first, then `StreamCipherCoreWrapper::from_core`
    FromCore,
}

/// Which public request entry point is used.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Entry {
    TryApply,
    Apply,
    TryB2b,
    B2b,
    TryInout,
    Inout,
    TryInoutSame,
    InoutSame,
    TryWrite,
    Write,
    UApply,
    UB2b,
    UInout,
    UInoutSame,
    UWrite,
}
pub const ENTRIES: &[Entry] = &[
    Entry::TryApply,
    Entry::Apply,
    Entry::TryB2b,
    Entry::B2b,
    Entry::TryInout,
    Entry::Inout,
    Entry::TryInoutSame,
    Entry::InoutSame,
    Entry::TryWrite,
    Entry::Write,
    Entry::UApply,
    Entry::UB2b,
    Entry::UInout,
    Entry::UInoutSame,
    Entry::UWrite,
];
impl Entry {
    /// reads a separate input buffer
    pub fn two_buffers(self) -> bool {
        use Entry::*;
        matches!(self, TryB2b | B2b | TryInout | Inout | UB2b | UInout)
    }
    pub fn writes_raw(self) -> bool {
        use Entry::*;
        matches!(self, TryWrite | Write | UWrite)
    }
    pub fn unchecked(self) -> bool {
        use Entry::*;
        matches!(self, UApply | UB2b | UInout | UInoutSame | UWrite)
    }
    /// reports exhaustion by panicking
    pub fn panics(self) -> bool {
        use Entry::*;
        matches!(self, Apply | B2b | Inout | InoutSame | Write)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    I32,
    U32,
    U64,
    U128,
    Usize,
}
pub const TYS: &[Ty] = &[Ty::I32, Ty::U32, Ty::U64, Ty::U128, Ty::Usize];
impl Ty {
    pub fn max(self) -> u128 {
        match self {
            Ty::I32 => i32::MAX as u128,
            Ty::U32 => u32::MAX.into(),
            Ty::U64 => u64::MAX.into(),
            Ty::U128 => u128::MAX,
            Ty::Usize => usize::MAX as u128,
        }
    }
}

pub trait Dut {
    /// `out` holds the data for in-place entries; `inp` is the input otherwise.
    fn apply(&mut self, e: Entry, inp: &[u8], out: &mut [u8]) -> bool;
    fn check(&self, n: usize) -> bool;
    /// panicking or fallible; true = accepted
    fn seek(&mut self, ty: Ty, pos: u128, fallible: bool) -> bool;
    fn pos(&self, ty: Ty, fallible: bool) -> Option<u128>;
}

pub fn do_apply<C: StreamCipher>(c: &mut C, e: Entry, inp: &[u8], out: &mut [u8]) -> bool {
    match e {
        Entry::TryApply => c.try_apply_keystream(out).is_ok(),
        Entry::Apply => {
            c.apply_keystream(out);
            true
        }
        Entry::TryB2b => c.try_apply_keystream_b2b(inp, out).is_ok(),
        Entry::B2b => {
            c.apply_keystream_b2b(inp, out);
            true
        }
        Entry::TryInout => match InOutBuf::new(inp, out) {
            Ok(b) => c.try_apply_keystream_inout(b).is_ok(),
            Err(_) => false,
        },
        Entry::Inout => match InOutBuf::new(inp, out) {
            Ok(b) => {
                c.apply_keystream_inout(b);
                true
            }
            Err(_) => false,
        },
        Entry::TryInoutSame => c.try_apply_keystream_inout(out.into()).is_ok(),
        Entry::InoutSame => {
            c.apply_keystream_inout(out.into());
            true
        }
        Entry::TryWrite => c.try_write_keystream(out).is_ok(),
        Entry::Write => {
            c.write_keystream(out);
            true
        }
        Entry::UApply => {
            c.unchecked_apply_keystream(out);
            true
        }
        Entry::UB2b => c.unchecked_apply_keystream_b2b(inp, out).is_ok(),
        Entry::UInout => match InOutBuf::new(inp, out) {
            Ok(b) => {
                c.unchecked_apply_keystream_inout(b);
                true
            }
            Err(_) => false,
        },
        Entry::UInoutSame => {
            c.unchecked_apply_keystream_inout(out.into());
            true
        }
        Entry::UWrite => {
            c.unchecked_write_keystream(out);
            true
        }
    }
}


/// Names of real ciphers, each monomorphised here once.
struct Seekable<C>(C);
struct Seq<C>(C);

macro_rules! common {
    () => {
        fn apply(&mut self, e: Entry, inp: &[u8], out: &mut [u8]) -> bool {
            do_apply(&mut self.0, e, inp, out)
        }
        fn check(&self, n: usize) -> bool {
            self.0.check_remaining(n).is_ok()
        }
    };
}
impl<C: StreamCipher> Dut for Seq<C> {
    common!();
    fn seek(&mut self, _: Ty, _: u128, _: bool) -> bool {
        unreachable!("harness: seek on a sequential cipher")
    }
    fn pos(&self, _: Ty, _: bool) -> Option<u128> {
        unreachable!("harness: pos on a sequential cipher")
    }
}
impl<C: StreamCipher + StreamCipherSeek> Dut for Seekable<C> {
    common!();
    fn seek(&mut self, ty: Ty, pos: u128, fallible: bool) -> bool {
        macro_rules! go {
            ($t:ty) => {{
                let p = <$t>::try_from(pos).expect("harness: position does not fit its type");
                if fallible {
                    self.0.try_seek(p).is_ok()
                } else {
                    self.0.seek(p);
                    true
                }
            }};
        }
        match ty {
            Ty::I32 => go!(i32),
            Ty::U32 => go!(u32),
            Ty::U64 => go!(u64),
            Ty::U128 => go!(u128),
            Ty::Usize => go!(usize),
        }
    }
    fn pos(&self, ty: Ty, fallible: bool) -> Option<u128> {
        macro_rules! go {
            ($t:ty) => {
                if fallible {
                    self.0.try_current_pos::<$t>().ok().map(|v| v as u128)
                } else {
                    Some(self.0.current_pos::<$t>() as u128)
                }
            };
        }
        match ty {
            Ty::I32 => go!(i32),
            Ty::U32 => go!(u32),
            Ty::U64 => go!(u64),
            Ty::U128 => go!(u128),
            Ty::Usize => go!(usize),
        }
    }
}

pub fn boxed_seek<C: StreamCipher + StreamCipherSeek + 'static>(c: C) -> Box<dyn Dut> {
    Box::new(Seekable(c))
}

/// `None` only for kinds that are compiled out.
pub fn build(kind: Kind, ctor: Ctor, key: &[u8], iv: &[u8]) -> Option<Box<dyn Dut>> {
    macro_rules! arr {
        ($e:expr) => {
            $e.try_into().expect("harness: material length")
        };
    }
    #[allow(unused_macros)]
    macro_rules! keyiv {
        ($wrap:ident, $ty:ty) => {{
            let c: $ty = match ctor {
                Ctor::New => KeyIvInit::new(arr!(key), arr!(iv)),
                Ctor::Slices => KeyIvInit::new_from_slices(key, iv).expect("DUT: exact lengths were refused"),
                Ctor::FromCore => StreamCipherCoreWrapper::from_core(KeyIvInit::new(arr!(key), arr!(iv))),
            };
            Some(Box::new($wrap(c)) as Box<dyn Dut>)
        }};
    }
    #[allow(unused_macros)]
    macro_rules! raw {
        ($r:ty) => {{
            let c: StreamCipherCoreWrapper<salsa20::SalsaCore<$r>> =
                StreamCipherCoreWrapper::from_core(salsa20::SalsaCore::from_raw_state(raw_state(key)));
            Some(Box::new(Seekable(c)) as Box<dyn Dut>)
        }};
    }
    match kind {
        #[cfg(feature = "cc")]
        ChaCha8 => keyiv!(Seekable, chacha20::ChaCha8),
        #[cfg(feature = "cc")]
        ChaCha12 => keyiv!(Seekable, chacha20::ChaCha12),
        #[cfg(feature = "cc")]
        ChaCha20 => keyiv!(Seekable, chacha20::ChaCha20),
        #[cfg(feature = "cc")]
        Legacy => keyiv!(Seekable, chacha20::ChaCha20Legacy),
        #[cfg(feature = "cc")]
        XChaCha8 => keyiv!(Seekable, chacha20::XChaCha8),
        #[cfg(feature = "cc")]
        XChaCha12 => keyiv!(Seekable, chacha20::XChaCha12),
        #[cfg(feature = "cc")]
        XChaCha20 => keyiv!(Seekable, chacha20::XChaCha20),
        #[cfg(feature = "others")]
        Salsa8 => keyiv!(Seekable, salsa20::Salsa8),
        #[cfg(feature = "others")]
        Salsa12 => keyiv!(Seekable, salsa20::Salsa12),
        #[cfg(feature = "others")]
        Salsa20 => keyiv!(Seekable, salsa20::Salsa20),
        #[cfg(feature = "others")]
        XSalsa8 => keyiv!(Seekable, salsa20::XSalsa8),
        #[cfg(feature = "others")]
        XSalsa12 => keyiv!(Seekable, salsa20::XSalsa12),
        #[cfg(feature = "others")]
        XSalsa20 => keyiv!(Seekable, salsa20::XSalsa20),
        #[cfg(feature = "others")]
        Raw8 => raw!(cipher::consts::U4),
        #[cfg(feature = "others")]
        Raw12 => raw!(cipher::consts::U6),
        #[cfg(feature = "others")]
        Raw20 => raw!(cipher::consts::U10),
        #[cfg(feature = "others")]
        Hc256 => keyiv!(Seq, hc_256::Hc256),
        #[cfg(feature = "others")]
        Rabbit => keyiv!(Seq, rabbit::Rabbit),
        #[cfg(feature = "others")]
        RabbitKey => {
            let c: rabbit::RabbitKeyOnly = match ctor {
                Ctor::New => KeyInit::new(arr!(key)),
                Ctor::Slices => KeyInit::new_from_slice(key).expect("DUT: exact length was refused"),
                Ctor::FromCore => StreamCipherCoreWrapper::from_core(KeyInit::new(arr!(key))),
            };
            Some(Box::new(Seq(c)))
        }
        #[cfg(feature = "others")]
        Rc4 => {
            let c: rc4::Rc4 = match (ctor, key.len()) {
                (Ctor::New, 32) => KeyInit::new(arr!(key)),
                _ => KeyInit::new_from_slice(key).expect("DUT: a key of 1 to 256 bytes was refused"),
            };
            Some(Box::new(Seq(c)))
        }
        #[allow(unreachable_patterns)]
        _ => None,
    }
}

//! Core types behind the public aliases (some are only reachable by inference).
#![allow(unused_variables, unused_macros, unused_imports)]

use cipher::{KeyInit, KeyIvInit, StreamCipherCoreWrapper};

use crate::coreh::{CoreDut, boxed_seek, boxed_seq};
use crate::dut::{Kind, raw_state};

pub fn build(kind: Kind, key: &[u8], iv: &[u8]) -> Option<Box<dyn CoreDut>> {
    macro_rules! core {
        ($f:ident, $ty:ty) => {{
            let c = KeyIvInit::new_from_slices(key, iv).expect("DUT: exact lengths were refused");
            if key.len() == 1 {
                // names the core type by inference only
                let _: $ty = StreamCipherCoreWrapper::from_core(c);
                unreachable!("harness: key length 1");
            }
            Some($f(c))
        }};
    }
    match kind {
        #[cfg(feature = "cc")]
        Kind::ChaCha8 => core!(boxed_seek, chacha20::ChaCha8),
        #[cfg(feature = "cc")]
        Kind::ChaCha12 => core!(boxed_seek, chacha20::ChaCha12),
        #[cfg(feature = "cc")]
        Kind::ChaCha20 => core!(boxed_seek, chacha20::ChaCha20),
        #[cfg(feature = "cc")]
        Kind::Legacy => core!(boxed_seek, chacha20::ChaCha20Legacy),
        #[cfg(feature = "cc")]
        Kind::XChaCha8 => core!(boxed_seek, chacha20::XChaCha8),
        #[cfg(feature = "cc")]
        Kind::XChaCha12 => core!(boxed_seek, chacha20::XChaCha12),
        #[cfg(feature = "cc")]
        Kind::XChaCha20 => core!(boxed_seek, chacha20::XChaCha20),
        #[cfg(feature = "others")]
        Kind::Salsa8 => core!(boxed_seek, salsa20::Salsa8),
        #[cfg(feature = "others")]
        Kind::Salsa12 => core!(boxed_seek, salsa20::Salsa12),
        #[cfg(feature = "others")]
        Kind::Salsa20 => core!(boxed_seek, salsa20::Salsa20),
        #[cfg(feature = "others")]
        Kind::XSalsa8 => core!(boxed_seek, salsa20::XSalsa8),
        #[cfg(feature = "others")]
        Kind::XSalsa12 => core!(boxed_seek, salsa20::XSalsa12),
        #[cfg(feature = "others")]
        Kind::XSalsa20 => core!(boxed_seek, salsa20::XSalsa20),
        #[cfg(feature = "others")]
        Kind::Raw8 => {
            Some(boxed_seek(salsa20::SalsaCore::<cipher::consts::U4>::from_raw_state(raw_state(key))))
        }
        #[cfg(feature = "others")]
        Kind::Raw12 => {
            Some(boxed_seek(salsa20::SalsaCore::<cipher::consts::U6>::from_raw_state(raw_state(key))))
        }
        #[cfg(feature = "others")]
        Kind::Raw20 => {
            Some(boxed_seek(salsa20::SalsaCore::<cipher::consts::U10>::from_raw_state(raw_state(key))))
        }
        #[cfg(feature = "others")]
        Kind::Hc256 => core!(boxed_seq, hc_256::Hc256),
        #[cfg(feature = "others")]
        Kind::Rabbit => core!(boxed_seq, rabbit::Rabbit),
        #[cfg(feature = "others")]
        Kind::RabbitKey => {
            let c: rabbit::RabbitKeyOnlyCore =
                KeyInit::new_from_slice(key).expect("DUT: exact length was refused");
            Some(boxed_seq(c))
        }
        #[allow(unreachable_patterns)]
        _ => None,
    }
}

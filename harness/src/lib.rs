#![allow(clippy::all)]
pub mod coreh;
pub mod corety;
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
pub mod cpu;
#[cfg(any(miri, all(target_arch = "x86_64", target_os = "linux")))]
pub mod ct;
pub mod dut;
pub mod hist;
pub mod inst;
pub mod mem;
pub mod misc;
pub mod model;
pub mod lanes;
pub mod paths;
pub mod prng;
pub mod rep;
pub mod shape;
pub mod threads;
#[cfg(feature = "rng")]
pub mod rngh;

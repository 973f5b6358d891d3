//! Instruction monitor (x86-64 Linux): presents a reduced processor to the code
//! under test (CPUID faulting) and looks at every instruction it executes
//! (single stepping), classifying it by instruction-set extension.

use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

/// Extension classes.
pub const CLASSES: &[&str] = &[
    "baseline", "sse3", "ssse3/sse4", "aes/sha/clmul", "popcnt", "avx", "avx2", "bmi", "fma/f16c", "vex other", "avx512f",
    "avx512vl", "avx512 other", "movbe/adx/rdrand",
];
pub const SSE3: usize = 1;
pub const SSE4: usize = 2;
pub const CRYPTO: usize = 3;
pub const POPCNT: usize = 4;
pub const AVX: usize = 5;
pub const AVX2: usize = 6;
pub const BMI: usize = 7;
pub const FMA: usize = 8;
pub const VEXOTHER: usize = 9;
pub const F512: usize = 10;
pub const VL512: usize = 11;
pub const OTHER512: usize = 12;
pub const MISC: usize = 13;

/// Class of the instruction that starts at `b` (64-bit mode).
pub fn classify(b: &[u8]) -> usize {
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    let mut i = 0;
    while i < 8 {
        match b[i] {
            0x66 => p66 = true,
            0xf2 => pf2 = true,
            0xf3 => pf3 = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        i += 1;
    }
    if b[i] & 0xf0 == 0x40 {
        i += 1;
    }
    match b[i] {
        0xc5 => vex(1, b[i + 1] & 3, b[i + 1] & 4 != 0, b[i + 2]),
        0xc4 => vex(b[i + 1] & 0x1f, b[i + 2] & 3, b[i + 2] & 4 != 0, b[i + 3]),
        0x62 => evex(b[i + 1] & 7, b[i + 2] & 3, b[i + 2] & 0x80 != 0, b[i + 3], b[i + 4]),
        0x0f => match b[i + 1] {
            0x38 => match b[i + 2] {
                0xf0 | 0xf1 | 0xf6 => MISC,
                0xc8..=0xdf => CRYPTO,
                _ => SSE4,
            },
            0x3a => match b[i + 2] {
                0x44 | 0xcc | 0xdf | 0xce | 0xcf => CRYPTO,
                _ => SSE4,
            },
            0xb8 if pf3 => POPCNT,
            0xd0 | 0x7c | 0x7d if p66 || pf2 => SSE3,
            0x12 if pf2 || pf3 => SSE3,
            0x16 if pf3 => SSE3,
            0xf0 if pf2 => SSE3,
            0xc7 if b[i + 2] >> 6 == 3 && (b[i + 2] >> 3) & 7 >= 6 => MISC,
            _ => 0,
        },
        _ => 0,
    }
}

fn vex(map: u8, pp: u8, l: bool, op: u8) -> usize {
    match map {
        1 => {
            let int = matches!(op, 0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe);
            if l && ((pp == 1 && int && op != 0xd6 && op != 0xe7) || (op == 0x70 && pp >= 2)) { AVX2 } else { AVX }
        }
        2 => match op {
            0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7 => BMI,
            0x13 | 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => FMA,
            0x50..=0x53 | 0xcf | 0xcb..=0xcd | 0xd2 | 0xd3 | 0xda | 0x72 | 0xb0..=0xb5 => VEXOTHER,
            0xdb..=0xdf => if l { VEXOTHER } else { CRYPTO },
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => AVX2,
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x40 if l => AVX2,
            _ => AVX,
        },
        3 => match op {
            0xf0 => BMI,
            0x1d => FMA,
            0x44 if !l => CRYPTO,
            0x44 | 0xce | 0xcf | 0xde => VEXOTHER,
            0xdf => CRYPTO,
            0x00..=0x02 | 0x38 | 0x39 | 0x46 => AVX2,
            0x0e | 0x0f | 0x42 | 0x4c if l => AVX2,
            _ => AVX,
        },
        _ => VEXOTHER,
    }
}

fn evex(map: u8, pp: u8, w: bool, p2: u8, op: u8) -> usize {
    // known members of BW / DQ / CD / VBMI / IFMA / VNNI / BITALG / VPOPCNT / FP16
    let other = match map {
        1 => match op {
            0x54..=0x57 => true,
            0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xd1 | 0xd5 | 0xd8 | 0xd9 | 0xdc | 0xdd
            | 0xe0 | 0xe1 | 0xe3..=0xe5 | 0xe8 | 0xe9 | 0xec | 0xed | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd
            | 0xda | 0xde | 0xea | 0xee => pp == 1,
            0x73 => false,
            0x70 => pp >= 2,
            0x6f | 0x7f => pp == 3,
            0xc4 | 0xc5 => true,
            _ => false,
        },
        2 => match op {
            0x00 | 0x04 | 0x0b | 0x10..=0x12 | 0x1c | 0x1d | 0x26 if !(matches!(op, 0x26) && pp == 2) => true,
            0x20 | 0x30 if pp == 2 => true,
            0x28 if pp == 2 => true,
            0x29 if pp == 2 => true,
            0x38..=0x3a if pp == 2 => true,
            0x2b | 0x38 | 0x3a | 0x3c | 0x3e => pp == 1,
            0x40 => w,
            0x50..=0x55 | 0x62 | 0x63 | 0x66 | 0x70..=0x73 | 0x75 | 0x7a | 0x7b | 0x7d | 0x83 | 0x8d | 0x8f | 0xb4 | 0xb5
            | 0xc4 | 0xcf | 0xdc..=0xdf | 0x44 => true,
            0x78 | 0x79 => true,
            0x1a | 0x5a => w,
            0x1b | 0x5b => !w,
            0x59 => !w,
            0x19 => !w,
            _ => false,
        },
        3 => match op {
            0x0f | 0x14 | 0x15 | 0x16 | 0x20 | 0x22 | 0x3e | 0x3f | 0x42 | 0x44 | 0x50 | 0x51 | 0x56 | 0x57 | 0x66 | 0x67
            | 0x70..=0x73 | 0xce | 0xcf => true,
            0x18 | 0x19 | 0x38 | 0x39 => w,
            0x1a | 0x1b | 0x3a | 0x3b => !w,
            _ => false,
        },
        _ => true,
    };
    // scalar forms ignore the length and need no VL
    let scalar = map == 1 && (pp >= 2 && matches!(op, 0x10 | 0x11 | 0x2a..=0x2d | 0x51 | 0x58..=0x5f | 0x7b) || matches!(op, 0x6e | 0x7e | 0xd6));
    if other {
        OTHER512
    } else if (p2 >> 5) & 3 != 2 && !scalar && p2 & 0x10 == 0 {
        VL512
    } else {
        F512
    }
}

// ---------------------------------------------------------------- the processor that is presented

/// Bits hidden from (leaf 1 ecx, leaf 7 ebx, leaf 7 ecx, leaf 7 edx, 0x8000_0001 ecx).
static HIDE: [AtomicU64; 5] = [const { AtomicU64::new(0) }; 5];
static CPUIDS: AtomicUsize = AtomicUsize::new(0);

// leaf 1 ecx
const L1_SSE3: u64 = 1;
const L1_CLMUL: u64 = 1 << 1;
const L1_SSSE3: u64 = 1 << 9;
const L1_FMA: u64 = 1 << 12;
const L1_SSE41: u64 = 1 << 19;
const L1_SSE42: u64 = 1 << 20;
const L1_MOVBE: u64 = 1 << 22;
const L1_POPCNT: u64 = 1 << 23;
const L1_AES: u64 = 1 << 25;
const L1_OSXSAVE: u64 = 1 << 27;
const L1_AVX: u64 = 1 << 28;
const L1_F16C: u64 = 1 << 29;
const L1_RDRAND: u64 = 1 << 30;
// leaf 7 ebx
const L7_BMI1: u64 = 1 << 3;
const L7_AVX2: u64 = 1 << 5;
const L7_BMI2: u64 = 1 << 8;
const L7_512F: u64 = 1 << 16;
const L7_RDSEED: u64 = 1 << 18;
const L7_ADX: u64 = 1 << 19;
const L7_SHA: u64 = 1 << 29;
const L7_512VL: u64 = 1 << 31;
const L7_512OTHER: u64 = 1 << 17 | 1 << 21 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 30;
const L7_512ALL: u64 = L7_512F | L7_512VL | L7_512OTHER;
const L7C_VEC: u64 = 1 << 1 | 1 << 6 | 1 << 8 | 1 << 9 | 1 << 10 | 1 << 11 | 1 << 12 | 1 << 14;
const L7D_VEC: u64 = 1 << 2 | 1 << 3 | 1 << 8 | 1 << 23;

const EXTRAS1: u64 = L1_CLMUL | L1_FMA | L1_MOVBE | L1_POPCNT | L1_AES | L1_F16C | L1_RDRAND;
const EXTRAS7: u64 = L7_BMI1 | L7_BMI2 | L7_RDSEED | L7_ADX | L7_SHA;
const BASE: u64 = 1;
const fn bit(c: usize) -> u64 {
    1 << c
}
const UP_TO_SSE4: u64 = BASE | bit(SSE3) | bit(SSE4);
const UP_TO_AVX: u64 = UP_TO_SSE4 | bit(AVX);
const UP_TO_AVX2: u64 = UP_TO_AVX | bit(AVX2);
const UP_TO_512: u64 = UP_TO_AVX2 | bit(FMA) | bit(F512) | bit(VL512);

/// (hidden bits, allowed classes) of a named processor.
pub fn scenario(name: &str) -> Option<([u64; 5], u64)> {
    Some(match name {
        // nothing hidden, every class the build may choose
        "full" => ([0, 0, 0, 0, 0], UP_TO_512),
        "full-no512" => ([0, 0, 0, 0, 0], UP_TO_AVX2),
        // AVX-512F and VL but none of the later groups, no BMI/FMA/...
        "f+vl" => ([EXTRAS1 & !L1_FMA & !L1_F16C, EXTRAS7 | L7_512OTHER, L7C_VEC, L7D_VEC, 0], UP_TO_512),
        // AVX-512F without VL
        "f-vl" => ([0, L7_512VL, 0, 0, 0], UP_TO_AVX2 | bit(FMA) | bit(F512)),
        // VL without F (inconsistent, but reported so by some hypervisors)
        "vl-f" => ([0, L7_512F, 0, 0, 0], UP_TO_AVX2),
        // Haswell class, minus everything that AVX2 does not imply
        "avx2" => ([EXTRAS1, EXTRAS7 | L7_512ALL, L7C_VEC, L7D_VEC, 0], UP_TO_AVX2),
        // Sandy Bridge class: AVX without AVX2
        "avx" => ([EXTRAS1, EXTRAS7 | L7_512ALL | L7_AVX2, L7C_VEC, L7D_VEC, 0], UP_TO_AVX),
        // Nehalem class
        "sse4.2" => ([EXTRAS1 | L1_AVX | L1_OSXSAVE, EXTRAS7 | L7_512ALL | L7_AVX2, L7C_VEC, L7D_VEC, 0], UP_TO_SSE4),
        // the x86-64 baseline
        "sse2" => (
            [
                EXTRAS1 | L1_AVX | L1_OSXSAVE | L1_SSE3 | L1_SSSE3 | L1_SSE41 | L1_SSE42,
                EXTRAS7 | L7_512ALL | L7_AVX2,
                L7C_VEC,
                L7D_VEC,
                0,
            ],
            BASE,
        ),
        // AVX2 in the CPU, but the operating system does not save its registers
        "no-osxsave" => ([L1_OSXSAVE, 0, 0, 0, 0], UP_TO_SSE4),
        // forced backends: nothing hidden, only the documented classes allowed
        "forced-soft" | "forced-sse2" => ([0, 0, 0, 0, 0], BASE),
        _ => return None,
    })
}

fn cpuid_raw(a: u32, c: u32) -> (u32, u32, u32, u32) {
    let r = core::arch::x86_64::__cpuid_count(a, c);
    (r.eax, r.ebx, r.ecx, r.edx)
}
fn arch_cpuid(on: u64) -> i64 {
    // SAFETY: arch_prctl(ARCH_SET_CPUID, on)
    unsafe { libc::syscall(libc::SYS_arch_prctl, 0x1012, on) }
}

extern "C" fn on_segv(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: called by the kernel with a valid context.
    unsafe {
        let g = &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize] as *const u8;
        if rip as usize > 4096 && *rip == 0x0f && *rip.add(1) == 0xa2 {
            let (la, lc) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
            arch_cpuid(1);
            let (a, mut b, mut c, mut d) = cpuid_raw(la, lc);
            arch_cpuid(0);
            let h = |i: usize| HIDE[i].load(Relaxed) as u32;
            match (la, lc) {
                (1, _) => c &= !h(0),
                (7, 0) => {
                    b &= !h(1);
                    c &= !h(2);
                    d &= !h(3);
                }
                (0x8000_0001, _) => c &= !h(4),
                _ => {}
            }
            g[libc::REG_RAX as usize] = a.into();
            g[libc::REG_RBX as usize] = b.into();
            g[libc::REG_RCX as usize] = c.into();
            g[libc::REG_RDX as usize] = d.into();
            g[libc::REG_RIP as usize] += 2;
            CPUIDS.fetch_add(1, Relaxed);
            return;
        }
        // a real fault: die of it
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

unsafe fn handler(sig: i32, f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)) {
    // SAFETY: plain sigaction
    unsafe {
        let mut s: libc::sigaction = core::mem::zeroed();
        s.sa_sigaction = f as *const () as usize;
        s.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
        assert!(libc::sigaction(sig, &s, core::ptr::null_mut()) == 0, "harness: sigaction");
    }
}

/// Presents the named processor from now on (this thread). Err: the machine
/// cannot do that.
pub fn present(name: &str) -> Result<u64, String> {
    let (hide, allowed) = scenario(name).unwrap_or_else(|| panic!("harness: scenario {name}"));
    ALLOWED.store(allowed, Relaxed);
    if hide.iter().any(|h| *h != 0) {
        for (a, h) in HIDE.iter().zip(hide) {
            a.store(h, Relaxed);
        }
        // SAFETY: installs our handler
        unsafe { handler(libc::SIGSEGV, on_segv) };
        if arch_cpuid(0) != 0 {
            return Err("CPUID faulting is not available".into());
        }
        // is the reduced processor really what is seen?
        let c1 = core::arch::x86_64::__cpuid_count(1, 0).ecx;
        let b7 = core::arch::x86_64::__cpuid_count(7, 0).ebx;
        if u64::from(c1) & hide[0] != 0 || u64::from(b7) & hide[1] != 0 || CPUIDS.load(Relaxed) == 0 {
            return Err("CPUID faulting has no effect".into());
        }
    }
    Ok(allowed)
}
pub fn cpuids_answered() -> usize {
    CPUIDS.load(Relaxed)
}

// ---------------------------------------------------------------- single stepping

static ALLOWED: AtomicU64 = AtomicU64::new(0);
static COUNT: [AtomicU64; 14] = [const { AtomicU64::new(0) }; 14];
static STEPS: AtomicU64 = AtomicU64::new(0);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static BAD_AT: AtomicUsize = AtomicUsize::new(0);
static BAD_CLASS: AtomicUsize = AtomicUsize::new(0);
static READY: AtomicBool = AtomicBool::new(false);

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: called by the kernel with a valid context.
    unsafe {
        let g = &(*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize] as usize;
        STEPS.fetch_add(1, Relaxed);
        if rip >= LO.load(Relaxed) && rip < HI.load(Relaxed) {
            let c = classify(core::slice::from_raw_parts(rip as *const u8, 15));
            COUNT[c].fetch_add(1, Relaxed);
            if ALLOWED.load(Relaxed) >> c & 1 == 0 && BAD_AT.load(Relaxed) == 0 {
                BAD_AT.store(rip, Relaxed);
                BAD_CLASS.store(c, Relaxed);
            }
        }
    }
}

fn text_range() -> (usize, usize) {
    let me = std::fs::read_link("/proc/self/exe").expect("harness: exe");
    let me = me.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").expect("harness: maps");
    let (mut lo, mut hi) = (usize::MAX, 0);
    for l in maps.lines().filter(|l| l.ends_with(&me) && l.split(' ').nth(1).is_some_and(|p| p.contains('x'))) {
        let (a, b) = l.split(' ').next().and_then(|r| r.split_once('-')).expect("harness: maps line");
        lo = lo.min(usize::from_str_radix(a, 16).expect("harness: hex"));
        hi = hi.max(usize::from_str_radix(b, 16).expect("harness: hex"));
    }
    (lo, hi)
}

/// Runs `f` with its calls of the code under test executed one instruction at a time; Some(report) if it executed an
/// instruction of a class that is not allowed.
pub fn stepped<T>(f: impl FnOnce() -> T) -> (T, Option<String>) {
    if !READY.swap(true, Relaxed) {
        let (lo, hi) = text_range();
        LO.store(lo, Relaxed);
        HI.store(hi, Relaxed);
        // SAFETY: installs our handler
        unsafe { handler(libc::SIGTRAP, on_trap) };
    }
    BAD_AT.store(0, Relaxed);
    crate::rep::STEP.store(true, Relaxed);
    let r = f();
    crate::rep::STEP.store(false, Relaxed);
    let at = BAD_AT.load(Relaxed);
    let bad = (at != 0).then(|| {
        // SAFETY: an address in our own text
        let b = unsafe { core::slice::from_raw_parts(at as *const u8, 12) };
        format!(
            "executed an instruction of class {} at text offset {:#x} (bytes {})",
            CLASSES[BAD_CLASS.load(Relaxed)],
            at - LO.load(Relaxed),
            crate::rep::hexs(b)
        )
    });
    (r, bad)
}

pub fn report(rep: &mut crate::rep::Rep) {
    rep.counts.insert("instructions stepped".into(), STEPS.load(Relaxed));
    for (n, c) in CLASSES.iter().zip(&COUNT) {
        let c = c.load(Relaxed);
        if c > 0 {
            rep.counts.insert(format!("instructions of class {n}"), c);
        }
    }
    rep.counts.insert("CPUID queries answered by the monitor".into(), cpuids_answered() as u64);
}

//! What the constant-time monitor needs of x86-64 Linux: valgrind's client
//! requests, and single stepping of the own process.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

use super::{Mat, Script};
use crate::rep::trap_flag;

// ---------------------------------------------------------------- memcheck requests

fn request(code: u64, a: u64, b: u64) -> u64 {
    let args = [code, a, b, 0, 0, 0];
    let mut res = 0u64;
    // SAFETY: valgrind's client request sequence, no effect outside valgrind
    unsafe {
        core::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") res,
        );
    }
    res
}
pub fn on_valgrind() -> bool {
    request(0x1001, 0, 0) != 0
}
pub fn undefined(b: &mut [u8]) {
    request(0x4d43_0001, b.as_mut_ptr() as u64, b.len() as u64);
}
pub fn defined(b: &mut [u8]) {
    request(0x4d43_0002, b.as_mut_ptr() as u64, b.len() as u64);
}
pub fn errors() -> u64 {
    request(0x1201, 0, 0)
}

// ---------------------------------------------------------------- the address trace

pub static mut RIPS: Vec<u64> = Vec::new();
pub static mut EAS: Vec<u64> = Vec::new();
pub const CAP: usize = 3 << 20;
pub static POS: AtomicUsize = AtomicUsize::new(0);
pub static LEN: AtomicUsize = AtomicUsize::new(0);
pub static RECORD: AtomicBool = AtomicBool::new(false);
/// index + 1 of the first difference, and what was there instead
pub static DIFF: AtomicUsize = AtomicUsize::new(0);
pub static DIFF_RIP: AtomicUsize = AtomicUsize::new(0);
pub static DIFF_EA: AtomicUsize = AtomicUsize::new(0);
pub static STEPS: AtomicUsize = AtomicUsize::new(0);
pub static MEMS: AtomicUsize = AtomicUsize::new(0);

/// The address (without displacement, which belongs to the instruction) that
/// the instruction at `b` accesses, folded into one word; 0 if none.
///
/// # Safety
/// `b` points to an instruction about to be executed with registers `g`.
pub unsafe fn address(b: *const u8, ctx: *const libc::ucontext_t) -> u64 {
    // SAFETY: see above
    unsafe {
        let g = &(*ctx).uc_mcontext.gregs;
        let at = |i: usize| *b.add(i);
        let reg = |n: u8| -> u64 {
            const MAP: [i32; 16] = [
                libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI,
                libc::REG_RDI, libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13,
                libc::REG_R14, libc::REG_R15,
            ];
            g[MAP[usize::from(n & 15)] as usize] as u64
        };
        let mut i = 0;
        while i < 10 && matches!(at(i), 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0) {
            i += 1;
        }
        let (mut x, mut bb) = (0u8, 0u8);
        if at(i) & 0xf0 == 0x40 {
            x = at(i) >> 1 & 1;
            bb = at(i) & 1;
            i += 1;
        }
        let op = at(i);
        let mut vsib = false;
        let has = match op {
            0xc5 => {
                i += 2;
                at(i) != 0x77
            }
            0xc4 => {
                x = !(at(i + 1) >> 6) & 1;
                bb = !(at(i + 1) >> 5) & 1;
                let map = at(i + 1) & 0x1f;
                i += 3;
                vsib = map == 2 && (0x90..=0x93).contains(&at(i));
                !(map == 1 && at(i) == 0x77)
            }
            0x62 => {
                x = !(at(i + 1) >> 6) & 1;
                bb = !(at(i + 1) >> 5) & 1;
                let map = at(i + 1) & 7;
                i += 4;
                vsib = map == 2 && matches!(at(i), 0x90..=0x93 | 0xa0..=0xa3);
                true
            }
            0x0f => {
                i += 1;
                let o = at(i);
                match o {
                    0x38 | 0x3a => {
                        i += 1;
                        true
                    }
                    // prefetch / multi-byte nop name an address but do not access secrets with it
                    0x05 | 0x06 | 0x08 | 0x09 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa
                    | 0xc8..=0xcf | 0x1e | 0x1f => false,
                    _ => true,
                }
            }
            0x00..=0x3f => op & 7 < 4,
            0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6
            | 0xf7 | 0xfe | 0xff => true,
            0x8d => false, // lea
            // string instructions
            0xa4..=0xa7 | 0xaa..=0xaf => {
                return g[libc::REG_RSI as usize] as u64 ^ (g[libc::REG_RDI as usize] as u64).rotate_left(17);
            }
            _ => false,
        };
        // the stack pointer is part of every step (push, pop, call, ret)
        let sp = (g[libc::REG_RSP as usize] as u64).rotate_left(9);
        if !has {
            return sp;
        }
        let m = at(i + 1);
        if m >> 6 == 3 {
            return sp;
        }
        MEMS.fetch_add(1, Relaxed);
        if m & 7 == 4 {
            let s = at(i + 2);
            let base = if s & 7 == 5 && m >> 6 == 0 { 0 } else { reg((s & 7) | bb << 3) };
            let idx = (s >> 3 & 7) | x << 3;
            if vsib {
                // vector of indices: 128-bit part of the register (FXSAVE area) and its upper half (XSAVE)
                let fp = (*ctx).uc_mcontext.fpregs.cast::<u8>();
                let lo = fp.add(160 + 16 * usize::from(idx)).cast::<u64>();
                let hi = fp.add(576 + 16 * usize::from(idx)).cast::<u64>();
                let v = lo.read_unaligned() ^ lo.add(1).read_unaligned().rotate_left(7) ^ hi.read_unaligned().rotate_left(21)
                    ^ hi.add(1).read_unaligned().rotate_left(35);
                return sp ^ base ^ crate::prng::mix(v);
            }
            let off = if idx == 4 { 0 } else { reg(idx) << (s >> 6) };
            return sp ^ base.wrapping_add(off);
        }
        if m & 7 == 5 && m >> 6 == 0 {
            return sp; // relative to the instruction
        }
        sp ^ reg((m & 7) | bb << 3)
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // SAFETY: called by the kernel with a valid context; one thread
    unsafe {
        let ctx = ctx.cast::<libc::ucontext_t>();
        let rip = (*ctx).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let ea = address(rip as *const u8, ctx);
        let i = POS.fetch_add(1, Relaxed);
        STEPS.fetch_add(1, Relaxed);
        if i >= CAP {
            return;
        }
        let rips = (&raw mut RIPS).as_mut().unwrap_unchecked();
        let eas = (&raw mut EAS).as_mut().unwrap_unchecked();
        if RECORD.load(Relaxed) {
            rips[i] = rip;
            eas[i] = ea;
        } else if DIFF.load(Relaxed) == 0 && (i >= LEN.load(Relaxed) || rips[i] != rip || eas[i] != ea) {
            DIFF.store(i + 1, Relaxed);
            DIFF_RIP.store(rip as usize, Relaxed);
            DIFF_EA.store(ea as usize, Relaxed);
        }
    }
}

pub fn prepare_trace() {
    // SAFETY: one thread, before any trap
    unsafe {
        *(&raw mut RIPS) = vec![0; CAP];
        *(&raw mut EAS) = vec![0; CAP];
        let mut s: libc::sigaction = core::mem::zeroed();
        s.sa_sigaction = on_trap as *const () as usize;
        s.sa_flags = libc::SA_SIGINFO;
        assert!(libc::sigaction(libc::SIGTRAP, &s, core::ptr::null_mut()) == 0, "harness: sigaction");
    }
}

#[inline(never)]
pub fn traced(f: fn(&Script, &mut Mat), s: &Script, m: &mut Mat) {
    trap_flag(true);
    f(s, m);
    trap_flag(false);
}

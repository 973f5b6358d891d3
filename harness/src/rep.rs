//! Verdicts, panic attribution and evidence counters.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug)]
pub struct PanicAt {
    pub file: String,
    pub line: u32,
    pub msg: String,
}
thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: RefCell<Option<PanicAt>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let (file, line) = i.location().map_or((String::new(), 0), |l| (l.file().to_string(), l.line()));
        if !GUARDED.with(std::cell::Cell::get) {
            // a fault of the harness, or one that is about to end the process: say so
            eprintln!("panic outside a guarded call at {file}:{line}: {msg}");
        }
        LAST.with(|c| *c.borrow_mut() = Some(PanicAt { file, line, msg }));
    }));
}
/// Single-step everything that runs inside `guarded`.
pub static STEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Sets or clears the trap flag of the processor.
#[inline(always)]
pub fn trap_flag(on: bool) {
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    // SAFETY: changes the trap flag only; a SIGTRAP handler is installed by whoever steps
    unsafe {
        if on {
            core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            core::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
        }
    }
    let _ = on;
}

/// Runs `f` (a call of the code under test), reporting an escaped panic with its location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, PanicAt> {
    let step = STEP.load(std::sync::atomic::Ordering::Relaxed);
    let outer = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if step {
            trap_flag(true);
        }
        let v = f();
        if step {
            trap_flag(false);
        }
        v
    }));
    if step {
        trap_flag(false);
    }
    GUARDED.with(|g| g.set(outer));
    r.map_err(|_| {
        LAST.with(|c| c.borrow_mut().take()).unwrap_or(PanicAt {
            file: String::new(),
            line: 0,
            msg: "panic without a message".into(),
        })
    })
}
impl PanicAt {
    /// The harness itself failed (an error of the check, not of the code under test).
    pub fn is_harness(&self) -> bool {
        self.msg.starts_with("harness:") || (self.file.starts_with("src/") && !self.msg.starts_with("DUT:"))
    }
}

#[derive(Debug)]
pub enum Bad {
    Violation(String),
    Harness(String),
}
impl From<PanicAt> for Bad {
    fn from(p: PanicAt) -> Bad {
        let s = format!("panic at {}:{}: {}", p.file, p.line, p.msg);
        if p.is_harness() { Bad::Harness(s) } else { Bad::Violation(s) }
    }
}
pub fn viol<T>(s: String) -> Result<T, Bad> {
    Err(Bad::Violation(s))
}

#[derive(Default)]
pub struct Rep {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String)>,
    pub harness: Vec<(u64, String)>,
    /// digest per case (transcripts)
    pub transcript: Vec<(u64, u64)>,
}
impl Rep {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < if cfg!(miri) { 1 } else { 3 } {
            let mut s = s();
            if cfg!(miri) {
                s.truncate(400);
            }
            self.samples.push(s);
        }
    }
    pub fn json(&self, extra: &[(&str, String)]) -> String {
        let q = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let mut o = String::from("{");
        for (k, v) in extra {
            o.push_str(&format!("{}:{},", q(k), q(v)));
        }
        o.push_str(&format!("\"evaluations\":{},\"distinct\":{},\"counts\":{{", self.evaluations, self.distinct.len()));
        o.push_str(&self.counts.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        for (name, list) in [("violations", &self.violations), ("harness", &self.harness)] {
            o.push_str(&format!("],\"{name}\":["));
            o.push_str(
                &list.iter().map(|(c, s)| format!("{{\"case\":\"{c:#x}\",\"what\":{}}}", q(s))).collect::<Vec<_>>().join(","),
            );
        }
        o.push_str("],\"transcript\":[");
        o.push_str(
            &self.transcript.iter().map(|(c, d)| format!("\"{c:x}:{d:x}\"")).collect::<Vec<_>>().join(","),
        );
        o.push_str("]}");
        o
    }
}

fn crate_mix(z: u64) -> u64 {
    let z = (z ^ (z >> 32)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 29)
}

/// A 64-bit digest, used for transcripts and case signatures.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        // eight bytes at a time (Miri pays for every step)
        let (w, tail) = b.as_chunks::<8>();
        for x in w {
            self.0 = (self.0 ^ u64::from_le_bytes(*x)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        }
        for x in tail {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = crate_mix(self.0);
    }
    pub fn u(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
}

pub fn hexs(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(D[usize::from(x >> 4)] as char);
        s.push(D[usize::from(x & 15)] as char);
    }
    s
}
/// First differing offset with a little context.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let n = got.iter().zip(want).filter(|(a, b)| a != b).count();
    let e = (i + 16).min(got.len()).min(want.len());
    format!("{n} of {} bytes differ, first at {i}: got {} want {}", got.len(), hexs(&got[i..e]), hexs(&want[i..e]))
}

//! Buffers handed to the code under test, with a monitor for stray writes.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// canary bytes on both sides
    Canary,
    /// exactly sized heap allocations (for ASan / Miri / memcheck)
    Exact,
    /// the buffer ends (or starts) at an inaccessible page; inputs are read-only
    Guard,
}

const PAD: usize = 96;
const CAN: u8 = 0xC5;
static CANS: [u8; PAD] = [CAN; PAD];
fn intact(s: &[u8]) -> bool {
    s == &CANS[..s.len()]
}

pub struct Region {
    mode: Mode,
    v: Vec<u8>,
    off: usize,
    len: usize,
    #[cfg(not(miri))]
    map: Option<(*mut u8, usize)>,
}
impl Region {
    pub fn new(mode: Mode) -> Self {
        Region {
            mode,
            v: Vec::new(),
            off: 0,
            len: 0,
            #[cfg(not(miri))]
            map: None,
        }
    }
    /// A buffer of `len` bytes whose address is `align` past a 64-byte boundary
    /// (Canary), `align` past the allocation start (Exact), or flush against a
    /// guard page (Guard; `align` odd: at the end, even: at the start).
    pub fn place(&mut self, len: usize, align: usize) -> &mut [u8] {
        self.len = len;
        match self.mode {
            Mode::Canary => {
                let need = len + 2 * PAD + 192;
                if self.v.len() < need {
                    self.v = vec![CAN; need];
                }
                let a = self.v.as_ptr() as usize;
                let base = (64 - a % 64) % 64 + 128;
                self.off = base + align % 64;
                let (s, e) = (self.off, self.off + len);
                self.v[s - PAD..s].fill(CAN);
                let top = (e + PAD).min(self.v.len());
                self.v[e..top].fill(CAN);
                &mut self.v[s..e]
            }
            Mode::Exact => {
                let off = align % 8;
                self.v = vec![CAN; len + off];
                self.off = off;
                &mut self.v[off..]
            }
            Mode::Guard => self.guard(len, align),
        }
    }
    #[cfg(miri)]
    fn guard(&mut self, _: usize, _: usize) -> &mut [u8] {
        panic!("harness: guard pages are not available under Miri")
    }
    #[cfg(not(miri))]
    fn guard(&mut self, len: usize, align: usize) -> &mut [u8] {
        const PG: usize = 4096;
        let need = (len + 64).div_ceil(PG) * PG;
        if self.map.is_none_or(|(_, n)| n < need) {
            self.unmap();
            // SAFETY: fresh anonymous mapping, bounds kept in `self.map`.
            unsafe {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    need + 2 * PG,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED, "harness: mmap failed");
                let body = p.cast::<u8>().add(PG);
                assert!(libc::mprotect(body.cast(), need, libc::PROT_READ | libc::PROT_WRITE) == 0, "harness: mprotect");
                self.map = Some((body, need));
            }
        }
        let (p, n) = self.map.expect("harness: mapped");
        let off = if align & 1 == 1 { n - len } else { 0 };
        self.off = off;
        // SAFETY: inside the mapping.
        unsafe {
            let all = std::slice::from_raw_parts_mut(p, n);
            // canaries on the side that is not the guard page
            if off == 0 {
                let e = (len + PAD).min(n);
                all[len..e].fill(CAN);
            } else {
                all[off.saturating_sub(PAD)..off].fill(CAN);
            }
            &mut all[off..off + len]
        }
    }
    #[cfg(not(miri))]
    fn unmap(&mut self) {
        if let Some((p, n)) = self.map.take() {
            // SAFETY: the mapping made in `guard`.
            unsafe {
                libc::munmap(p.sub(4096).cast(), n + 8192);
            }
        }
    }
    #[cfg(not(miri))]
    pub fn protect(&mut self, ro: bool) {
        if let (Mode::Guard, Some((p, n))) = (self.mode, self.map) {
            let prot = if ro { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
            // SAFETY: our own mapping.
            let r = unsafe { libc::mprotect(p.cast(), n, prot) };
            assert!(r == 0, "harness: mprotect");
        }
    }
    #[cfg(miri)]
    pub fn protect(&mut self, _: bool) {}

    pub fn slice(&mut self) -> &mut [u8] {
        #[cfg(not(miri))]
        if let (Mode::Guard, Some((p, _))) = (self.mode, self.map) {
            // SAFETY: inside the mapping.
            return unsafe { std::slice::from_raw_parts_mut(p.add(self.off), self.len) };
        }
        &mut self.v[self.off..self.off + self.len]
    }
    /// Err: a byte outside the buffer was changed.
    pub fn check(&self) -> Result<(), String> {
        let bad = |side: &str, d: usize| Err(format!("byte {d} {side} the buffer was overwritten"));
        match self.mode {
            Mode::Exact => {
                if let Some(i) = self.v[..self.off].iter().rposition(|b| *b != CAN) {
                    return bad("before", self.off - i);
                }
                Ok(())
            }
            Mode::Canary => {
                let (s, e) = (self.off, self.off + self.len);
                let top = (e + PAD).min(self.v.len());
                if intact(&self.v[s - PAD..s]) && intact(&self.v[e..top]) {
                    return Ok(());
                }
                if let Some(i) = self.v[s - PAD..s].iter().rposition(|b| *b != CAN) {
                    return bad("before", PAD - i);
                }
                if let Some(i) = self.v[e..top].iter().position(|b| *b != CAN) {
                    return bad("after", i);
                }
                Ok(())
            }
            Mode::Guard => {
                #[cfg(not(miri))]
                if let Some((p, n)) = self.map {
                    // SAFETY: inside the mapping.
                    let all = unsafe { std::slice::from_raw_parts(p, n) };
                    if self.off == 0 {
                        let e = (self.len + PAD).min(n);
                        if let Some(i) = all[self.len..e].iter().position(|b| *b != CAN) {
                            return bad("after", i);
                        }
                    } else if let Some(i) =
                        all[self.off.saturating_sub(PAD)..self.off].iter().rposition(|b| *b != CAN)
                    {
                        return bad("before", self.off.min(PAD) - i);
                    }
                }
                Ok(())
            }
        }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        #[cfg(not(miri))]
        self.unmap();
    }
}

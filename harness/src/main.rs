//! `vmon ENGINE key=value ...`: runs monitored cases and prints one
//! `VMON-JSON {...}` line. Exit 0 whatever the verdict; the driver reads it.

use std::time::Instant;

use vmon::dut::{self, Kind};
use vmon::mem::Mode;
use vmon::prng::mix;
use vmon::rep::{Bad, Rep, guarded, install_hook};
use vmon::{coreh, hist, inst, lanes, misc, model, paths, shape, threads};

struct Args(Vec<(String, String)>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        match self.get(k) {
            None => d,
            Some(s) => {
                let r = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16) } else { s.parse() };
                r.unwrap_or_else(|_| panic!("harness: bad number {k}={s}"))
            }
        }
    }
}

/// Last started case, readable by the driver after a crash.
struct InFlight(#[cfg(not(miri))] Option<*mut u64>);
impl InFlight {
    #[cfg(miri)]
    fn open(_: Option<&str>) -> Self {
        InFlight()
    }
    #[cfg(miri)]
    fn set(&self, c: u64) {
        println!("CASE {c:#x}");
    }
    #[cfg(not(miri))]
    fn open(path: Option<&str>) -> Self {
        use std::os::fd::AsRawFd;
        let Some(p) = path else { return InFlight(None) };
        let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(p).expect("harness: state file");
        f.set_len(4096).expect("harness: state file");
        // SAFETY: a private file of this run, mapped for its lifetime.
        let m = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(m != libc::MAP_FAILED, "harness: mmap");
        InFlight(Some(m.cast()))
    }
    #[cfg(not(miri))]
    fn set(&self, c: u64) {
        if let Some(p) = self.0 {
            // SAFETY: mapped above.
            unsafe { p.write_volatile(c) }
        }
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let engine = it.next().expect("harness: engine");
    let a = Args(it.map(|s| { let (k, v) = s.split_once('=').expect("harness: key=value"); (k.into(), v.into()) }).collect());
    // (the native runs of the same model do the self-test for Miri)
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    if let Some(s) = a.get("cpu") {
        if let Err(e) = vmon::cpu::present(s) {
            println!("VMON-UNSUPPORTED {e}");
            std::process::exit(4);
        }
    }
    #[allow(unused_variables)]
    let step = a.num("step", 0) == 1;
    match if cfg!(miri) || a.num("selftest", 1) == 0 { Ok(0) } else { model::self_test() } {
        Ok(_) => {}
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3);
        }
    }
    install_hook();
    let seed = a.num("seed", 1);
    let cases = a.num("cases", u64::MAX);
    let secs = a.num("secs", 0);
    let shard = a.num("shard", 0);
    let max_viol = a.num("maxviol", 5) as usize;
    let mode = match a.get("mode").unwrap_or("canary") {
        "canary" => Mode::Canary,
        "exact" => Mode::Exact,
        "guard" => Mode::Guard,
        m => panic!("harness: mode {m}"),
    };
    let mut kinds: Vec<Kind> = a
        .get("kinds")
        .unwrap_or("all")
        .split(',')
        .flat_map(|s| Kind::parse(s).unwrap_or_else(|| panic!("harness: kind {s}")))
        .collect();
    let model_on = a.num("model", 1) == 1;
    let big = a.num("big", 1 << 16) as usize;
    let ops = a.num("ops", 14) as usize;
    if engine == "core" {
        kinds.retain(|k| *k != Kind::Rc4);
    }
    kinds.retain(|k| k.available());
    if kinds.is_empty() && !matches!(engine.as_str(), "rng" | "gen" | "paths" | "lanes" | "debug" | "threads" | "burst" | "crowd" | "rounds" | "huge" | "ct") {
        eprintln!("harness: no kinds left");
        std::process::exit(3);
    }
    let hc = hist::Cfg {
        kinds: kinds.clone(),
        ops,
        big,
        mode,
        seek: a.num("seek", 18),
        query: a.num("query", 12),
        end: a.num("end", 12),
        portable: a.num("portable", 0) == 1,
        model: model_on,
    };
    let sc = shape::Cfg { kinds: kinds.clone(), big };
    let cc = coreh::Cfg { kinds: kinds.clone(), ops, model: model_on, wrap: a.num("wrap", 1) == 1, small: a.num("small", 0) as usize, portable: a.num("portable", 0) == 1 };
    #[cfg(feature = "rng")]
    let rc = vmon::rngh::Cfg {
        ops: a.num("ops", 24) as usize,
        big: a.num("big", 1 << 14) as usize,
        mode,
        mv: a.num("mv", 12),
        query: a.num("query", 15),
        ser: a.num("ser", 6),
        model: model_on,
    };
    let pc = paths::Cfg {
        kinds: kinds.clone(),
        fast: a.num("fast", 0) == 1,
        rng: a.num("rng", u64::from(cfg!(feature = "rng"))) == 1,
        model: model_on,
        mode,
        most: a.num("most", 40) as usize,
    };
    let lc = lanes::Cfg {
        kinds: kinds.clone(),
        rng: pc.rng,
        fast: pc.fast,
        wrap: a.num("wrap", 1) == 1,
        most: a.num("most", 20),
        single: a.num("single", 0) == 1,
    };
    let mut pbufs = paths::Bufs::new(mode);
    let long_total = a.num("total", 8 << 20) as usize;

    let fl = InFlight::open(a.get("state"));
    let mut rep = Rep::default();
    let mut bufs = hist::Bufs::new(mode);
    let tc = threads::Cfg {
        kinds: kinds.clone(),
        threads: a.num("threads", 8) as usize,
        ops,
        big: a.num("big", 700) as usize,
    };
    let mut seen = inst::Seen::default();
    let mut ctor_args = inst::Args { key: vmon::mem::Region::new(mode), iv: vmon::mem::Region::new(mode) };
    #[cfg(any(miri, all(target_arch = "x86_64", target_os = "linux")))]
    let mut ct = (engine == "ct").then(|| vmon::ct::Ct::new(a.num("taint", 0) == 1, a.num("big", 700) as usize, a.num("from", 0) as usize));
    let mut one = |case: u64, rep: &mut Rep| -> Result<(), Bad> {
        match engine.as_str() {
            "hist" => hist::run_case(case, &hc, &mut bufs, rep),
            "shape" => shape::run_case(case, &sc, &mut bufs, rep),
            "core" => coreh::run_case(case, &cc, rep),
            "threads" => threads::run_case(case, &tc, rep),
            "crowd" => threads::crowd_case(case, &kinds, a.num("big", 300) as usize, rep),
            "burst" => threads::burst_case(case, &tc, a.num("reps", 400) as usize, rep),
            "huge" => misc::huge_case(case, &kinds, a.num("huge", 0), a.num("rng", 0) == 1, a.num("twin", 0) == 1, rep),
            "rounds" => misc::rounds_case(case, a.get("ways").unwrap_or("0123456"), rep),
            "debug" => inst::debug_case(case, &mut seen, rep),
            "ctor" => inst::ctor_case(case, &kinds, &mut ctor_args, rep),
            #[cfg(any(miri, all(target_arch = "x86_64", target_os = "linux")))]
            "ct" => {
                let c = ct.as_mut().expect("harness: ct");
                let r = guarded(|| c.case(case, rep)).map_err(Bad::from);
                c.report(rep);
                r?
            }
            "paths" => paths::run_case(case, &pc, &mut pbufs, rep),
            "lanes" => lanes::run_case(case, &lc, rep),
            "hfun" => misc::hfun_case(case, &kinds, rep),
            "redge" => misc::redge_case(case, &kinds, rep),
            "long" => misc::long_case(case, &kinds, long_total, rep),
            #[cfg(feature = "rng")]
            "rng" => vmon::rngh::run_case(case, &rc, &mut bufs.out, rep),
            #[cfg(feature = "rng")]
            "gen" => misc::gen_case(case, rep),
            _ => Err(Bad::Harness(format!("unknown engine {engine}"))),
        }
    };
    let tag = engine.bytes().fold(seed, |h, b| mix(h ^ u64::from(b))) ^ mix(shard);
    let t0 = Instant::now();
    let only = a.get("case").map(|_| a.num("case", 0));
    let mut i = 0u64;
    loop {
        if i >= cases || (secs > 0 && (cfg!(miri) || i % 8 == 0) && t0.elapsed().as_secs() >= secs) {
            break;
        }
        let case = only.unwrap_or_else(|| if engine == "paths" || engine == "lanes" || (cfg!(miri) && engine == "ct") { (tag << 24 >> 8).wrapping_add(i) } else { mix(tag.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15))) });
        i += 1;
        fl.set(case);
        #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
        let r = if step {
            let (r, bad) = vmon::cpu::stepped(|| one(case, &mut rep));
            match bad {
                Some(b) => Err(Bad::Violation(format!("on a processor without it, {engine} case {case:#x} {b}"))),
                None => r,
            }
        } else {
            one(case, &mut rep)
        };
        #[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
        let r = one(case, &mut rep);
        match r {
            Ok(()) => {}
            Err(Bad::Violation(s)) => {
                rep.violations.push((case, s));
            }
            Err(Bad::Harness(s)) => {
                rep.harness.push((case, s));
            }
        }
        if only.is_some() || rep.violations.len() + rep.harness.len() >= max_viol {
            break;
        }
    }
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    if step || a.get("cpu").is_some() {
        vmon::cpu::report(&mut rep);
    }
    let _ = dut::ALL;
    println!("VMON-JSON {}", rep.json(&[("engine", engine.clone())]));
}

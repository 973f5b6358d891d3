"""Building, running and judging the monitored workloads."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4
CRATES = ["chacha20", "salsa20", "hc-256", "rabbit", "rc4"]
HOST = "x86_64-unknown-linux-gnu"


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()
HAS_AVX2 = "avx2" in CPU
HAS_512 = {"avx512f", "avx512vl", "avx2"} <= CPU

# name -> (rustflags, needs avx2, needs avx512)
CFGS = {
    "auto": ("", False, False),
    "auto512": ("--cfg chacha20_avx512", False, True),
    "soft": ('--cfg chacha20_backend="soft"', False, False),
    "sse2": ('--cfg chacha20_backend="sse2"', False, False),
    "avx2": ('--cfg chacha20_backend="avx2" -C target-feature=+avx2', True, False),
    "f512": ('--cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl,+avx2', False, True),
}


def usable(cfgs):
    out = []
    for c in cfgs:
        _, a, b = CFGS[c]
        if (a and not HAS_AVX2) or (b and not HAS_512):
            continue
        out.append(c)
    return out


class Failure(Exception):
    """The check itself could not do its work."""


def src_hash():
    """A digest of everything that the builds read from /repo."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(base, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_SRC = None
_LOCK = threading.Lock()


def target_dir(name):
    """A build directory; anything built from other sources is invalidated
    (time stamps alone are not trusted)."""
    global _SRC
    with _LOCK:
        if _SRC is None:
            _SRC = src_hash()
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    mark = os.path.join(d, ".src")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != _SRC:
        for base, dirs, _ in os.walk(d):
            if os.path.basename(base) == ".fingerprint":
                for x in list(dirs):
                    if re.match(r"(chacha20|salsa20|hc-256|rabbit|rc4|vmon|[a-z0-9]*mon)-", x):
                        shutil.rmtree(os.path.join(base, x), ignore_errors=True)
                dirs[:] = []
        with open(mark, "w") as f:
            f.write(_SRC)
    return d


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


def sh(cmd, timeout, **kw):
    """Runs a command in its own process group; returns (rc, stdout, stderr, timed_out)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, o, e, True


def build(name, rustflags="", profile="checked", features=None, toolchain=None, extra=None, target=None,
          bin="vmon", pkg="harness", jobs=None, extra_env=None):
    """Builds a harness binary; returns its path or raises Failure with the log."""
    td = target_dir(name)
    cmd = ["cargo"]
    if toolchain:
        cmd.append("+" + toolchain)
    cmd += ["build", "--offline", "-q", "--profile", profile, "--manifest-path",
            os.path.join(VERIF, pkg, "Cargo.toml"), "--bin", bin]
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    if target:
        cmd += ["--target", target]
    if jobs:
        cmd += ["-j", str(jobs)]
    cmd += extra or []
    e = {"CARGO_TARGET_DIR": td}
    # our own lints must not depend on the toolchain
    e["RUSTFLAGS"] = (rustflags + " --cap-lints allow").strip()
    e.update(extra_env or {})
    rc, o, err, to = sh(cmd, 700, env=env(e))
    if rc != 0:
        raise Failure(f"build {name}/{profile} failed (rc={rc}, timeout={to}):\n{err[-6000:]}")
    d = {"dev": "debug"}.get(profile, profile)
    p = os.path.join(td, *( [target] if target else []), d, bin)
    if not os.path.exists(p):
        raise Failure(f"no binary {p}")
    return p


# Vendor intrinsics that Miri has no model of, as plain Rust: (file, function, body)
SHIMS = [
    ("aarch64/neon/generated.rs", "fn vqtbl1q(a: int8x16_t, b: uint8x16_t) -> int8x16_t", """{
    unsafe {
        let a: [i8; 16] = transmute(a);
        let b: [u8; 16] = transmute(b);
        let mut r = [0i8; 16];
        let mut i = 0;
        while i < 16 {
            if b[i] < 16 {
                r[i] = a[b[i] as usize];
            }
            i += 1;
        }
        transmute(r)
    }
}"""),
    ("x86/avx512f.rs", "pub fn _mm256_permutex2var_epi64(a: __m256i, idx: __m256i, b: __m256i) -> __m256i", """{
    unsafe {
        let x: [[i64; 4]; 2] = [transmute(a), transmute(b)];
        let k: [i64; 4] = transmute(idx);
        let mut r = [0i64; 4];
        let mut i = 0;
        while i < 4 {
            r[i] = x[((k[i] >> 2) & 1) as usize][(k[i] & 3) as usize];
            i += 1;
        }
        transmute(r)
    }
}"""),
]
SHIM_ID = hashlib.sha256(repr(SHIMS).encode()).hexdigest()[:8]
_SYSROOT_LOCK = threading.Lock()
_SYSROOT_LOCKS = {}


def miri_sysroot(target):
    return os.path.join(BUILD, "miri-sysroot", target)


def build_miri_sysroot(target):
    """A Miri sysroot whose standard library knows the intrinsics of SHIMS."""
    with _SYSROOT_LOCK:
        lk = _SYSROOT_LOCKS.setdefault(target, threading.Lock())
        rc, o, e, _ = sh(["rustc", "+nightly", "--print", "sysroot"], 60, env=env())
        src = os.path.join(o.strip(), "lib/rustlib/src/rust/library")
        rc, ver, e, _ = sh(["rustc", "+nightly", "-vV"], 60, env=env())
        mark = hashlib.sha256((ver + repr(SHIMS)).encode()).hexdigest()
        lib = os.path.join(BUILD, "miri-src", "library")
        stamp = os.path.join(BUILD, "miri-src", "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == mark):
            shutil.rmtree(os.path.dirname(lib), ignore_errors=True)
            shutil.copytree(src, lib, symlinks=True)
            for f, sig, body in SHIMS:
                p = os.path.join(lib, "stdarch/crates/core_arch/src", f)
                s = open(p).read()
                m = re.search(re.escape(sig) + r" (\{\n.*?\n\}\n)", s, re.S)
                if m:
                    open(p, "w").write(s[:m.start(1)] + body + "\n" + s[m.end(1):])
            open(stamp, "w").write(mark)
    with lk:
        d = miri_sysroot(target)
        st = d + ".stamp"
        if os.path.exists(st) and open(st).read() == mark:
            return
        shutil.rmtree(d, ignore_errors=True)
        rc, o, e, _ = sh(["cargo", "+nightly", "miri", "setup", "-q", "--target", target], 600,
                         env=env({"MIRI_LIB_SRC": lib, "MIRI_SYSROOT": d}))
        if rc != 0:
            raise Failure(f"no Miri sysroot for {target}:\n{e[-3000:]}")
        open(st, "w").write(mark)


class Job:
    """One run of the harness."""

    def __init__(self, label, cmd, args, secs, env=None, kind="native", timeout=None, replayable=True):
        self.label, self.cmd, self.args, self.secs = label, list(cmd), dict(args), secs
        self.env, self.kind = env or {}, kind
        self.timeout = timeout or (secs * 4 + 90)
        self.replayable = replayable


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.counts = {}
        self.samples = []
        self.violations = []  # (what, replay dict)
        self.errors = []
        self.transcripts = {}
        self.notes = []
        self.jobs = 0
        self.per_label = {}

    def add_count(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n


TMP = None
TMP_LOCK = threading.Lock()


def tmpdir():
    global TMP
    with TMP_LOCK:
        if TMP is None:
            d = os.path.join(BUILD, "tmp", str(os.getpid()))
            os.makedirs(d, exist_ok=True)
            TMP = d
    return TMP


def cleanup_tmp():
    if TMP:
        shutil.rmtree(TMP, ignore_errors=True)


def parse(o):
    for line in o.splitlines()[::-1]:
        if line.startswith("VMON-JSON "):
            return json.loads(line[len("VMON-JSON "):])
    return None


def kv(args):
    return [f"{k}={v}" for k, v in args.items()]


def signame(rc):
    import signal
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return f"exit status {rc}"


def relevant(err):
    """The lines of a tool report that say what happened."""
    keep = []
    for l in err.splitlines():
        s = l.strip()
        if not s:
            continue
        keep.append(s)
    for i, s in enumerate(keep):
        if re.search(r"error:|ERROR: |WARNING: ThreadSanitizer|SUMMARY|Undefined Behavior|panicked", s):
            return " | ".join(keep[i:i + 14])[:1500]
    return " | ".join(keep[-10:])[:1500]


def vg_report(err):
    """The first error in a valgrind log."""
    ls = [re.sub(r"^==\d+== ?", "", l).strip() for l in err.splitlines() if l.startswith("==")]
    return " | ".join(l for l in ls[:9] if l)[:900]


def run_job(j, res, lock, deadline):
    state = os.path.join(tmpdir(), f"st{threading.get_ident()}_{time.monotonic_ns()}")
    args = dict(j.args)
    if j.secs:
        left = deadline - time.monotonic()
        if left < 2:
            with lock:
                res.notes.append(f"{j.label}: skipped, out of time")
            return
        args["secs"] = max(1, min(j.secs, int(left)))
    if j.kind == "native":
        args["state"] = state
    t0 = time.monotonic()
    rc, o, err, to = sh(j.cmd + kv(args), j.timeout, env=env(j.env), cwd=VERIF)
    dt = time.monotonic() - t0
    rep = parse(o)
    rdict = {"label": j.label, "cmd": j.cmd, "args": j.args, "env": j.env}
    with lock:
        res.jobs += 1
    if rep is not None and rc == 0:
        with lock:
            res.evaluations += rep["evaluations"]
            res.distinct += rep["distinct"]
            for k, n in rep["counts"].items():
                res.add_count(k, n)
            pl = res.per_label.setdefault(j.label, {"evaluations": 0, "distinct": 0, "runs": 0, "seconds": 0.0})
            pl["evaluations"] += rep["evaluations"]
            pl["distinct"] += rep["distinct"]
            pl["runs"] += 1
            pl["seconds"] = round(pl["seconds"] + dt, 1)
            for s in rep["samples"]:
                if len(res.samples) < 12:
                    res.samples.append(f"[{j.label}] {s[:900]}")
            for i, v in enumerate(rep["violations"]):
                more = f" || first report: {vg_report(err)}" if i == 0 and j.cmd[0] == "valgrind" else ""
                res.violations.append((f"[{j.label}] {v['what']}{more}", dict(rdict, case=v["case"])))
            for v in rep["harness"]:
                res.errors.append(f"[{j.label}] harness error in case {v['case']}: {v['what']}")
            if rep["transcript"]:
                res.transcripts.setdefault(j.label, []).extend(rep["transcript"])
        return
    if j.kind == "miri" and "unsupported operation" in err:
        # Miri cannot interpret this (a vendor intrinsic it has no model of): nothing is learnt; go on with other cases
        m = re.search(r"unsupported operation: (.*)", err)
        with lock:
            n = len(re.findall(r"^CASE ", o, re.M))
            res.evaluations += max(0, n - 1)
            res.distinct += max(0, n - 1)
            pl = res.per_label.setdefault(j.label, {"evaluations": 0, "distinct": 0, "runs": 0, "seconds": 0.0})
            pl["evaluations"] += max(0, n - 1)
            pl["unsupported"] = pl.get("unsupported", 0) + 1
            note = f"{j.label}: not interpretable by Miri: {m.group(1)[:160] if m else '?'}"
            if note not in res.notes:
                res.notes.append(note)
        left = args.get("secs", 0) - dt
        if left > 2 and j.args.get("shard", 0) < 10_000_000:
            j2 = Job(j.label, j.cmd, dict(j.args, shard=j.args.get("shard", 0) + 1_000_003), int(left), j.env, j.kind,
                     j.timeout, j.replayable)
            run_job(j2, res, lock, deadline)
        return
    # the process died: find the case that was running and see whether it does it again
    case = None
    if j.kind == "native" and os.path.exists(state):
        with open(state, "rb") as f:
            case = int.from_bytes(f.read(8), "little")
    else:
        m = re.findall(r"^CASE (0x[0-9a-f]+)", o, re.M)
        if m:
            case = int(m[-1], 16)
    if rc == 3 or case is None or "harness:" in err:
        with lock:
            res.errors.append(f"[{j.label}] rc={rc} timeout={to}: {relevant(err)}")
        return
    again = 0
    err2 = err
    for _ in range(2):
        a2 = {k: v for k, v in j.args.items() if k not in ("secs", "cases")}
        rc2, o2, e2, to2 = sh(j.cmd + kv(dict(a2, case=hex(case))), 150, env=env(j.env), cwd=VERIF)
        rep2 = parse(o2)
        if rep2 is None or rc2 != 0:
            again += 1
            err2 = e2
        elif rep2["violations"]:
            again += 1
            err2 = rep2["violations"][0]["what"]
    what = f"[{j.label}] case {case:#x}: " + (
        "does not finish" if to else f"process ended with {signame(rc)}: {relevant(err2)}")
    with lock:
        # out of memory (the sandbox ends processes with SIGKILL) proves nothing
        if again == 2 and (to or rc != -9):
            res.violations.append((what, dict(rdict, case=hex(case))))
        elif not to and rc != -9 and ("Sanitizer" in err or "Undefined Behavior" in err):
            res.violations.append((what, dict(rdict, case=hex(case))))
        else:
            res.errors.append(f"{what} (not reproduced: {again} of 2)")


def run_jobs(jobs, res, workers=NCPU, budget=600):
    lock = threading.Lock()
    deadline = time.monotonic() + budget
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(run_job, j, res, lock, deadline) for j in jobs]:
            f.result()


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def finish(pid, res, t0, rule, assumptions, extra=None, level="exploration"):
    known = known_findings(pid)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    new, seen_known = [], set()
    for what, rd in res.violations:
        for rx, desc in known:
            if rx.search(what):
                seen_known.add(desc)
                break
        else:
            new.append((what, rd))
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": res.distinct,
        "rule": rule,
        "samples": res.samples[:12] or ["(none)"],
        "monitor_counts": dict(sorted(res.counts.items())),
        "runs": res.per_label,
        "processes": res.jobs,
    }
    cov.update(extra or {})
    if res.notes:
        cov["notes"] = res.notes[:40]
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
        "coverage": cov, "assumptions": assumptions, "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {d}")
    for e in res.errors[:10]:
        print("CHECK-ERROR:", e[:3000], file=sys.stderr)
    if new:
        for i, (what, rd) in enumerate(new[:20]):
            rp = os.path.join(EVID, "replays", f"{pid}-{i}.json")
            with open(rp, "w") as f:
                json.dump(dict(rd or {}, property=pid, what=what), f, indent=1)
            if i < 5:
                print(f"  {what[:1200]}")
            if i == 0:
                first = rp
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if res.errors:
        return 2
    if res.evaluations == 0:
        print("CHECK-ERROR: nothing was explored", file=sys.stderr)
        return 2
    print(f"{pid}: held on {res.evaluations} cases ({res.distinct} distinct), {ev['wall_s']} s")
    return 0

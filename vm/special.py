"""Checks that need more than the generic lockstep run."""
import itertools
import re
import time
from concurrent.futures import ThreadPoolExecutor

from . import core
from .core import CFGS, HOST, NCPU, REPO, SEED, VERIF, Failure, Job, build, env, parse, sh, target_dir, usable
from .props import (ALLCFG, MIRI_FULL, MIRI_FAST, NEON, THOROUGH, Lane, Miri, T, build_cfgs, lanes, miri_lane,
                    native_jobs, seedargs)

M = T(1, 12)  # thorough runs last this many times longer


def par(fs):
    """Runs thunks in parallel; returns their results (a Failure is raised)."""
    with ThreadPoolExecutor(8) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


def only(res, rx, pid):
    """Keeps the violations that are about this property; the rest belongs to other checks."""
    keep, n = [], 0
    for v in res.violations:
        if re.search(rx, v[0]):
            keep.append(v)
        else:
            n += 1
            if n <= 5:
                res.notes.append("left to the property it concerns: " + v[0][:300])
    res.violations[:] = keep


def spec_time(spec):
    return [(e, a, s * M, n) for e, a, s, n in spec]


# ------------------------------------------------------------------ C14


ZSETS = ["chacha", "rng", "salsa", "hc", "rabbit", "rc4", "chacha,rng"]


PAD_RX = re.compile(r"^\[(\S+) \w+\] (.*) \(\d+ bytes\): \d+ bytes left after drop .* at offsets \[([\d, ]+)\]")


def padding(fs, cases, res):
    """cases: [(type name, offset, case)]. Which of these bytes are padding, according to Miri: a byte that is
    uninitialised both in a fresh instance and in one that was used as the case says."""
    m = Miri("z-" + fs.replace(",", "-"), HOST, fs, bin="zmon", pkg="zmon")
    m.warm(("zeroize", "cases=0"))
    cmd, e = m.cmd + ["probe"], env(m.env)

    def one(c):
        name, off, case = c
        for after in (0, 1):
            rc, o, err, to = sh(cmd + [f"case={case}", f"off={off}", f"after={after}"], 200, env=e, cwd=VERIF)
            if not ("PROBING" in o and "INIT" not in o and "uninitialized" in err):
                return None
        return name, off
    with ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(one, cases))
    return [g for g in got if g]


def c14(res):
    pads = {}

    def prep():
        def one(fs, prof):
            return fs, prof, build("z-" + fs.replace(",", "-"), "", prof, fs, bin="zmon", pkg="zmon")
        with ThreadPoolExecutor(8) as ex:
            bins = list(ex.map(lambda fs: [one(fs, "checked"), one(fs, "release")], ZSETS))
        jobs = []
        for i, (fs, prof, b) in enumerate(x for y in bins for x in y):
            for k in range(T(1, 2)):
                a = seedargs(i * 10 + k)
                if pads.get(fs):
                    a["pad"] = ";".join(f"{n}@" + "+".join(map(str, sorted(o))) for n, o in sorted(pads[fs].items()))
                jobs.append(Job(f"{fs} {prof}", [b, "zeroize"], a, 9 * M))
        return jobs
    t0 = time.monotonic()
    lanes(Lane(res, NCPU, T(200, 800)).go(prep))
    # a residue that never moves with the environment may still be padding (say, the high half of an old pointer):
    # ask Miri about those bytes, and judge again without the ones that are padding
    for _ in range(3):
        ask = {}
        for w, rd in res.violations:
            m = PAD_RX.match(w)
            if m:
                for o in map(int, m.group(3).split(", ")):
                    ask.setdefault(m.group(1), {}).setdefault((m.group(2), o), rd["case"])
        new = False
        for fs, d in ask.items():
            todo = [(n, o, c) for (n, o), c in d.items() if o not in pads.get(fs, {}).get(n, ())][:64]
            # a few first: a genuine leak is told from the first bytes
            for part in (todo[:1], todo[1:8], todo[8:]):
                if not part:
                    break
                got = padding(fs, part, res)
                for n, o in got:
                    pads.setdefault(fs, {}).setdefault(n, set()).add(o)
                    res.notes.append(f"{fs}: byte {o} of {n} is padding (uninitialised according to Miri)")
                    new = True
                if len(got) < len(part):
                    break
        if not new or time.monotonic() - t0 > T(500, 700):
            break
        res.violations.clear()
        lanes(Lane(res, NCPU, T(200, 800)).go(prep))
    return ("A case builds an instance with random secrets, uses it, drops it (in place, boxed or as a moved value) "
            "and compares every byte of the memory it occupied with the residue that reference instances leave; "
            "bytes whose residue follows only the earlier contents of stack and heap are padding. Distinct = "
            "different (type, secrets, history).", {}, [
                "The residue of the reference instances is taken as secret-free only because it is the same for "
                "hundreds of unrelated keys, positions and histories.",
                "Copies that the compiler leaves outside the instance (registers, spilled stack slots) are not part "
                "of the property.",
            ])


# ------------------------------------------------------------------ C15


def c15(res):
    cf = ["auto", "auto512", "soft", "sse2", "avx2", "f512"] if THOROUGH else ["auto", "soft", "auto512"]

    def prep():
        b = build_cfgs(cf, "checked", None, res)
        b["zeroize"] = build("auto-zero", "", "checked", "cc,rng,others,zero")
        b["release"] = build("auto-rel", "", "release")
        return native_jobs(b, spec_time([("debug", {}, 8, 2)]))
    lanes(Lane(res, NCPU, T(200, 800)).go(prep))
    return ("A case builds one instance of every public cipher, core and RNG type with random secrets, uses it "
            "randomly, and formats it in seven ways with Debug (where the type implements it); every text must be "
            "equal to the first one seen for the type, and algorithm names must be constant. Distinct = different "
            "secrets and histories.", {}, [])


# ------------------------------------------------------------------ C16


UB_RX = (r"canar|outside|changed its input|input buffer|process ended with|Sanitizer|Undefined Behavior|"
         r"modified its output|does not finish|overran|stray")

UB_NATIVE = [("hist", {"kinds": "all", "model": 0, "mode": "guard", "big": 3000}, 6, 1),
             ("shape", {"kinds": "all", "mode": "guard", "big": 2500}, 4, 1),
             ("core", {"kinds": "all", "model": 0}, 3, 1), ("paths", {"kinds": "all", "model": 0, "mode": "guard"}, 3, 1),
             ("rng", {"model": 0, "mode": "guard", "big": 3000}, 4, 1), ("gen", {}, 2, 1), ("ctor", {"mode": "guard"}, 2, 1)]


def c16(res):
    cf = ALLCFG

    def prep_guard():
        b = build_cfgs(cf, "checked", None, res)
        b["release"] = build("auto-rel", "", "release")
        return native_jobs(b, spec_time(UB_NATIVE), " guard")

    def prep_asan():
        bins = {}

        def one(c):
            try:
                bins[c] = build("asan-" + c, "-Zsanitizer=address " + CFGS[c][0], "checked", toolchain="nightly",
                                target=HOST)
            except Failure as e:
                if c == "auto":
                    raise
                res.notes.append(f"no ASan build of {c}: {str(e)[-300:]}")
        par([lambda c=c: one(c) for c in usable(["auto", "soft", "sse2", "f512"] + T([], ["auto512", "avx2"]))])
        sp = [(e, {**a, **({"mode": "exact"} if "mode" in a else {})}, s, n) for e, a, s, n in UB_NATIVE
              if e in ("hist", "shape", "core", "paths", "rng")]
        return native_jobs(bins, spec_time(sp), " asan")

    # Miri, with borrow and validity checks: the x86 backends and NEON
    ml = []
    tf = {"soft": '--cfg chacha20_backend="soft"', "sse2": '--cfg chacha20_backend="sse2"',
          "avx2": '--cfg chacha20_backend="avx2" -C target-feature=+avx2',
          "f512": '--cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl,+avx2'}
    for c in ["sse2", "avx2", "f512"]:
        # (Miri itself has no model of vpermi2var.q.256, which the AVX-512 half-width path needs)
        m = Miri("ub-" + c, HOST, "cc,rng", tf[c], MIRI_FULL, shim=c == "f512")
        ml.append((m, [("paths", {"kinds": "cc", "fast": 1, "most": 18, "mode": "exact", "model": 0}, 22 * M, 1),
                       ("hist", {"kinds": "cc", "ops": 5, "big": 400, "mode": "exact", "model": 0}, 14 * M, 1),
                       ("rng", {"ops": 8, "big": 500, "mode": "exact", "model": 0}, 10 * M, 1),
                       ("core", {"kinds": "cc", "ops": 3, "small": 9, "model": 0}, 8 * M, 1)]))
    m = Miri("ub-neon", NEON, "cc,rng", "", MIRI_FULL)
    ml.append((m, [("paths", {"kinds": "cc", "fast": 1, "most": 18, "mode": "exact", "model": 0}, 22 * M, 1),
                   ("hist", {"kinds": "cc", "ops": 5, "big": 400, "mode": "exact", "model": 0}, 15 * M, 1),
                   ("rng", {"ops": 8, "big": 500, "mode": "exact", "model": 0}, 12 * M, 1),
                   ("core", {"kinds": "cc", "ops": 3, "small": 9, "model": 0}, 8 * M, 1)]))
    m = Miri("ub-auto", HOST, "cc,rng,others", "", MIRI_FULL)
    ml.append((m, [("paths", {"kinds": "all", "fast": 1, "most": 9, "mode": "exact", "model": 0}, 20 * M, 1),
                   ("hist", {"kinds": "all", "ops": 5, "big": 300, "mode": "exact", "model": 0}, 20 * M, 1),
                   ("core", {"kinds": "all", "ops": 3, "small": 6, "model": 0}, 12 * M, 1),
                   ("ctor", {"mode": "exact"}, 8 * M, 1), ("debug", {}, 8 * M, 1)]))
    ls = [Lane(res, 4, T(300, 800)).go(prep_guard), Lane(res, 3, T(300, 800)).go(prep_asan),
          miri_lane(res, ml, 4, T(300, 800))]
    lanes(*ls)
    only(res, UB_RX, "C16")
    return ("A case is a random history (all ciphers, cores, RNGs) executed under one of three monitors: buffers "
            "flush against inaccessible pages with read-only inputs; AddressSanitizer with exactly sized heap "
            "buffers; Miri's full undefined-behaviour interpreter (aliasing, validity, initialisation, alignment, "
            "target features) for the soft, SSE2, AVX2, AVX-512 and NEON backends. Distinct = different (cipher, key, "
            "nonce, history).", {}, [
                "Reads within the same allocation but outside the slice are seen by Miri and guard pages only.",
                "Miri's models of the vendor intrinsics are trusted."])


# ------------------------------------------------------------------ C17


def c17(res):
    feats = "cc,rng,others"
    ml = []
    h = {"ops": 5, "big": 300, "portable": 1}
    # little keystream, many states: serialisation, positions and queries
    st = {"ops": 14, "big": 20, "mv": 35, "ser": 45, "query": 12}
    ln = {"kinds": "chacha,salsa8", "rng": 1, "fast": 1, "single": 1, "most": 9}
    m = Miri("port-aarch64_be", "aarch64_be-unknown-linux-gnu", "cc,rng", shim=True)
    ml.append((m, [("hist", {"kinds": "cc", **h}, 10 * M, 1), ("rng", {"ops": 10, "big": 400}, 10 * M, 1),
                   ("rng", st, 12 * M, 1), ("lanes", {**ln, "kinds": "chacha"}, 14 * M, 1),
                   ("paths", {"kinds": "cc", "fast": 1, "most": 10}, 10 * M, 1)]))
    for name, tgt, n in [("neon", NEON, 2), ("mips", "mips-unknown-linux-gnu", 1), ("s390x", "s390x-unknown-linux-gnu", 1),
                         ("i686", "i686-unknown-linux-gnu", 1)]:
        m = Miri("port-" + name, tgt, feats)
        ml.append((m, [("hist", {"kinds": "cc", **h}, 16 * M, n), ("paths", {"kinds": "cc,salsa,xsalsa,rabbit", "fast": 1, "most": 18}, 18 * M, 1),
                       ("hist", {"kinds": "salsa,xsalsa", **h}, 14 * M, 1),
                       ("hist", {"kinds": "rabbit,rabbitkey,rc4", **h}, 12 * M, 1), ("hist", {"kinds": "hc256", **h}, 10 * M, 1),
                       ("core", {"kinds": "cc", "ops": 3, "small": 6}, 12 * M, 1),
                       ("core", {"kinds": "others", "ops": 3, "small": 6}, 14 * M, 1),
                       ("hfun", {"kinds": "xchacha,xsalsa"}, 5 * M, 1),
                       ("rng", {"ops": 10, "big": 400}, 16 * M, n), ("rng", st, 14 * M, 1), ("lanes", ln, 16 * M, n)]))
    # the fixed small HC-256 / RC4 / Rabbit share of `all` is slow to interpret: native runs add volume for the host
    def prep():
        b = build_cfgs(["auto", "soft"], "checked", None, res)
        return native_jobs(b, [("hist", {"kinds": "all", "portable": 1}, 10 * M, 1), ("rng", {}, 6 * M, 1)])
    lanes(miri_lane(res, ml, 8, T(400, 850)), Lane(res, 1, T(300, 800)).go(prep))
    return ("A case is a random history (cipher, core or RNG) executed for another architecture - aarch64 with NEON "
            "(little-endian, 64-bit), aarch64_be (big-endian, 64-bit), MIPS (big-endian, 32-bit), s390x (big-endian, 64-bit), i686 (little-endian, "
            "32-bit) - by Miri, in lockstep with the reference model, so that outputs, positions, refusals and "
            "serialised states must equal the specification's on all of them. Distinct = different (target, cipher, "
            "key, nonce, history).", {}, ["Miri's emulation of the targets and of the NEON intrinsics is trusted.",
                                         "The position types whose range depends on the target (usize) are left out."])


# ------------------------------------------------------------------ C18


FEATS = ["cipher", "legacy", "rng", "xchacha", "zeroize"]
FLAGSETS = {
    "default": "",
    "avx512 autodetection": "--cfg chacha20_avx512",
    "soft": '--cfg chacha20_backend="soft"',
    "sse2": '--cfg chacha20_backend="sse2"',
    "avx2": '--cfg chacha20_backend="avx2" -C target-feature=+avx2',
    "avx512": '--cfg chacha20_backend="avx512" -C target-feature=+avx512f,+avx512vl',
    "native": "-C target-cpu=native",
}
TRANSCRIPT = [
    ("hist", {"kinds": "cc", "model": 0, "big": 5000}, T(2500, 40000)),
    ("hist", {"kinds": "cc", "model": 0, "big": 400, "seek": 30, "end": 4}, T(4000, 60000)),
    ("core", {"kinds": "cc", "model": 0, "portable": 1}, T(1500, 20000)),
    ("rng", {"model": 0, "big": 5000}, T(2000, 30000)),
    ("rng", {"model": 0, "big": 300, "mv": 25, "ser": 12}, T(3000, 40000)),
]
TRANSCRIPT_OTHER = [("hist", {"kinds": "others", "model": 0, "big": 4000}, T(2500, 30000)),
                    ("core", {"kinds": "others", "model": 0, "portable": 1}, T(1500, 20000))]


def compile_combo(name, flags, pkg, feats):
    td = target_dir("combo-" + re.sub(r"[^a-z0-9]+", "-", name))
    cmd = ["cargo", "check", "-q", "--offline", "--manifest-path", f"{REPO}/{pkg}/Cargo.toml", "--lib",
           "--no-default-features"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    rc, o, e, to = sh(cmd, 400, env=env({"CARGO_TARGET_DIR": td, "RUSTFLAGS": ("-Awarnings " + flags).strip()}))
    return rc, e


def c18(res):
    bins = {}
    names = {}
    for c in usable(ALLCFG):
        names[c] = lambda c=c: build(c, CFGS[c][0], "checked")
        names[c + " zeroize"] = lambda c=c: build(c + "-zero", CFGS[c][0], "checked", "cc,rng,others,zero")
    rel = ["auto", "soft"] if not THOROUGH else ALLCFG
    for c in usable(rel):
        names[c + " release"] = lambda c=c: build(c + "-rel", CFGS[c][0], "release")
    names["auto ciphers only"] = lambda: build("auto-cc", "", "checked", "cc")
    names["auto rng only"] = lambda: build("auto-rng", "", "checked", "rng")
    names["auto others only"] = lambda: build("auto-others", "", "checked", "others")
    names["native"] = lambda: build("native-rel", "-C target-cpu=native", "release")

    def one(n):
        try:
            bins[n] = names[n]()
        except Failure as e:
            if n == "auto":
                raise
            res.violations.append((f"the documented configuration '{n}' does not build: {str(e)[-1500:]}", {}))
    t0 = time.monotonic()
    par([lambda n=n: one(n) for n in names])

    # every documented combination of features and backends builds
    combos = [tuple(f) for k in range(len(FEATS) + 1) for f in itertools.combinations(FEATS, k)]
    built = [0]

    def build_all(flagname):
        for f in combos:
            rc, e = compile_combo(flagname, FLAGSETS[flagname], "chacha20", f)
            if rc != 0:
                if flagname == "default" and f == ("cipher",):
                    raise Failure(f"chacha20 does not build at all: {e[-2000:]}")
                res.violations.append((f"chacha20 with features {list(f)} and flags '{FLAGSETS[flagname]}' does not "
                                       f"build: {e[-1500:]}", {}))
                return
            built[0] += 1

    def build_other(pkg):
        for f in ((), ("zeroize",)):
            rc, e = compile_combo(pkg, "", pkg, f)
            if rc != 0:
                res.violations.append((f"{pkg} with features {list(f)} does not build: {e[-1500:]}", {}))
                return
            built[0] += 1
    par([lambda n=n: build_all(n) for n in FLAGSETS] + [lambda p=p: build_other(p) for p in core.CRATES[1:]])
    res.evaluations += built[0]
    res.add_count("feature and flag combinations built", built[0])
    res.notes.append(f"builds took {time.monotonic() - t0:.0f} s")

    # the same histories on every build
    groups = []  # (engine, args, cases, builds)
    for e, a, n in TRANSCRIPT:
        bs = [b for b in bins if not b.endswith("others only") and not b.endswith("rng only" if e != "rng" else "ciphers only")]
        groups.append((e, a, n, bs))
    for e, a, n in TRANSCRIPT_OTHER:
        groups.append((e, a, n, [b for b in bins if "rng only" not in b and "ciphers only" not in b and
                                 (b.startswith("auto") or b.startswith("native"))]))

    def run(gi, b):
        e, a, n, _ = groups[gi]
        args = {**a, **seedargs(gi), "cases": n}
        rc, o, err, to = sh([bins[b], e] + core.kv(args), 300, env=env({}))
        return gi, b, rc, parse(o), err
    outs = par([lambda gi=gi, b=b: run(gi, b) for gi, g in enumerate(groups) for b in g[3]])
    ref = {}
    for gi, b, rc, rep, err in sorted(outs, key=lambda x: (x[0], x[1] != "soft", x[1] != "auto")):
        e, a, n, _ = groups[gi]
        rd = {"label": b, "cmd": [bins[b], e], "args": {**a, **seedargs(gi), "model": 1}, "env": {}}
        res.jobs += 1
        if rep is None:
            res.violations.append((f"[{b} {e}] the process ended with status {rc}: {core.relevant(err)}", {}))
            continue
        res.evaluations += rep["evaluations"]
        for k, v in rep["counts"].items():
            res.add_count(k, v)
        for h in rep["harness"]:
            res.errors.append(f"[{b} {e}] harness error: {h['what']}")
        tr = dict(t.split(":") for t in rep["transcript"])
        viols = {v["case"]: v["what"] for v in rep["violations"]}
        if gi not in ref:
            ref[gi] = (b, tr, viols)
            res.distinct += rep["distinct"]
            for s in rep["samples"][:3]:
                res.samples.append(f"[{b} {e}] {s[:700]}")
            continue
        rb, rtr, rviols = ref[gi]
        res.add_count("transcripts compared between builds", len(tr))
        bad = [c for c in rtr if c in tr and tr[c] != rtr[c]]
        if bad:
            res.violations.append((f"[{e} case 0x{bad[0]}] behaves differently on '{b}' than on '{rb}' "
                                   f"({len(bad)} of {len(tr)} cases differ)", dict(rd, case="0x" + bad[0])))
        elif set(tr) != set(rtr):
            # one of the two stopped early or refused a case: it behaves differently
            d = sorted(set(viols) ^ set(rviols))
            if d:
                w = viols.get(d[0]) or rviols.get(d[0])
                res.violations.append((f"[{e} case {d[0]}] only one of '{b}' and '{rb}' misbehaves: {w}", dict(rd, case=d[0])))
            else:
                res.notes.append(f"{e}: '{b}' and '{rb}' ran different cases")
    return ("A case is one history executed on every build (backends forced and autodetected, with and without "
            "zeroize, other optional features absent, checked and release, target-cpu=native); the digests of "
            "everything observed (outputs, positions, refusals, serialised states) must be equal. Distinct = "
            "different histories (counted once, not per build). Also all 32 feature subsets of chacha20 under each "
            "backend flag are compiled.", {"builds": sorted(bins)}, [
                "Builds that this processor cannot execute are compiled but not run."])


# ------------------------------------------------------------------ C19


CPU_PLAN = [
    # (build, scenario)
    ("auto", "full-no512"), ("auto", "avx2"), ("auto", "avx"), ("auto", "sse4.2"), ("auto", "sse2"), ("auto", "no-osxsave"),
    ("auto512", "full"), ("auto512", "f+vl"), ("auto512", "f-vl"), ("auto512", "vl-f"), ("auto512", "avx2"),
    ("auto512", "sse2"),
    ("soft", "forced-soft"), ("sse2", "forced-sse2"), ("avx2", "full-no512"), ("f512", "full"),
]
STEPPED = [("hist", {"kinds": "all", "ops": 5, "big": 300}), ("hist", {"kinds": "cc", "ops": 4, "big": 1200}),
           ("rng", {"ops": 6, "big": 400}), ("core", {"kinds": "cc", "ops": 3, "small": 12}),
           ("paths", {"kinds": "cc", "fast": 1, "most": 18})]


def c19(res):
    def prep():
        # (unoptimised builds too: there an intrinsic stays what was written, while the optimiser may turn a
        # forbidden instruction into allowed ones)
        bins = build_cfgs(ALLCFG, "checked", None, res)
        devs = build_cfgs(ALLCFG, "dev", None, res)
        # can this machine present another processor?
        rc, o, e, _ = sh([bins["auto"], "hist", "cpu=sse2", "cases=1"], 60, env=env({}))
        faulting = rc != 4
        if not faulting:
            res.notes.append("CPUID faulting is unavailable here (" + o.strip()[-120:] + "): only what this very "
                             "processor reports was presented")
        jobs = []
        for i, (b, sc) in enumerate(CPU_PLAN):
            if b not in bins or (not faulting and not (sc.startswith("full") or sc.startswith("forced"))):
                continue
            for k, (e, a) in enumerate(STEPPED):
                jobs.append(Job(f"{b} as {sc} stepped {e}", [bins[b], e],
                                {**a, **seedargs(i * 10 + k), "cpu": sc, "step": 1, "selftest": 0}, T(4, 40)))
            if b in devs:
                for k, (e, a) in enumerate(STEPPED[1:]):
                    jobs.append(Job(f"{b} (unoptimised) as {sc} stepped {e}", [devs[b], e],
                                    {**a, **seedargs(300 + i * 10 + k), "cpu": sc, "step": 1, "selftest": 0}, T(3, 30)))
            for k, (e, a) in enumerate([("hist", {"kinds": "all"}), ("core", {"kinds": "cc"}), ("rng", {}), ("hfun", {"kinds": "xchacha,xsalsa"})]):
                jobs.append(Job(f"{b} as {sc} {e}", [bins[b], e],
                                {**a, **seedargs(700 + i * 10 + k), "cpu": sc}, T(2, 25)))
        return jobs
    ls = [Lane(res, NCPU, T(400, 800)).go(prep)]
    if THOROUGH:
        # Miri refuses any vendor intrinsic that the target features do not allow
        m = Miri("ub-sse2", HOST, "cc,rng", '--cfg chacha20_backend="sse2"', MIRI_FULL)
        m2 = Miri("ub-auto", HOST, "cc,rng,others", "", MIRI_FULL)
        ls.append(miri_lane(res, [(m, [("hist", {"kinds": "cc", "ops": 5, "big": 400}, 120, 1)]),
                                  (m2, [("hist", {"kinds": "cc", "ops": 5, "big": 400}, 120, 1)])], 2, 700))
    lanes(*ls)
    return ("A case is a random history in lockstep with the model while the processor's CPUID answers are replaced "
            "(CPUID faulting) by those of a lesser processor; in the stepped runs every executed instruction of the "
            "program's text is decoded and must belong to the extensions that processor reports. Distinct = different "
            "(build, processor, cipher, key, nonce, history).", {"processors presented": sorted({s for _, s in CPU_PLAN})}, [
                "The classifier covers the instruction groups listed in harness/src/cpu.rs; instructions inside libc "
                "(which dispatches by its own CPUID queries at start-up) are not judged."])


# ------------------------------------------------------------------ C20


VALGRIND = ["valgrind", "-q", "--error-limit=no", "--num-callers=6"]


def c20(res):
    def prep():
        bins = build_cfgs(ALLCFG, "checked", None, res)
        rel = build_cfgs(["auto", "soft", "sse2"] + T([], ["auto512", "f512", "avx2"]), "release", None, res, tag="-rel")
        bins.update({c + " release": b for c, b in rel.items()})
        bins["auto zeroize"] = build("auto-zero", "", "checked", "cc,rng,others,zero")
        jobs = []
        for i, (c, b) in enumerate(bins.items()):
            # memcheck has no AVX-512 (autodetection then falls back to AVX2)
            if not c.startswith("f512"):
                jobs.append(Job(f"{c} memcheck", VALGRIND + [b, "ct"], {**seedargs(i), "taint": 1, "selftest": 0, "big": 1500},
                                T(9, 120), timeout=400))
            for k in range(3 if "512" in c else T(1, 2)):
                jobs.append(Job(f"{c} trace", [b, "ct"], {**seedargs(50 + 10 * i + k), "selftest": 0, "big": [700, 1500, 2200][k]},
                                T(8, 90)))
        return jobs
    # NEON (and the portable code of another architecture): the statements that the interpreter executes
    ml = []
    m = Miri("ct-neon", NEON, "cc,rng")
    m.trace = True
    ml.append((m, [("ct", {"from": k}, 30 * M, 1) for k in range(6)]))
    lanes(Lane(res, NCPU - 2, T(300, 850)).go(prep), miri_lane(res, ml, 3, T(300, 850)))
    return ("A case is one public script (construction, seeks, requests, draws on a ChaCha, XChaCha, RNG or Salsa-family "
            "type or core, or an HChaCha/HSalsa call). memcheck: it runs with key, nonce, seed and data marked "
            "undefined, and every conditional jump or address computed from them is an error. trace: it runs with three "
            "different secrets, single-stepped; the sequences of instruction addresses and of memory operand addresses "
            "must be equal. NEON: it runs under Miri with two "
            "different secrets; the sequences of interpreted statements must be equal. Distinct = different scripts.", {}, [
                "Debug comparison and equality of RNGs are not covered by the property.",
                "memcheck does not execute AVX-512: that backend is judged by the address trace only; NEON by the sequence of statements "
                "that Miri executes (control flow, not addresses).",
                "Timing of single instructions (micro-architecture) is outside the property."])


# ------------------------------------------------------------------ C21


def c21(res):
    def prep():
        b = build_cfgs(["auto", "auto512"], "checked", None, res)
        b["release"] = build("auto-rel", "", "release")
        jobs = []
        # many short processes: feature detection is raced once per process
        for k in range(T(40, 400)):
            for ci, (c, p) in enumerate(b.items()):
                jobs.append(Job(f"{c} first use", [p, "threads"],
                                {**seedargs(k * 10 + ci), "threads": 12, "ops": 4, "cases": 1, "selftest": 0}, 0, timeout=120))
        for ci, (c, p) in enumerate(b.items()):
            for k in range(2):
                jobs.append(Job(f"{c} crowd", [p, "crowd"], {**seedargs(5000 + 10 * k + ci), "kinds": "all", "big": [300, 70][k]}, 6 * M))
            for k in range(2):
                jobs.append(Job(f"{c} burst", [p, "burst"], {**seedargs(5500 + 10 * k + ci), "threads": [8, 4][k], "reps": [400, 60][k]}, 7 * M))
            for k in range(3):
                jobs.append(Job(f"{c} threads", [p, "threads"], {**seedargs(4000 + 10 * k + ci), "threads": [4, 8, 16][k], "ops": 12}, 6 * M))
        return jobs

    def prep_tsan():
        bs = {}
        for c in ["auto", "auto512"] if usable(["auto512"]) else ["auto"]:
            bs[c] = build("tsan-" + c, "-Zsanitizer=thread " + CFGS[c][0], "checked", toolchain="nightly",
                          target=HOST, extra=["-Zbuild-std"])
        jobs = []
        te = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4"}
        for c, p in bs.items():
            for k in range(T(12, 120)):
                jobs.append(Job(f"{c} tsan first use", [p, "threads"],
                                {**seedargs(6000 + k), "threads": 8, "ops": 4, "cases": 1, "selftest": 0}, 0, env=te, timeout=120))
            jobs.append(Job(f"{c} tsan burst", [p, "burst"], {**seedargs(7500), "threads": 6, "reps": 40, "selftest": 0}, 8 * M, env=te))
            for k in range(2):
                jobs.append(Job(f"{c} tsan", [p, "threads"], {**seedargs(7000 + k), "threads": 6, "ops": 8, "selftest": 0}, 8 * M, env=te))
        return jobs
    ml = []
    m = Miri("thr", HOST, "cc,rng,others", "", MIRI_FULL + " -Zmiri-preemption-rate=0.2")
    ml.append((m, [("threads", {"threads": 3, "ops": 2, "big": 80}, 40 * M, 1), ("crowd", {"kinds": "all", "big": 80}, 25 * M, 1),
                   ("burst", {"threads": 3, "reps": 4}, 25 * M, 1)]))
    lanes(Lane(res, 4, T(300, 800)).go(prep), Lane(res, 3, T(300, 800)).go(prep_tsan), miri_lane(res, ml, 1, T(300, 800)))
    return ("A case creates many instances (every cipher and RNG type) on several threads released together by a "
            "barrier, uses, shares, queries and hands them over between threads, and compares all their output with "
            "the reference model; short processes race the very first uses. Crowd cases use, drop and rebuild many "
            "instances with equal or nearly equal keys and nonces in turn on one thread; burst cases repeat whole lives of one kind with a "
            "few alternating secrets on all threads at once. The same workload runs under "
            "ThreadSanitizer and under Miri's data-race detector with forced preemption. Distinct = different "
            "(instances, schedules of operations).", {}, [
                "Interleavings are those that the scheduler, TSan and Miri's preemption produced."])


# ------------------------------------------------------------------ C22


def c22(res):
    cf = T(["auto", "soft", "auto512"], ALLCFG)

    def prep():
        b = build_cfgs(cf, "checked", None, res)
        b["release"] = build("auto-rel", "", "release")
        b["zeroize"] = build("auto-zero", "", "checked", "cc,rng,others,zero")
        return native_jobs(b, spec_time([("ctor", {"mode": "canary"}, 6, 1), ("ctor", {"mode": "guard"}, 6, 1),
                                         ("hist", {"kinds": "all", "ops": 2, "big": 200}, 5, 1),
                                         ("rng", {"ops": 3, "big": 200}, 3, 1)]))
    lanes(Lane(res, NCPU, T(200, 800)).go(prep))
    return ("A case offers one key and nonce of arbitrary lengths (concentrated around the documented ones) to every "
            "construction path of a cipher type: acceptance must match the documented lengths, nothing may panic, the "
            "arguments must be unchanged (guard pages, read-only), and every instance built must start at position 0 "
            "and produce the model's keystream. Distinct = different (type, lengths, key, nonce).", {}, [])


# ------------------------------------------------------------------ C23


PANIC_RX = r"panic|process ended with|does not finish|overflow"


def c23(res):
    def prep():
        b = build_cfgs(ALLCFG, "checked", None, res)
        b["zeroize"] = build("auto-zero", "", "checked", "cc,rng,others,zero")
        b["release"] = build("auto-rel", "", "release")
        return native_jobs(b, spec_time([
            ("hist", {"kinds": "all", "model": 0, "end": 2, "big": 3000}, 4, 1),
            ("hist", {"kinds": "seek", "model": 0, "seek": 35, "query": 30, "end": 2, "big": 400}, 4, 1),
            ("paths", {"kinds": "all", "model": 0}, 3, 1), ("core", {"kinds": "all", "model": 0}, 4, 1), ("rng", {"model": 0, "mv": 40, "ser": 12}, 4, 1),
            ("huge", {"kinds": "all", "rng": 1}, 3, 1), ("gen", {}, 2, 1), ("ctor", {}, 2, 1), ("shape", {"kinds": "all", "big": 2000}, 2, 1), ("debug", {}, 1, 1),
        ]))
    ls = [Lane(res, NCPU - 2, T(300, 800)).go(prep)]
    m = Miri("neon-C23", NEON, "cc,rng")
    ls.append(miri_lane(res, [(m, [("hist", {"kinds": "cc", "ops": 4, "big": 300, "end": 2, "model": 0}, 25 * M, 1),
                                   ("core", {"kinds": "cc", "ops": 3, "small": 9, "model": 0}, 15 * M, 1),
                                   ("paths", {"kinds": "cc", "fast": 1, "most": 18, "model": 0}, 20 * M, 1),
                                   ("rng", {"ops": 10, "big": 500, "mv": 30, "model": 0}, 25 * M, 1)])], 3, T(300, 800)))
    lanes(*ls)
    only(res, PANIC_RX, "C23")
    return ("A case is a random history concentrated on the last blocks, wrap-around points and extreme positions, in "
            "builds with overflow checks and debug assertions (and in release); any panic, overflow or failed "
            "assertion in a call that is not documented to panic there is a violation. Distinct = different "
            "histories.", {}, [])


SPECIAL = {"C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23}

TECH = {
    "C14": "memory-residue monitor: bytes of every dropped instance compared across secrets and histories "
           "(checked and release builds of each crate with its zeroize feature)",
    "C15": "output monitor: Debug texts of every type under random secrets and histories must be constant",
    "C16": "AddressSanitizer, guard pages with read-only inputs, and Miri (x86 backends and NEON) under random histories",
    "C17": "lockstep runtime monitor under Miri for NEON aarch64, big-endian 32/64-bit and 32-bit x86 targets",
    "C18": "trace comparison: transcripts of the same random histories across all builds, plus compilation of every "
           "feature and backend combination",
    "C19": "executed-instruction monitor: single stepping with CPUID answers of lesser processors, plus lockstep model",
    "C20": "taint monitor (memcheck with secrets undefined), executed-address trace comparison by single stepping, and "
           "comparison of the statements interpreted by Miri for NEON",
    "C21": "ThreadSanitizer, Miri race detection and lockstep monitor over racing, moving and shared instances",
    "C22": "lockstep runtime monitor over arbitrary key and nonce lengths and every construction path",
    "C23": "panic/overflow monitor in builds with overflow checks and debug assertions, at extreme positions",
}
NOTES = {}

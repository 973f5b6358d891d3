"""What each property's check runs."""
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import core
from .core import (BUILD, CFGS, HOST, NCPU, SEED, TIER, VERIF, Failure, Job, Result, build, env, finish, run_job,
                   sh, target_dir, usable)
import os

THOROUGH = TIER == "thorough"
ALLCFG = ["auto", "auto512", "soft", "sse2", "avx2", "f512"]


def T(quick, thorough):
    return thorough if THOROUGH else quick


def seedargs(shard):
    return {"seed": SEED, "shard": shard}


# ------------------------------------------------------------------ preparation


def build_cfgs(cfgs, profile="checked", features=None, res=None, tag="", must=("auto",)):
    """Builds the harness for several configurations in parallel."""
    out, errs = {}, {}

    def one(c):
        try:
            out[c] = build(c + tag, CFGS[c][0], profile, features)
        except Failure as e:
            errs[c] = str(e)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, usable(cfgs)))
    for c, e in errs.items():
        if c in must or res is None:
            raise Failure(e)
        res.notes.append(f"configuration {c} does not build and was left out (C18 decides that): {e[-600:]}")
    return out


MIRI_FAST = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
MIRI_FULL = "-Zmiri-disable-isolation"


class Miri:
    """A Miri build of a harness; `warm` compiles it (and the sysroot)."""
    #: compare the traces of interpreted statements
    trace = False

    def __init__(self, name, target, features, rustflags="", flags=MIRI_FAST, bin="vmon", pkg="harness", shim=False):
        self.label = "miri " + name
        self.cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path",
                    os.path.join(VERIF, pkg, "Cargo.toml"), "--target", target, "--bin", bin,
                    "--no-default-features"]
        if features:
            self.cmd += ["--features", features]
        self.cmd.append("--")
        self.env = {"CARGO_TARGET_DIR": target_dir("miri-" + name), "MIRIFLAGS": flags,
                    "RUSTFLAGS": ("-Awarnings " + rustflags).strip()}
        self.bin, self.target = bin, target
        if shim:
            self.env["MIRI_SYSROOT"] = core.miri_sysroot(target)
            self.env["CARGO_TARGET_DIR"] += "-" + core.SHIM_ID

    def warm(self, args=("hist", "cases=0")):
        if "MIRI_SYSROOT" in self.env:
            core.build_miri_sysroot(self.target)
        rc, o, e, to = sh(self.cmd + list(args), 600, env=env(self.env))
        if rc != 0:
            raise Failure(f"{self.label}: cannot prepare (rc={rc}):\n{e[-4000:]}")

    def job(self, engine, args, secs):
        pre = ["python3", os.path.join(VERIF, "vm", "mirtrace.py")] if self.trace else []
        return Job(self.label + " " + engine, pre + self.cmd + [engine], args, secs, env=self.env, kind="miri",
                   timeout=secs * 3 + 240)


class Lane:
    """A sequence of preparation and jobs that runs beside the others."""

    def __init__(self, res, workers, budget):
        self.res, self.workers = res, workers
        self.deadline = time.monotonic() + budget
        self.err = None

    def go(self, prep):
        def body():
            try:
                jobs = prep()
                lock = _LOCK
                with ThreadPoolExecutor(self.workers) as ex:
                    for f in [ex.submit(run_job, j, self.res, lock, self.deadline) for j in jobs]:
                        f.result()
            except Failure as e:
                self.err = str(e)
            except Exception as e:  # noqa: BLE001 - reported as an error of the check
                import traceback
                self.err = "".join(traceback.format_exception(e))
        self.t = threading.Thread(target=body)
        self.t.start()
        return self

    def join(self):
        self.t.join()
        if self.err:
            self.res.errors.append(self.err)


_LOCK = threading.Lock()


def lanes(*ls):
    for l in ls:
        l.join()


def miri_lane(res, miris, workers, budget):
    """miris: list of (Miri, [(engine, args, secs, shards)])"""
    def prep():
        with ThreadPoolExecutor(len(miris)) as ex:
            list(ex.map(lambda m: m[0].warm((m[1][0][0], "cases=0") + tuple(f"{k}={v}" for k, v in m[1][0][1].items())), miris))
        jobs = []
        for m, spec in miris:
            for engine, args, secs, shards in spec:
                for i in range(shards):
                    jobs.append(m.job(engine, {**args, **seedargs(500 + i)}, secs))
        return jobs
    return Lane(res, workers, budget).go(prep)


def native_jobs(bins, spec, label=""):
    """spec: list of (engine, args, secs, shards)"""
    jobs = []
    for k, (engine, args, secs, shards) in enumerate(spec):
        for ci, (c, b) in enumerate(bins.items()):
            for i in range(shards):
                jobs.append(Job(f"{c}{label} {engine}", [b, engine], {**args, **seedargs(ci * 100 + k * 10 + i)}, secs))
    # mix the engines so that a shortage of time hits all alike
    return jobs


NEON = "aarch64-unknown-linux-gnu"

# ------------------------------------------------------------------ the generic lockstep checks

GEN = {
    # property: (configurations, also release auto, native spec, NEON spec, rule)
    "C01": dict(
        cfgs=ALLCFG, rel=True,
        native=[("lanes", {"kinds": "chacha", "rng": 0, "wrap": 0}, 3, 1), ("hist", {"kinds": "chacha"}, 6, 2), ("rounds", {"ways": "12"}, 2, 1), ("paths", {"kinds": "chacha", "rng": 0}, 3, 1), ("core", {"kinds": "chacha"}, 5, 1),
                ("long", {"kinds": "chacha", "total": T(4 << 20, 64 << 20)}, 4, 1)],
        neon=[("lanes", {"kinds": "chacha", "rng": 0, "fast": 1, "wrap": 0, "single": 1, "most": 9}, 25, 2), ("hist", {"kinds": "chacha", "ops": 6, "big": 300}, 25, 2),
              ("paths", {"kinds": "chacha", "rng": 0, "fast": 1, "most": 18}, 25, 2)],
        neon_features="cc,rng",
        rule="A case is a random history (construction path, seeks, requests of random size, alignment and call "
             "kind) on ChaCha8/12/20 or ChaCha20Legacy, run on the real code in lockstep with an independent "
             "reference model; every output byte is compared. Distinct = different (variant, key, nonce, history) "
             "with at least two monitored operations after construction (in every check of this family)."),
    "C02": dict(
        cfgs=ALLCFG, rel=True,
        native=[("lanes", {"kinds": "xchacha", "rng": 0, "wrap": 0}, 2, 1), ("hist", {"kinds": "xchacha"}, 6, 2), ("rounds", {"ways": "0"}, 2, 1), ("paths", {"kinds": "xchacha", "rng": 0}, 2, 1), ("hfun", {"kinds": "xchacha"}, 4, 1),
                ("core", {"kinds": "xchacha"}, 4, 1),
                ("long", {"kinds": "xchacha", "total": T(2 << 20, 32 << 20)}, 3, 1)],
        neon=[("hist", {"kinds": "xchacha", "ops": 6, "big": 300}, 20, 2), ("hfun", {"kinds": "xchacha"}, 10, 1)],
        neon_features="cc",
        rule="A case is a random history on an XChaCha variant in lockstep with the model (or one HChaCha call "
             "compared with the model). Distinct = different (variant, key, nonce/input, history)."),
    "C03": dict(
        cfgs=["auto"], rel=True,
        native=[("lanes", {"kinds": "salsa", "rng": 0, "wrap": 0}, 4, 1), ("hist", {"kinds": "salsa"}, 8, 6), ("rounds", {"ways": "4"}, 2, 1), ("huge", {"kinds": "salsa"}, 3, 1), ("paths", {"kinds": "salsa", "rng": 0}, 5, 2), ("core", {"kinds": "salsa"}, 8, 3),
                ("long", {"kinds": "salsa", "total": T(4 << 20, 64 << 20)}, 6, 1)],
        rule="A case is a random history on Salsa8/12/20 in lockstep with the model, positions concentrated on "
             "counter-carry boundaries. Distinct = different (variant, key, nonce, history)."),
    "C04": dict(
        cfgs=["auto"], rel=True,
        native=[("lanes", {"kinds": "xsalsa", "rng": 0, "wrap": 0}, 4, 1), ("hist", {"kinds": "xsalsa"}, 8, 6), ("rounds", {"ways": "356"}, 3, 1), ("huge", {"kinds": "xsalsa"}, 3, 1), ("paths", {"kinds": "xsalsa", "rng": 0}, 5, 2), ("hfun", {"kinds": "xsalsa"}, 6, 2),
                ("core", {"kinds": "xsalsa"}, 8, 3),
                ("long", {"kinds": "xsalsa", "total": T(2 << 20, 32 << 20)}, 4, 1)],
        rule="A case is a random history on an XSalsa variant or a raw-state Salsa core (arbitrary 64-byte state) in "
             "lockstep with the model, or one HSalsa call. Distinct = different (variant, key/state, nonce, history)."),
    "C05": dict(
        cfgs=["auto"], rel=True,
        native=[("hist", {"kinds": "hc256"}, 7, 5), ("huge", {"kinds": "hc256"}, 4, 1), ("paths", {"kinds": "hc256", "rng": 0}, 3, 1), ("core", {"kinds": "hc256"}, 5, 2),
                ("long", {"kinds": "hc256", "total": T(8 << 20, 256 << 20)}, 8, 3)],
        rule="A case is a random request history on Hc256 in lockstep with the model (long cases run through many "
             "table updates). Distinct = different (key, IV, history)."),
    "C06": dict(
        cfgs=["auto"], rel=True,
        native=[("hist", {"kinds": "rabbit,rabbitkey"}, 7, 5), ("huge", {"kinds": "rabbit,rabbitkey"}, 4, 1), ("redge", {"kinds": "rabbit,rabbitkey"}, 4, 1), ("paths", {"kinds": "rabbit,rabbitkey", "rng": 0}, 3, 1), ("core", {"kinds": "rabbit,rabbitkey"}, 5, 2),
                ("long", {"kinds": "rabbit,rabbitkey", "total": T(8 << 20, 256 << 20)}, 8, 3)],
        rule="A case is a random request history on Rabbit / RabbitKeyOnly in lockstep with the model. Distinct = "
             "different (variant, key, IV, history)."),
    "C07": dict(
        cfgs=["auto"], rel=True,
        native=[("hist", {"kinds": "rc4"}, 8, 7), ("huge", {"kinds": "rc4"}, 4, 1), ("paths", {"kinds": "rc4", "rng": 0}, 3, 1), ("long", {"kinds": "rc4", "total": T(4 << 20, 128 << 20)}, 8, 3)],
        rule="A case is a random key of 1 to 256 bytes and a random request history on Rc4 in lockstep with the "
             "model. Distinct = different (key, history)."),
    "C08": dict(
        cfgs=ALLCFG, rel=True,
        native=[("shape", {"kinds": "all"}, 7, 2), ("huge", {"kinds": "all", "twin": 1}, 4, 1), ("paths", {"kinds": "all", "rng": 0}, 3, 1), ("shape", {"kinds": "seek", "big": 3000}, 5, 1),
                ("shape", {"kinds": "hc256,rabbit,rabbitkey,rc4", "big": 9000}, 4, 1)],
        neon=[("shape", {"kinds": "cc", "big": 500}, 25, 2), ("paths", {"kinds": "chacha", "rng": 0, "fast": 1, "most": 18}, 25, 1)],
        neon_features="cc,rng",
        rule="A case serves one range of keystream through a random sequence of requests and call kinds at random "
             "alignments and compares it with a twin instance that serves it in one request; it also decrypts, "
             "checks canaries, inputs, positions and refused length mismatches. Distinct = different (cipher, key, "
             "nonce, range, request sequence)."),
    "C09": dict(
        cfgs=ALLCFG, rel=True,
        native=[("hist", {"kinds": "seek", "seek": 40, "query": 40, "end": 10, "big": 2000}, 8, 2),
                ("hist", {"kinds": "seek", "seek": 40, "query": 30, "end": 2, "big": 300}, 6, 1)],
        rule="A case is a history rich in seeks and position queries in every integer type, in lockstep with the "
             "model. Distinct = different (cipher, key, nonce, history)."),
    "C10": dict(
        cfgs=ALLCFG, rel=True,
        native=[("hist", {"kinds": "seek", "seek": 20, "query": 15, "end": 1, "big": 3000}, 8, 2),
                ("huge", {"kinds": "seek"}, 3, 1), ("paths", {"kinds": "seek", "rng": 0}, 3, 1),
                ("hist", {"kinds": "seek", "seek": 30, "query": 10, "end": 1, "big": 200, "ops": 40}, 6, 1)],
        rule="A case is a history whose positions lie at the end of the keystream (or past it), with requests that "
             "fit, exactly fit or do not fit, in lockstep with the model. Distinct = different (cipher, key, nonce, "
             "history)."),
    "C11": dict(
        cfgs=ALLCFG, rel=True, features=None,
        native=[("lanes", {"kinds": "none", "rng": 1}, 3, 1), ("rng", {}, 6, 2), ("gen", {}, 4, 1), ("rng", {"ops": 60, "big": 600, "mv": 4}, 4, 1),
                ("huge", {"kinds": "none", "rng": 1}, 3, 1), ("paths", {"kinds": "none"}, 3, 1)],
        neon=[("lanes", {"kinds": "none", "rng": 1, "single": 1, "most": 9}, 20, 1), ("rng", {"ops": 10, "big": 700}, 25, 2), ("gen", {}, 20, 1)],
        neon_features="rng",
        rule="A case is a history of draws, fills, moves, stream changes, clones and (de)serialisations on one of "
             "the RNGs in lockstep with the model; the gen cases drive the four-block Generator of the cores. "
             "Distinct = different (RNG, seed, history)."),
    "C12": dict(
        cfgs=["auto", "soft", "sse2", "auto512"], rel=True,
        native=[("rng", {"mv": 40, "query": 40, "big": 700}, 8, 3), ("rng", {"mv": 15, "query": 30, "ops": 60}, 6, 1)],
        rule="A case is an RNG history rich in position moves and queries in lockstep with the model's position "
             "accounting modulo 2^68. Distinct = different (RNG, seed, history)."),
    "C13": dict(
        cfgs=["auto", "soft", "sse2", "auto512"], rel=True,
        native=[("rng", {"ser": 40, "mv": 25, "query": 5, "big": 700}, 8, 3), ("rng", {"ser": 20, "ops": 60}, 6, 1)],
        rule="A case is an RNG history rich in serialise/deserialise round trips, arbitrary 49-byte states and "
             "comparisons of differently-reached states. Distinct = different (RNG, seed, history)."),
    "C24": dict(
        cfgs=ALLCFG, rel=True,
        native=[("lanes", {"kinds": "all", "rng": 1}, 4, 1), ("core", {"kinds": "cc"}, 6, 2), ("core", {"kinds": "all"}, 5, 1), ("gen", {}, 3, 1),
                ("paths", {"kinds": "all"}, 4, 1)],
        neon=[("lanes", {"kinds": "chacha", "rng": 1, "fast": 1, "single": 1, "most": 9}, 25, 2), ("core", {"kinds": "cc", "ops": 6, "small": 9}, 25, 1), ("paths", {"kinds": "cc", "fast": 1, "most": 18}, 25, 2)],
        neon_features="cc,rng",
        rule="A case drives a cipher core through block-level calls and custom backend sessions in random order, "
             "with positions at and around the counter maximum, comparing blocks, block position and remaining "
             "blocks with the model. Distinct = different (core, key, nonce, call sequence)."),
}


HUGE = {"C01": "chacha8,legacy", "C03": "salsa8", "C05": "hc256", "C06": "rabbit", "C07": "rc4"}


def run_generic(pid, res):
    g = GEN[pid]
    mult = 1 if not THOROUGH else 12
    miris = []
    if g.get("neon"):
        m = Miri("neon-" + pid, NEON, g["neon_features"])
        miris.append((m, [(e, a, s * (1 if not THOROUGH else 8), n * (1 if not THOROUGH else 2)) for e, a, s, n in g["neon"]]))

    def prep():
        bins = {}
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(build_cfgs, g["cfgs"], "checked", g.get("features"), res)
            b = ex.submit(build, "auto-rel", "", "release", g.get("features")) if g.get("rel") else None
            bins.update(a.result())
            if b:
                bins["release"] = b.result()
        return native_jobs(bins, [(e, a, s * mult, n) for e, a, s, n in g["native"]])

    w = NCPU - 2 if miris else NCPU
    ls = [Lane(res, w, T(150, 780)).go(prep)]
    if miris:
        ls.append(miri_lane(res, miris, 3, T(240, 780)))
    lanes(*ls)
    if THOROUGH and pid in HUGE and not res.violations:
        # single requests of more than 2^32 bytes, one at a time (4.3 GB each)
        b = build("auto-rel", "", "release", g.get("features"))
        lanes(Lane(res, 1, 240).go(lambda: [Job("release huge", [b, "huge"], {"kinds": HUGE[pid], "huge": 1, "cases": 1, **seedargs(900 + i)},
                                                0, timeout=180) for i in range(3)]))
    return g["rule"]


BASE_ASSUMPTIONS = [
    "The reference model (harness/src/model.rs) was written from the specifications and is checked against "
    "published test vectors at the start of every native run.",
    "Sampled inputs: nothing is claimed about histories that were not executed.",
]


def check(pid):
    t0 = time.monotonic()
    res = Result()
    from . import special
    extra, assume = {}, list(BASE_ASSUMPTIONS)
    try:
        if pid in special.SPECIAL:
            rule, extra, more = special.SPECIAL[pid](res)
            assume += more
        else:
            rule = run_generic(pid, res)
    except Failure as e:
        res.errors.append(str(e))
        rule = "(the check failed before it ran)"
    cf = usable(ALLCFG)
    if len(cf) < len(ALLCFG):
        res.notes.append(f"this CPU cannot run {sorted(set(ALLCFG) - set(cf))}")
    return finish(pid, res, t0, rule, assume, extra)

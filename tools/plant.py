#!/usr/bin/env python3
"""Work with planted bugs (development tool; no check uses it).

plant.py make SPEC.py...   turn spec files into seeded/<id>/, keeping only what qualifies
plant.py check ID...       apply seeded/<id>/patch.diff in /repo, run the property's check, undo

A spec file defines: prop, edits [(file, old, new)], needs, breaks, main (demo source),
and optionally features {crate: [..]}, default (bool), flags (RUSTFLAGS), profile ("dev"/"release"),
demo (a whole demo.sh that replaces the usual one), deps (further Cargo.toml lines).
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = """#!/bin/bash
# exit 0: the property holds here; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
TOML
cd "$scratch" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scratch/target" RUSTFLAGS=@FLAGS@
timeout 280 cargo @CARGO@ --offline -q @PROF@
"""


def sh(cmd, cwd=None, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.isdir(COPY):
        os.makedirs(os.path.dirname(COPY), exist_ok=True)
        sh(["cp", "-a", "/repo", COPY])
        os.makedirs("/tmp/plant/vp", exist_ok=True)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", COPY)
            open("/tmp/plant/vp/" + f, "w").write(t)
    sh(["git", "checkout", "-q", "--", "."], cwd=COPY)
    h = sh(["git", "rev-parse", "HEAD"], cwd="/repo").stdout.strip()
    if sh(["git", "rev-parse", "HEAD"], cwd=COPY).stdout.strip() != h:
        sh(["git", "pull", "-q", "/repo", "HEAD"], cwd=COPY)


def stable(path):
    r = sh(["bash", "/tmp/plant/vp/test.sh", path], timeout=1500)
    try:
        got = set(json.load(open(path))["passed"])
    except Exception as e:
        return [str(e) + r.stdout[-800:]]
    want = BASE.get("stable") or BASE.get("passed") or BASE
    want = want if isinstance(want, list) else list(want)
    return [t for t in want if t not in got]


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = os.path.splitext(os.path.basename(spec))[0]
    fresh()
    for f, old, new in ns["edits"]:
        p = os.path.join(COPY, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, "REJECT: edit matches", t.count(old), "times:", old[:60])
            return False
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], cwd=COPY).stdout
    d = f"/tmp/plant/out/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "demo" in ns:
        demo = ns["demo"]
    else:
        deps = "\n".join(
            '%s = { path = "$repo/%s", default-features = %s, features = %s }'
            % (c, c, "true" if ns.get("default", True) else "false", json.dumps(f))
            for c, f in ns.get("features", {"chacha20": ["cipher"]}).items())
        deps += "\n" + ns.get("deps", "")
        demo = (DEMO.replace("@DEPS@", deps).replace("@FLAGS@", "'%s'" % ns.get("flags", ""))
                .replace("@CARGO@", ns.get("cargo", "run"))
                .replace("@PROF@", "--release" if ns.get("profile") == "release" else ""))
    open(d + "/demo.sh", "w").write(demo)
    if "main" in ns:
        open(d + "/main.rs", "w").write(ns["main"])
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    missing = stable(f"/tmp/plant/{sid}.json")
    if missing:
        print(sid, "REJECT: the tests catch it:", missing[:4], len(missing))
        return False
    r1 = sh(["bash", d + "/demo.sh"], cwd=COPY, timeout=320)
    sh(["git", "checkout", "-q", "--", "."], cwd=COPY)
    r0 = sh(["bash", d + "/demo.sh"], cwd=COPY, timeout=320)
    if r0.returncode != 0 or r1.returncode == 0:
        print(sid, "REJECT: demo clean", r0.returncode, "patched", r1.returncode, "\n",
              r0.stdout[-1500:], "\n--\n", r1.stdout[-1500:])
        return False
    dst = f"{VERIF}/seeded/{sid}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(sid, "kept; demo patched says:", r1.stdout.strip()[-200:].replace("\n", " | "))
    return True


def check(sid, prop=None):
    d = f"{VERIF}/seeded/{sid}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    m = {c["property"]: c for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]} \
        if "checks" in json.load(open(VERIF + "/MANIFEST.json")) else {}
    r = sh(["git", "apply", d + "/patch.diff"], cwd="/repo")
    if r.returncode:
        print(sid, "does not apply", r.stdout)
        return
    try:
        r = sh(["python3", "check.py", prop], cwd=VERIF, timeout=900,
               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(sid, prop, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED",
              (v or [r.stdout[-300:]])[0], flush=True)
        open(f"/tmp/plant/{sid}.{prop}.log", "w").write(r.stdout)
    finally:
        sh(["git", "checkout", "--", "."], cwd="/repo")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            make(s)
    else:
        for s in sys.argv[2:]:
            i, _, p = s.partition(":")
            check(i, p or None)

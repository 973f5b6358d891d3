#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property on /repo's working tree."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
    sys.argv.remove("--thorough")
sys.dont_write_bytecode = True
from vm import core, props  # noqa: E402


def replay(pid, path):
    rd = json.load(open(path))
    print("replaying:", rd["what"][:2000])
    if not rd.get("cmd"):
        print("this violation has no single-case replay; rerun the check")
        return props.check(pid)
    # rebuild whatever the recorded command runs: the check's own preparation does it
    core.run_job = lambda *a: None
    props.run_job = lambda *a: None
    props.check(pid)
    args = {k: v for k, v in rd["args"].items() if k not in ("secs", "cases")}
    args["case"] = rd.get("case", "0")
    rc, o, e, _ = core.sh(rd["cmd"] + core.kv(args), 600, env=core.env(rd.get("env")), cwd=core.VERIF)
    print(o[-6000:], e[-6000:], "exit status", rc)
    rep = core.parse(o)
    bad = rc != 0 or rep is None or rep["violations"]
    if bad:
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if bad else 0


def main():
    pid = sys.argv[1]
    try:
        if "--replay" in sys.argv:
            return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
        return props.check(pid)
    except Exception:  # a fault of the check itself: no answer
        traceback.print_exc()
        print("CHECK-ERROR: the check failed", file=sys.stderr)
        return 2
    finally:
        core.cleanup_tmp()


sys.exit(main())

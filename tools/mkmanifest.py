#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vm import props, special  # noqa: E402

LOCK = ("lockstep runtime monitor: random histories on the real code against an independent reference model "
        "(checked and release builds{0})")
NEON = ", plus the NEON backend interpreted by Miri"
BACK = ", all x86 backends forced and autodetected"
TECH = {
    "C01": LOCK.format(BACK + NEON), "C02": LOCK.format(BACK + NEON), "C03": LOCK.format(""),
    "C04": LOCK.format(""), "C05": LOCK.format(""), "C06": LOCK.format(""), "C07": LOCK.format(""),
    "C08": "metamorphic runtime monitor: arbitrary request sequences against a twin instance serving one request, "
           "with canaries around every buffer" + BACK + NEON,
    "C09": LOCK.format(BACK), "C10": LOCK.format(BACK), "C11": LOCK.format(BACK + NEON), "C12": LOCK.format(BACK),
    "C13": LOCK.format(BACK), "C24": LOCK.format(BACK + NEON),
}
NOTE = ("Every case executed was judged by the monitor; nothing is claimed about histories that were not executed. "
        "Trusts the reference model (self-tested against published vectors at start-up) and the cipher/rand_core "
        "traits crates.")
NOTES = {}
TECH.update(getattr(special, "TECH", {}))
NOTES.update(getattr(special, "NOTES", {}))

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in props.GEN or pid in special.SPECIAL:
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "technique": TECH[pid],
            "level": "exploration",
            "level_note": NOTES.get(pid, NOTE),
        })
    else:
        na.append({"property": pid, "reason": "its monitor is still being built"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes the public API, memory, executed instructions or address "
             "trace of unmodified crates. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Runs a Miri command with the interpreter's statement trace switched on and
compares the statements executed between pairs of marks of one case: a
difference means that the control flow depends on what differs between them
(the secrets). Reads the harness's report from its output and adds to it.

usage: mirtrace.py COMMAND..."""
import json
import os
import subprocess
import sys
import threading

PRE = b" INFO rustc_const_eval::interpret::step "
START, ON, OFF = b"ct_mark(const 0_u32)", b"ct_mark(const 1_u32)", b"ct_mark(const 2_u32)"


def show(b):
    return b[len(PRE):].decode("utf-8", "replace").strip()[:160]


def main():
    env = dict(os.environ, MIRI_LOG="rustc_const_eval::interpret::step=info", NO_COLOR="1")
    p = subprocess.Popen(sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out = []
    t = threading.Thread(target=lambda: out.append(p.stdout.read()))
    t.start()
    case, seg, first = -1, None, None
    segments = statements = blocks = 0
    bad, kinds = [], set()
    for line in p.stderr:
        if not line.startswith(PRE):
            sys.stderr.buffer.write(line)
            sys.stderr.buffer.flush()
            continue
        if seg is not None:
            if OFF in line:
                segments += 1
                statements += len(seg)
                if first is None:
                    first = seg
                    kinds.add(hash(tuple(seg)))
                elif first != seg:
                    n = next((i for i, (a, b) in enumerate(zip(first, seg)) if a != b), min(len(first), len(seg)))
                    a, b = (show(s[n]) if n < len(s) else "the end" for s in (first, seg))
                    before = show(seg[n - 1]) if n else "the start"
                    bad.append({"case": case,
                                "what": f"the sequence of executed statements depends on the secrets: at statement {n} of "
                                        f"{len(first)}, after `{before}`, one secret leads to `{a}` and another to `{b}`"})
                seg = None
            else:
                seg.append(line)
        elif ON in line:
            seg = []
        elif START in line:
            case, first, seg = case + 1, None, None
    rc = p.wait()
    t.join()
    text = out[0].decode("utf-8", "replace")
    cases = [line.split()[1] for line in text.splitlines() if line.startswith("CASE ")]
    for b in bad:
        b["case"] = cases[b["case"]] if 0 <= b["case"] < len(cases) else "0x0"
    for line in text.splitlines():
        if line.startswith("VMON-JSON "):
            d = json.loads(line[len("VMON-JSON "):])
            d["counts"]["interpreted statements compared"] = statements
            d["counts"]["interpreted executions compared"] = segments
            d["counts"]["different statement sequences seen"] = len(kinds)
            d["violations"] += bad[:5]
            if d["evaluations"] and segments < 2:
                d["harness"].append({"case": "0x0", "what": "no trace was seen: this Miri does not report statements"})
            line = "VMON-JSON " + json.dumps(d)
        print(line)
    sys.exit(rc)


if __name__ == "__main__":
    main()

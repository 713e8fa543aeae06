#!/usr/bin/env python3
"""soak.py SEED RUNS LINES [profiles...]: validates all rules on many executions (not part of the registered checks)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common, raft
from vlib.common import *
seed, runs, lines = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
profs = sys.argv[4:] or ["core", "snap", "prevote", "member", "crash", "all"]
allc = sorted({c for v in raft.CLAUSES.values() for c in v.split()} | {"harness", "ae-size", "send-self"})
raft.PLAN["ALL"] = ({p: 1 for p in profs}, 70)
w = Work("soak")
try:
    drv = raft.build(w)
    recs = raft.generate(w, drv, "ALL", seed, runs, 160)
    fl = {}
    for r in recs:
        if r["flags"]:
            fl[(r["prof"], r["flags"])] = fl.get((r["prof"], r["flags"]), 0) + 1
    print("hints", fl)
    ch = raft.select(recs, lines, random.Random(seed))
    f, nl, ns, ok = raft.validate(w, ch, allc)
    print("seed", seed, "runs", len(recs), "validated", ok, "steps", nl, "failures", len(f), "%.0f s" % (time.time() - T0))
    for n, (r, cl, ln, ls) in enumerate(f[:8]):
        p = "/tmp/soak-%d-%d.txt" % (seed, n)
        open(p, "wb").write(b"\n".join(ls[:ln]) + b"\n")
        print(r["prof"], r["k"], cl, ln, p, ls[min(ln, len(ls)) - 1].decode()[:200])
finally:
    w.close()

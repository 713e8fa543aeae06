#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from bin/DESIGN.in: fills in the tables of rules and planted changes."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from vlib import raft, model
t = []
for p in sorted(raft.CLAUSES):
    ms = model.USES.get(p, "").split() + model.DEEP.get(p, "").split()
    plain = [m for m in ms if not model.RUNS[m].get("drop")]
    drops = [m for m in ms if model.RUNS[m].get("drop")]
    mt = ", ".join(plain) + ("; " if drops else "") + ", ".join("*%s*" % d for d in drops)
    if p == "C16":
        mt = "PreVote.tla; *prevote-first*, *prevote-quorum*, *prevote-defensive*, *prevote-passive*"
    t.append("| %s | %s | %s |" % (p, " ".join(raft.CLAUSES[p].split()), mt or "(liveness and absence of failures: trace rules only)"))
s = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    s.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
x = open(os.path.join(V, "bin", "DESIGN.in")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(x.replace("@TABLE@", "\n".join(t)).replace("@SEEDS@", "\n".join(s)))

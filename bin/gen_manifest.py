#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
from vlib import raft
try:
    from vlib import others
    OTH = others.CHECKS
except ImportError:
    OTH = {}
RAFT_T = "TLA+ trace validation (TLC) of recorded executions of the real servers against RaftTrace.tla; the rules are model checked in Raft.tla"
RAFT_N = ("Every rule of the specification listed in the evidence is evaluated by TLC on every step of the selected executions of the "
          "real raft_server objects, which run under seeded and scripted schedules with message loss, delay, duplication, crashes at "
          "any storage operation or send, slow application and membership changes; TLC also checks on a bounded model that the rules "
          "imply the property. Assumes atomic durable storage operations and that calls into one server are serialised as its lock does.")
checks, na = [], []
for i in ids:
    if i in raft.CLAUSES:
        t, lv, n = RAFT_T, "model_checking", RAFT_N
    elif i in OTH:
        t, lv, n = OTH[i]["technique"], OTH[i]["level"], OTH[i]["note"]
    else:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "technique": t, "level": lv, "level_note": n})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Turns counterexamples of the weakened model (Raft.tla with a rule left out) into schedules for the real servers.
   usage: gen_scripts.py [name...]   writes /verif/scripts/<name>.txt"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *
from vlib import model

# how the prepared initial states are reached
PREFIX = {
 "empty": [],
 "split": ["timeout 1", "mvr 1 3 1", "mvr 1 2 1", "mlead 1 1", "mlose", "timeout 2", "mvr 2 3 2", "mlead 2 2", "mvr 2 1 2", "mlose", "crash 2", "restart 2"],
 "part": ["timeout 1", "mvr 1 3 1", "mvr 1 2 1", "mlead 1 1", "mae 1 2 1 0 1 0", "mae 1 3 1 0 1 0", "mcommit 1 1", "mae 1 2 1 1 0 1", "mlose",
          "timeout 2", "mvr 2 3 2", "mlead 2 2", "client 2 1 0", "mvr 2 1 2", "mlose", "crash 2", "restart 2"],
 "five": ["timeout 1", "mvr 1 4 1", "mvr 1 5 1", "mvr 1 2 1", "mvr 1 3 1", "mlead 1 1", "mlose",
          "timeout 2", "mvr 2 3 2", "mvr 2 4 2", "mvr 2 5 2", "mlead 2 2", "mvr 2 1 2", "client 2 1 0", "mae 2 3 2 0 2 0", "mlose", "crash 2", "restart 2"],
 "ready": ["timeout 1", "mvr 1 3 1", "mvr 1 2 1", "mlead 1 1", "mae 1 2 1 0 1 0", "mae 1 3 1 0 1 0", "mcommit 1 1", "mae 1 2 1 1 0 1", "mae 1 3 1 1 0 1", "macks 1"],
}


def script(name, run_, out):
    acts = re.findall(r'^/\\ act = "(.*)"$', out, re.M)
    n = run_.get("servers", 3)
    m = len(run_.get("mem") or "x" * n)
    par = ["param n %d" % m, "param extra %d" % (n - m)]
    if run_.get("Snap"):
        par += ["param snap 1", "param reserved 0", "param block 4"]
    ls = ["# from a counterexample of Raft.tla without the rule(s) %s" % ",".join(run_["drop"])] + par + PREFIX[run_.get("Start", "empty")]
    for a in acts:
        for x in re.sub(r"\bs(\d)", r"\1", a).split(";"):
            x = x.strip()
            if x and not x.startswith("hb"):
                ls.append(x)
    ls += ["bg 0", "settle"]
    return "\n".join(ls) + "\n"


def main():
    os.makedirs(os.path.join(VERIF, "scripts"), exist_ok=True)
    work = Work("scripts")
    try:
        for name, r in model.RUNS.items():
            if not r.get("drop") or (sys.argv[1:] and name not in sys.argv[1:]):
                continue
            rc, out = model.tlc_run(name, dict(r, trace=True), work)
            if "is violated" not in out:
                print(name, "no counterexample")
                continue
            with open(os.path.join(VERIF, "scripts", name + ".txt"), "w") as f:
                f.write(script(name, r, out))
            print(name, "ok")
    finally:
        work.close()


main()

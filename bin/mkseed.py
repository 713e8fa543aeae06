#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPECFILE : SPECFILE is python defining EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ text) and optionally SH"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("REPO", "/repo")
bid, pid, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = os.path.join(V, "seeded", bid)
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", R, "diff", "--quiet"]).returncode == 0
try:
    for f, a, b in ns["EDITS"]:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": pid, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
if "DEMO" in ns:
    open(d + "/demo.cpp", "w").write(ns["DEMO"])
    kit = ns.get("KIT", ["kit.hxx"])
    for k in kit:
        shutil.copy(os.path.join(V, "demokit", k), d)
sh = ns.get("SH")
if sh:
    open(d + "/demo.sh", "w").write(sh)
else:
    shutil.copy(os.path.join(V, "demokit", ns.get("SHKIT", "demo.sh")), d + "/demo.sh")
print(bid, "written")

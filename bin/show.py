#!/usr/bin/env python3
"""prints a recorded execution, one short line per step: show.py FILE [FROM] [TO]"""
import json, sys
def es(v): return "".join(" %d%s%s" % (x["t"], {1: ":", 2: "C"}.get(x["k"], "?"), x["v"] if x["k"] == 1 else "".join(map(str, x["s"]))) for x in v)
def msg(m):
    r = "%s%s %d>%d t%d" % (m["ty"], m.get("id", ""), m["from"], m["to"], m["term"])
    if "ok" in m: return r + (" OK" if m["ok"] else " no") + " nx%d" % m["nx"]
    r += " pv%d.%d c%d" % (m["lli"], m["llt"], m["ci"])
    if m.get("es"): r += " [" + es(m["es"]).strip() + "]"
    if m.get("snap"): r += " snap%d off%d len%d sz%d" % tuple(m["snap"][k] for k in ("i", "off", "len", "sz"))
    return r
def op(o):
    k = o["o"]
    if k == "st": return "st(t%d v%d)" % (o["t"], o["v"])
    if k == "cfg": return "cfg(%d %s)" % (o["c"]["i"], "".join(map(str, o["c"]["s"])))
    return k + ("(%s)" % ",".join(str(o[x]) for x in ("i", "v") if x in o) if "i" in o else "")
L = [json.loads(x) for x in open(sys.argv[1]) if x.startswith("{")]
a = int(sys.argv[2]) if len(sys.argv) > 2 else 1
b = int(sys.argv[3]) if len(sys.argv) > 3 else len(L)
if a < 0: a = len(L) + a
print(json.dumps(L[0]))
for k, e in enumerate(L[:b], 1):
    if k < max(a, 2): continue
    s = "%d %s n%d" % (k, e["ev"], e["n"])
    for f in ("k", "how", "s", "vs", "i", "api", "l", "ok", "up", "sig", "lc", "snapi", "crash", "exit", "exc", "res"):
        if f in e: s += " %s=%s" % (f, e[f])
    if e["ev"] == "Start": s += " cfg=%d%s" % (e["cfg"]["i"], e["cfg"]["s"])
    if "m" in e: s += " " + msg(e["m"])
    if e["ev"] in ("Resp", "Fail") and "q" in e: s += " q=" + msg(e["q"])
    if "r" in e: s += " -> " + msg(e["r"])
    if e["n"] and "term" in e: s += " |t%d v%d" % (e["term"], e["vote"])
    if "f" in e: s += " log@%d[%s] st%d" % (e["f"], es(e["tail"]).strip(), e["start"])
    if "sm" in e: s += " {" + " ".join(op(o) for o in e["sm"]) + "}"
    if "async" in e: s += " async=%s" % [(x["f"], x["ok"], x["err"]) for x in e["async"]]
    if "out" in e: s += " >> " + "; ".join(msg(m) for m in e["out"])
    print(s[:330])

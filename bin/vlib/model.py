"""Model checking of the protocol specification itself (Raft.tla): the invariants hold, and every rule that trace validation
   enforces is needed for them (leaving it out gives a counterexample)."""
import json, re
from .common import *

INVS = "ElectionSafety LogMatching Agreement Completeness".split()
PROPS = "Elected Stable Forward Terms".split()
DEF = dict(servers=3, MaxTerm=2, MaxLog=2, MaxMsg=6, MaxRestart=0, Batch=1, Snap=False, Targets=(), Lag=False, Clients=True,
           Start="empty", drop=(), cands=None, cut=(), mem=None)
G1 = ("1234", "12345")
# the partition in which a configuration change goes wrong: 1 reaches 2, 4 and 5; 2 reaches 3
CUT = ("13", "24", "25", "34", "35", "45")
RUNS = {
 # ---- the protocol as it is
 "base":       dict(MaxMsg=7, MaxRestart=1),
 "base-part":  dict(Start="part", MaxTerm=4, MaxLog=3, MaxMsg=7),
 "base-split": dict(Start="split", MaxTerm=4, MaxLog=3, MaxMsg=7),
 "base-five":  dict(Start="five", servers=5, MaxTerm=3, MaxLog=3, MaxMsg=7),
 "base-snap":  dict(Snap=True, MaxMsg=6, MaxRestart=1),
 "base-snap-part": dict(Snap=True, Start="part", MaxTerm=3, MaxLog=3, MaxMsg=6),
 "base-member": dict(servers=4, mem="123", Targets=("1234", "12", "13"), Start="ready", MaxMsg=5, MaxLog=3, Batch=2, Clients=False),
 # deeper, for the thorough tier
 "deep":       dict(MaxMsg=9, MaxTerm=3, MaxLog=2, MaxRestart=1, thorough=True),
 "deep-log":   dict(MaxMsg=8, MaxTerm=2, MaxLog=3, MaxRestart=1, Batch=2, thorough=True),
 "deep-part":  dict(Start="part", MaxTerm=4, MaxLog=3, MaxMsg=9, Batch=2, thorough=True),
 "deep-split": dict(Start="split", MaxTerm=5, MaxLog=3, MaxMsg=9, thorough=True),
 "deep-snap":  dict(Snap=True, MaxMsg=8, MaxRestart=1, thorough=True),
 "deep-snap-part": dict(Snap=True, Start="part", MaxTerm=3, MaxLog=3, MaxMsg=8, MaxRestart=1, thorough=True),
 "deep-member": dict(servers=5, mem="123", Targets=G1, Start="ready", MaxMsg=7, MaxLog=4, Batch=3, Clients=False, cands="2", cut=CUT, thorough=True),
 "deep-member-rm": dict(servers=4, mem="1234", Targets=("123", "12", "124"), Start="ready", MaxMsg=6, MaxLog=4, Batch=2, Clients=False, thorough=True),
 # ---- with a rule left out
 "vote-once":      dict(drop=["vote-once"], MaxMsg=7),
 "vote-durable":   dict(drop=["vote-durable"], MaxMsg=7, MaxRestart=1),
 "term-durable":   dict(drop=["term-durable"], MaxMsg=7, MaxRestart=1),
 "log-durable":    dict(drop=["log-durable"], MaxMsg=8, MaxRestart=1),
 "stale-vote":     dict(drop=["stale-vote"], MaxTerm=3, MaxMsg=8),
 "vote-uptodate":  dict(drop=["vote-uptodate"], MaxMsg=8),
 "elect-quorum":   dict(drop=["elect-quorum"]),
 "stale-reply":    dict(drop=["stale-reply"], MaxTerm=3, MaxMsg=7),
 "stale-append":   dict(drop=["stale-append"], MaxTerm=3, MaxMsg=8),
 "ae-prev":        dict(drop=["ae-prev"], MaxTerm=3, MaxMsg=8),
 "ae-merge-cut":   dict(drop=["ae-merge-cut"], MaxTerm=2, MaxLog=3, MaxMsg=8),
 "ae-merge-keep":  dict(drop=["ae-merge-keep"], Start="five", servers=5, MaxTerm=3, MaxLog=3, MaxMsg=5),
 "commit-bound":   dict(drop=["commit-bound"], Start="part", MaxTerm=3, MaxLog=2, MaxMsg=7),
 "commit-quorum":  dict(drop=["commit-quorum"], MaxMsg=8),
 "commit-term":    dict(drop=["commit-term"], Start="split", MaxTerm=4, MaxLog=2, MaxMsg=7),
 "snap-applied":   dict(drop=["snap-applied"], Snap=True, Start="part", MaxTerm=3, MaxLog=3, MaxMsg=7, MaxRestart=1),
 "snap-forward":   dict(drop=["snap-forward"], Snap=True, Start="part", MaxTerm=3, MaxLog=3, MaxMsg=7),
 "is-cut":         dict(drop=["is-cut"], Snap=True, Start="part", MaxTerm=4, MaxLog=3, MaxMsg=8),
 "is-keep":        dict(drop=["is-keep"], Snap=True, Start="five", servers=5, MaxTerm=3, MaxLog=3, MaxMsg=8, Batch=2),
 "sync-exact":     dict(drop=["sync-exact"], servers=4, mem="123", Targets=("1234",), MaxLog=3, MaxMsg=6),
 "conf-one-server": dict(drop=["conf-one-server"], servers=5, mem="123", Targets=("12345",), Start="ready", MaxLog=3, MaxMsg=7, Batch=2, cands="2", cut=CUT, thorough=True),
 "conf-prompt": dict(drop=["conf-prompt"], Lag=True, servers=5, mem="123", Targets=G1, Start="ready", MaxLog=4, MaxMsg=10, Batch=3, Clients=False, cands="2", cut=CUT, thorough=True),
 "conf-one-at-a-time": dict(drop=["conf-one-at-a-time"], servers=5, mem="123", Targets=G1, Start="ready", MaxLog=4, MaxMsg=7, Batch=3, Clients=False, cands="2", cut=CUT, thorough=True),
}
USES = {
 "C01": "base base-part vote-once elect-quorum stale-reply",
 "C02": "base vote-once vote-durable term-durable",
 "C03": "base base-part vote-uptodate commit-term log-durable",
 "C04": "base base-five ae-prev ae-merge-keep stale-append",
 "C05": "base-part base-five commit-bound commit-quorum snap-forward",
 "C06": "base-split base-part commit-term commit-quorum commit-bound stale-reply",
 "C07": "base-five base-split ae-merge-cut ae-merge-keep",
 "C08": "base-five",
 "C09": "base-member conf-one-server conf-one-at-a-time",
 "C10": "base-member sync-exact",
 "C11": "base-member",
 "C12": "base-snap is-keep is-cut snap-forward",
 "C13": "base-snap snap-applied",
 "C18": "base base-snap vote-durable term-durable log-durable",
}
DEEP = {
 "C01": "deep deep-split", "C02": "deep", "C03": "deep-part deep-split", "C04": "deep-log", "C05": "deep-part", "C06": "deep-split deep-part",
 "C07": "deep-log", "C09": "deep-member deep-member-rm", "C10": "deep-member", "C11": "deep-member-rm", "C12": "deep-snap deep-snap-part",
 "C13": "deep-snap-part", "C18": "deep deep-snap",
}


def sset(x):
    return "{%s}" % ",".join("s" + c for c in x)


def tlc_run(name, r, work, workers=2, timeout=None):
    p = dict(DEF, **r)
    n = p["servers"]
    allv = "".join(str(k + 1) for k in range(n))
    cfg = work.path("raft-%s.cfg" % name)
    b = lambda x: "TRUE" if x else "FALSE"
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for c in allv:
            f.write(" s%s = s%s\n" % (c, c))
        f.write(" Server = %s\n Mem0 = %s\n Cands = %s\n" % (sset(allv), sset(p["mem"] or allv), sset(p["cands"] or allv)))
        f.write(" Cut = {%s}\n Targets = {%s}\n" % (",".join(sset(x) for x in p["cut"]), ",".join(sset(x) for x in p["Targets"])))
        for k in "MaxTerm MaxLog MaxMsg MaxRestart Batch".split():
            f.write(" %s = %d\n" % (k, p[k]))
        for k in "Snap Lag Clients".split():
            f.write(" %s = %s\n" % (k, b(p[k])))
        f.write(" Start = \"%s\"\n Drop = {%s}\n Trace = %s\n" % (p["Start"], ",".join('"%s"' % d for d in p["drop"]), b(p.get("trace"))))
        f.write("VIEW View\n")
        if p["Start"] == "empty" and not p["Targets"] and not p["cands"]:
            f.write("SYMMETRY Sym\n")
        f.write("INVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n" % (" ".join(INVS), " ".join(PROPS)))
    return tlc("Raft", cfg, work, "raft-" + name, workers=workers, xmx="12g" if p.get("thorough") else "4g", timeout=timeout)


def prevote(work, res):
    """PreVote.tla, for clusters of 3, 4 and 5 servers"""
    jobs = [(n, h, d, inv) for n, h in ((3, 2), (4, 3), (5, 3)) for d, inv in
            [("", "Undisturbed")] + ([(x, "Undisturbed") for x in ("prevote-first", "prevote-defensive", "prevote-passive")] if n < 5 else [])
            + ([("prevote-quorum", "Undisturbed")] if n == 5 else [])]
    jobs.append((4, 2, "", "Stuck"))     # two of four are not healthy: the others cannot raise the term
    jobs.append((3, 1, "", "Stuck"))     # a majority lost the leader: here the term must be able to rise

    def one(j):
        n, h, d, inv = j
        cfg = work.path("pv-%d-%d-%s-%s.cfg" % j)
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n%s Server = {%s}\n Healthy = {%s}\n Drop = {%s}\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (
                "".join(" s%d = s%d\n" % (k, k) for k in range(1, n + 1)), ",".join("s%d" % k for k in range(1, n + 1)),
                ",".join("s%d" % k for k in range(1, h + 1)), '"%s"' % d if d else "", inv))
        return tlc("PreVote", cfg, work, "pv-%d-%d-%s-%s" % j)
    for j, (rc, out) in zip(jobs, pmap(one, jobs, 4)):
        n, h, d, inv = j
        hit = "is violated" in out
        want = bool(d) or j == (3, 1, "", "Stuck")
        st = tlc_stats(out)
        res["states"] += st[1]
        res["transitions"] += st[0]
        res["runs"].append({"model": "PreVote, %d of %d servers healthy" % (h, n), "rule_left_out": [d] if d else [], "states": st[1],
                            "transitions": st[0], "result": ("violates " if hit else "holds: ") + inv})
        if not hit and "No error" not in out:
            raise RuntimeError("TLC failed on PreVote: " + out[-1500:])
        if hit != want:
            res["bad"].append(("model-prevote", "PreVote.tla: unexpected result for %s" % (j,), out[-5000:]))


def for_property(pid, work):
    names = [n for n in USES.get(pid, "").split() if TIER == "thorough" or not RUNS[n].get("thorough")]
    if TIER == "thorough":
        names += DEEP.get(pid, "").split()
    res = {"states": 0, "transitions": 0, "runs": [], "bad": []}
    if pid == "C16":
        prevote(work, res)
    if not names:
        return res
    big = [n for n in names if RUNS[n].get("thorough")]
    small = [n for n in names if n not in big]
    outs = dict(zip(small, pmap(lambda n: tlc_run(n, RUNS[n], work), small, 4)))
    for n in big:
        outs[n] = tlc_run(n, RUNS[n], work, workers=8, timeout=1500)
    for n in names:
        rc, out = outs[n]
        st = tlc_stats(out)
        drop = RUNS[n].get("drop")
        m = re.search(r"(?:Invariant|Action property) (\w+) is violated", out)
        done = "Model checking completed. No error" in out
        late = "TIMEOUT" in out
        res["states"] += st[1]
        res["transitions"] += st[0]
        res["runs"].append({"model": n, "rule_left_out": drop or [], "states": st[1], "transitions": st[0],
                            "result": "violates " + m.group(1) if m else "holds" if done else "no error found before the time limit" if late else "failed"})
        if not m and not done and not late:
            raise RuntimeError("TLC failed on %s: %s" % (n, out[-1500:]))
        if not drop and m:
            res["bad"].append(("model-" + n, "the specification itself breaks %s" % m.group(1), out[-20000:]))
        if drop and not m and not late:
            res["bad"].append(("model-" + n, "the specification does not need the rule(s) %s" % ",".join(drop), out[-20000:]))
    return res

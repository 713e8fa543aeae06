"""Properties of the replication protocol: executions of the real servers are validated by TLC against RaftTrace.tla."""
import json, os, re, time, random
from .common import *

CLAUSES = {
 "C01": "one-leader elect-quorum lead-sends vote-grant one-vote",
 "C02": "term-monotone one-vote send-durable resp-term vote-grant restart-state",
 "C03": "leader-complete vote-uptodate vote-req-log vote-grant",
 "C04": "log-matching ae-accept ae-content sync-exact",
 "C05": "apply-next apply-committed apply-value commit-agree cookie snap-forward snap-content",
 "C06": "commit-quorum commit-bound commit-agree ae-accept apply-committed",
 "C07": "ae-merge ae-accept leader-append-only leader-append-term append-as-leader log-unchanged committed-kept committed-stays cli-refuse sync-refuse is-log",
 "C08": "pre-exact rollback-exact pre-once rollback-match rollback-applied pre-missing",
 "C09": "conf-one-at-a-time conf-one-server conf-pred conf-requested cfg-entry cfg-forward append-as-leader live-conf add-accept rm-accept",
 "C10": "sync-exact sync-refuse joiner-passive join-member join-done add-accept elect-quorum commit-quorum snap-complete snap-content snap-config is-meta is-accept is-start no-hang",
 "C11": "rm-accept no-exit leave-done conf-requested conf-one-server",
 "C12": "snap-complete snap-content snap-config snap-forward is-accept is-log is-done is-start is-meta cfg-entry apply-next",
 "C13": "snap-applied snap-term snap-conf snap-one snap-distance snap-due compact-covered compact-done",
 "C14": "live-catchup live-commit live-leader no-hang",
 "C15": "live-leader live-commit live-stable live-catchup no-hang",
 "C16": "prevote-first prevote-passive prevote-grant prevote-defensive",
 "C17": "cli-accept cli-forward cli-fresh cli-hint cli-refuse is-leader leader-append-term fwd-verdict",
 "C18": "restart-state apply-next apply-committed apply-value term-monotone one-vote committed-stays commit-agree leader-complete no-exit log-unchanged cfg-forward commit-quorum",
 "C28": "no-exit no-hang",
 "C30": "role-events caught-up lead-sends cli-accept no-hang",
}
# profile: share of the generated runs; settle: percentage of runs that end with a fair phase
PLAN = {
 "C01": ({"core": 5, "prevote": 3, "all": 2, "member": 2}, 25),
 "C02": ({"core": 4, "crash": 4, "prevote": 3, "all": 2, "member": 3}, 25),
 "C03": ({"core": 5, "snap": 5, "crash": 2, "all": 2}, 40),
 "C04": ({"core": 5, "snap": 4, "all": 2, "member": 2, "fs": 1}, 30),
 "C05": ({"core": 4, "snap": 4, "crash": 3, "member": 2, "fs": 1}, 50),
 "C06": ({"core": 6, "snap": 3, "member": 3, "all": 2}, 30),
 "C07": ({"core": 5, "snap": 4, "member": 2, "all": 2, "fs": 1}, 30),
 "C08": ({"core": 6, "snap": 3, "member": 2, "all": 2, "fs": 1}, 30),
 "C09": ({"member": 8}, 60),
 "C10": ({"member": 8}, 90),
 "C11": ({"member": 8}, 90),
 "C12": ({"snap": 8, "member": 3, "fs": 1}, 60),
 "C13": ({"snap": 8, "member": 2, "fs": 1}, 40),
 "C14": ({"snap": 6, "core": 3, "all": 2, "member": 1, "fs": 1}, 100),
 "C15": ({"core": 3, "prevote": 5, "snap": 2, "all": 2, "member": 2}, 100),
 "C16": ({"prevote": 8, "member": 2}, 40),
 "C17": ({"core": 6, "all": 3, "member": 2}, 30),
 "C18": ({"crash": 6, "snap": 4, "core": 2, "fs": 3}, 50),
 "C28": ({"core": 3, "snap": 4, "prevote": 2, "member": 4, "crash": 2, "fs": 1}, 60),
 "C30": ({"core": 4, "snap": 3, "prevote": 2, "member": 4, "crash": 2}, 40),
}
# histories that show the findings recorded in known-findings.txt
KNOWN = {"C03": ["config-lag.txt"]}
QUICK = dict(runs=6000, lines=330000, steps=160)
THOROUGH = dict(runs=120000, lines=6000000, steps=220)


def build(work):
    rc, out = run(["bash", os.path.join(VERIF, "harness", "build.sh"), work.path("hb")], timeout=600)
    if rc != 0:
        log(out[-3000:])
        raise SystemExit("harness build failed")
    return work.path("hb", "driver")


def scripts_for(pid):
    d = os.path.join(VERIF, "scripts")
    if not os.path.isdir(d):
        return []
    r = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".txt"))
    return r + [os.path.join(d, "known", f) for f in KNOWN.get(pid, ())]


def generate(work, drv, pid, seed, runs, steps, tag=""):
    """runs the real servers under seeded schedules; returns the list of run records"""
    plan, settle = PLAN[pid]
    tot = sum(plan.values()) or 1
    jobs = []
    for prof, w in plan.items():
        n = runs * w // tot
        per = max(1, (n + CPUS - 1) // CPUS)
        first = 0
        while first < n:
            c = min(per, n - first)
            o = work.path("tr%s-%s-%d.ndjson" % (tag, prof, first))
            jobs.append((o, [drv, "chaos", "--seed", str(seed), "--runs", str(c), "--first", str(first), "--steps", str(steps),
                             "--settle", str(settle), "--profile", prof, "--out", o, "--index", o + ".ix"], prof))
            first += c
    sc = scripts_for(pid)
    if sc and not tag:
        k = (len(sc) + CPUS - 1) // CPUS
        for a in range(0, len(sc), k):
            lst = work.path("scripts-%d.lst" % a)
            open(lst, "w").write("\n".join(sc[a:a + k]) + "\n")
            o = work.path("tr-script-%d.ndjson" % a)
            jobs.append((o, [drv, "scripts", "--script", lst, "--seed", "1", "--out", o, "--index", o + ".ix"], "script", sc[a:a + k]))
    pmap(lambda j: run(j[1], timeout=3000 if TIER != "quick" else 400), jobs)
    recs = []
    for j in jobs:
        by = {}
        try:
            for l in open(j[0] + ".ix"):
                p = l.split()
                if p[0] == "r":
                    by.setdefault(int(p[1]), {}).update(lines=int(p[2]), flags=p[3][1:], feats=frozenset(p[4:]))
                else:
                    by.setdefault(int(p[1]), {}).update(off=int(p[2]), len=int(p[3]))
        except FileNotFoundError:
            continue
        for k, r in by.items():
            r.update(file=j[0], k=k, prof=j[2], cmd=" ".join(j[1]))
            if j[2] == "script":
                r["name"] = os.path.basename(j[3][k])
            if "lines" not in r:
                r.update(lines=400, flags="D", feats=frozenset())
            recs.append(r)
    return recs


def select(recs, budget, rng):
    freq = {}
    for r in recs:
        for f in r["feats"]:
            freq[f] = freq.get(f, 0) + 1
    for r in recs:
        r["w"] = sum(1.0 / freq[f] for f in r["feats"]) / max(60, r["lines"])
        r["sel"] = False
    chosen, used = [], 0

    def take(lst, cap):
        nonlocal used
        for r in lst:
            if used >= cap:
                break
            if not r["sel"]:
                r["sel"] = True
                chosen.append(r)
                used += r["lines"]
    take([r for r in recs if r["prof"] == "script"], budget * 10)
    base = used
    fl = [r for r in recs if r["flags"]]
    rng.shuffle(fl)
    # different hints first
    cnt = {}
    for r in fl:
        cnt[r["flags"]] = cnt.get(r["flags"], 0) + 1
        r["ord"] = cnt[r["flags"]]
    take(sorted(fl, key=lambda r: r["ord"]), base + budget // 4)
    rare = sorted(recs, key=lambda r: -r["w"])
    take(rare, base + budget * 3 // 4)
    rest = recs[:]
    rng.shuffle(rest)
    take(rest, base + budget)
    return chosen


def read_run(r):
    with open(r["file"], "rb") as f:
        f.seek(r["off"])
        b = f.read(r["len"])
    ls = b.split(b"\n")
    if r["flags"] == "D" or "D" in r["flags"]:
        good = []
        for l in ls:
            try:
                json.loads(l)
                good.append(l)
            except ValueError:
                pass
        ls = good
    return [l for l in ls if l]


def write_cfg(work, clauses):
    p = work.path("trace.cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Enforced = {%s}\n" %
                ", ".join('"%s"' % c for c in sorted(clauses)))
    return p


def validate(work, runs, clauses, tag=""):
    """TLC decides about the recorded executions. Returns (failures, lines, states)"""
    cfg = write_cfg(work, clauses)
    n = CPUS
    chunks = [[] for _ in range(n)]
    size = [0] * n
    for r in sorted(runs, key=lambda r: -r["lines"]):
        k = size.index(min(size))
        chunks[k].append(r)
        size[k] += r["lines"]
    fails, lines, states, okruns = [], 0, 0, 0

    def one(a):
        k, rs = a
        res, nl, ns, okr = [], 0, 0, 0
        todo = [rs[i:i + 400] for i in range(0, len(rs), 400)]
        while todo:
            part = todo.pop(0)
            if not part:
                continue
            p = work.path("chunk%s-%d.ndjson" % (tag, k))
            starts = []
            at = 1
            with open(p, "wb") as f:
                for r in part:
                    ls = read_run(r)
                    starts.append((at, r, ls))
                    at += len(ls)
                    f.write(b"\n".join(ls) + b"\n")
            total = at - 1
            rc, out = tlc("RaftTrace", cfg, work, "t%s-%d" % (tag, k), env={"TRACE": p})
            flat = re.sub(r"\s*\n\s*", " ", out)

            def owner(line):
                o = None
                for s, r, ls in starts:
                    if s <= line:
                        o = (s, r, ls)
                return o
            hit = re.findall(r'<<"CLAUSE-FAILED", \{([^}]*)\}, (\d+), "(\w+)", (\d+)>>', flat)
            bad_runs = set()
            for cl, ln, ev, nd in hit:
                s, r, ls = owner(int(ln))
                bad_runs.add(id(r))
                res.append((r, sorted(x.strip().strip('"') for x in cl.split(",")), int(ln) - s + 1, ls))
            st = tlc_stats(out)
            ns += st[1]
            m = re.search(r'<<"TRACE-LINES", (\d+), "VALIDATED", (\d+)', flat)
            if m:
                nl += int(m.group(2))
                okr += len(part) - len(bad_runs)
                if int(m.group(2)) != total:
                    raise SystemExit("trace validation stopped early")
            else:
                # TLC could not evaluate a step: the trace is not one the specification can explain
                mm = re.findall(r"/\\ l = (\d+)", out)
                pr = re.findall(r"\bl = (\d+)", out)
                ln = int((mm or pr)[-1]) if (mm or pr) else None
                if ln is None or "Error" not in out:
                    raise SystemExit("TLC failed: " + out[-1500:])
                s, r, ls = owner(min(ln, total))
                res.append((r, ["not-explained"], ln - s + 1, ls))
                idx = [i for i, x in enumerate(part) if x is r][0]
                nl += s - 1
                okr += max(0, idx - len(bad_runs))
                if len(res) < 6:
                    todo.insert(0, part[idx + 1:])
            os.unlink(p)
        return res, nl, ns, okr
    for res, nl, ns, okr in pmap(one, [(k, c) for k, c in enumerate(chunks) if c]):
        fails += res
        lines += nl
        states += ns
        okruns += okr
    return fails, lines, states, okruns


def check(pid):
    from . import model
    work = Work(pid)
    try:
        v = Verdict(pid, "model_checking")
        par = QUICK if TIER == "quick" else THOROUGH
        clauses = CLAUSES[pid].split() + ["harness"]
        drv = build(work)
        t_build = time.time()
        total_runs = val_runs = lines = states = 0
        fails, sample = [], None
        # thorough: several rounds with different seeds, so that selection stays effective
        rounds = 1 if TIER == "quick" else 10
        for rd in range(rounds):
            sd = SEED if rounds == 1 else SEED * 1000 + rd
            recs = generate(work, drv, pid, sd, par["runs"] // rounds, par["steps"], "" if rd == 0 else "-%d" % rd)
            if not recs:
                v.violation("no-execution", "the servers under test do not get through a single execution", "every execution hangs or crashes before it is recorded\n")
                return v.finish()
            chosen = select(recs, par["lines"] // rounds, random.Random(sd))
            t1 = time.time()
            f, nl, ns, okr = validate(work, chosen, clauses)
            log("round %d: %d executions generated, %d selected, %d steps validated (%.0f s + %.0f s)" %
                (rd, len(recs), len(chosen), nl, t1 - t_build, time.time() - t1))
            t_build = time.time()
            fails += f
            total_runs += len(recs)
            val_runs += okr
            lines += nl
            states += ns
            if sample is None and chosen:
                s = read_run(chosen[len(chosen) // 2])
                sample = [json.loads(x) for x in s[:1] + s[len(s) // 2:len(s) // 2 + 3]]
            for r in recs:
                if os.path.exists(r["file"]):
                    os.unlink(r["file"])
            if fails:
                break
        fails.sort(key=lambda x: x[2])
        seen = set()
        for r, cl, ln, ls in fails:
            key = ",".join(cl)
            if r.get("name", "") in KNOWN.get(pid, ()):
                key = r["name"][:-4] + ":" + key
            if key in seen:
                continue
            seen.add(key)
            who = r.get("name", "%s run %d" % (r["prof"], r["k"]))
            v.violation(key, "rule(s) %s broken at step %d of %s: %s" % (key, ln, who, ls[min(ln, len(ls)) - 1].decode()[:400]),
                        "generated by: %s (run %d)\nsteps (NDJSON), the last one breaks the rule:\n%s\n" %
                        (r["cmd"], r["k"], b"\n".join(ls[:ln]).decode()))
        mc = model.for_property(pid, work)
        v.cov = {"states": states + mc["states"], "transitions": lines + mc["transitions"],
                 "traces_validated_against_impl": val_runs,
                 "executions_generated": total_runs, "steps_validated": lines, "rules": sorted(clauses),
                 "model": mc["runs"], "samples": [sample]}
        v.assumptions = ["storage operations are atomic and durable when they return",
                         "the harness serialises calls into a server as its lock does; background application is interleaved at apply points"]
        for key, text, payload in mc["bad"]:
            v.violation(key, text, payload)
        return v.finish()
    finally:
        work.close()

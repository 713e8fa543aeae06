"""Shared pieces of the checks: building, running TLC, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CPUS = min(8, os.cpu_count() or 1)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class Work:
    """scratch folder of one check, removed at the end"""
    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"


def pmap(f, items, n=CPUS):
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(f, items))


def tlc(module, cfg, work, tag, env=None, workers=1, xmx="3g", timeout=None, extra=()):
    """runs TLC on spec/<module>.tla; returns (exit code, output)"""
    meta = work.path("meta-" + tag)
    os.makedirs(meta, exist_ok=True)
    c = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + xmx,
         "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    c += list(extra) + [module + ".tla"]
    rc, out = run(c, timeout=timeout, env=env, cwd=os.path.join(VERIF, "spec"))
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def known_findings():
    """lines 'KNOWN property=<id> key=<key> <text>' of the committed file; keys identify the failing history"""
    f = os.path.join(VERIF, "known-findings.txt")
    r = {}
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


class Verdict:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {}
        self.assumptions = []
        self.bad = []      # (key, text, replay path)
        self.known = known_findings().get(pid, {})

    def violation(self, key, text, payload, name=None):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.pid, len(self.bad) + 1) if not name else name)
        with open(p, "w") as f:
            f.write("property %s\n%s\n" % (self.pid, text))
            f.write(payload)
        self.bad.append((key, text, p))

    def finish(self):
        new = []
        for key, text, p in self.bad:
            if key in self.known:
                log("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
            else:
                new.append((key, text, p))
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key, text, p in new[:5]:
            log(text[:600])
            log("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1 if new else 0

"""Checks of the parts besides the consensus core: file log store, async results, timers, transport, stop, logger, buffers."""
import glob, json, os, re, shutil, subprocess, tempfile, time, random
from .common import *

H = os.path.join(VERIF, "harness")
CHECKS = {}
ALL = [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(REPO, "src", "*.cxx")))]


def compile_driver(work, name, sources, repo_srcs, flags=(), points=(), points_repo=()):
    """compiles a driver and the repository sources it needs, in parallel; returns the binary"""
    fl = ["-std=c++17", "-O1", "-g1", "-w", "-DASIO_STANDALONE", "-I" + REPO + "/include", "-I" + REPO + "/asio/asio/include", "-I" + H] + list(flags)
    jobs = [(os.path.join(H, s + ".cpp"), work.path(name + "-" + s + ".o")) for s in sources]
    jobs += [(os.path.join(REPO, "src", s + ".cxx"), work.path(name + "-lib-" + s + ".o")) for s in repo_srcs]

    def one(j):
        b = os.path.splitext(os.path.basename(j[0]))[0]
        # memory accesses of these become scheduling points (tsanpoints.cpp)
        x = ["-fsanitize=thread"] if b in points or b in points_repo else []
        rc, out = run(["g++"] + fl + x + ["-c", j[0], "-o", j[1]])
        if rc:
            raise SystemExit("does not compile: " + out[-2000:])
    pmap(one, jobs)
    exe = work.path(name)

    def link(extra):
        return run(["g++"] + list(flags) + ["-o", exe] + [j[1] for j in jobs] + extra + ["-ldl", "-lpthread"])
    rc, out = link([])
    if rc:
        # the sources named above may need others by now
        have = set(repo_srcs)
        more = [(p, work.path(name + "-lib-" + os.path.basename(p)[:-4] + ".o")) for p in sorted(glob.glob(os.path.join(REPO, "src", "*.cxx")))
                if os.path.basename(p)[:-4] not in have]
        pmap(one, more)
        rc, out = link(["-Wl,--allow-multiple-definition"] + [j[1] for j in more])
    if rc:
        raise SystemExit("does not link: " + out[-2000:])
    return exe


def scratch(work, name):
    """a folder for the files of the code under test: in memory where possible"""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else work.dir
    d = tempfile.mkdtemp(prefix="verif-%s-" % name, dir=base)
    return d


def trace_cfg(work, module, consts, inv="NotStuck", tag=""):
    p = work.path(module + tag + ".cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % inv)
        for k, x in consts.items():
            f.write("CONSTANT %s = %s\n" % (k, x))
    return p


def validate_records(work, v, module, recs, consts, what, shards=8, limit=5, describe=None):
    """every record (NDJSON line) must be one that the specification allows; records are independent of each other"""
    cfg = trace_cfg(work, module, consts, tag="-v")
    n = max(1, min(shards, len(recs) // 50 + 1))
    parts = [recs[i::n] for i in range(n)]
    tot = [0, 0]

    def one(a):
        k, part = a
        res, states, done = [], 0, 0
        while part:
            p = work.path("rec-%s-%d.ndjson" % (module, k))
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            rc, out = tlc(module, cfg, work, "%s-%d" % (module, k), env={"TRACE": p})
            states += tlc_stats(out)[1]
            if rc == 0 and "No error has been found" in out:
                done += len(part)
                break
            # the record at which TLC stopped, be it a violated rule or an expression without a value
            m = re.findall(r"^(?:/\\ )?k = (\d+)", out, re.M)
            at = int(m[-1]) if m else None
            if at is None:
                raise SystemExit("TLC failed: " + out[-1500:])
            if at > len(part):
                raise SystemExit("TLC stopped after the last record: " + out[-1500:])
            if not re.search(r"Invariant \w+ is violated", out) and k is not None:
                # evaluation error: the record has a shape the specification gives no meaning to
                pass
            done += at - 1
            res.append(part[at - 1])
            if len(res) >= limit:
                break
            part = part[at:]
        return res, states, done
    for res, states, done in pmap(one, list(enumerate(parts))):
        tot[0] += states
        tot[1] += done
        for r in res:
            v.violation(what, "%s: %s" % (what, (describe or (lambda x: x[:400]))(r)), "record that the specification does not allow:\n" + r + "\n")
    return tot


def run_driver(v, cmd, what, timeout=600, env=None):
    """a driver that hangs or crashes is a violation: on the unchanged tree it does neither"""
    rc, out = run(cmd, timeout=timeout, env=env)
    if rc != 0:
        v.violation("driver-" + what, "%s: the program running the real code %s" %
                    (what, "did not finish" if rc == -1 else "ended with status %d" % rc),
                    "command: %s\n%s\n" % (" ".join(cmd), out[-3000:]))
        return None
    return out


# ------------------------------------------------------------------------------------------------ file log store
LS_T = "TLA+ contract LogStore.tla: TLC enumerates histories (LogStoreGen) that are replayed into the real store, and validates every recorded step (LogStoreTrace)"
LS_N = ("All histories of a bounded number of operations over all indices from prepared stores, and long random ones, run on the real "
        "fs_log_store for several buffer sizes; TLC checks every distinct observed step against the contract. ")
CHECKS["C19"] = {"technique": LS_T, "level": "model_checking", "note": LS_N + "Concurrent readers run under a controlled scheduler; file operations succeed except in injected compaction failures."}
CHECKS["C20"] = {"technique": LS_T, "level": "model_checking", "note": LS_N + "Reopening covers closing and continuing from a copy of the files as they are after the last completed operation; crashes inside an operation are disclaimed by the README."}
CHECKS["C21"] = {"technique": LS_T, "level": "model_checking", "note": LS_N + "Packs are applied at the index they were taken at, inside the receiving log or right after it."}


def describe_ls(r):
    try:
        d = json.loads(r)
    except ValueError:
        return r[:300]
    if "conc" in d:
        return "concurrent read " + json.dumps(d.get("read", d.get("fin")))[:300]
    return "operations %s" % json.dumps(d["ops"])[:350]


def logstore(pid):
    work = Work(pid)
    sd = None
    try:
        v = Verdict(pid, "model_checking")
        quick = TIER == "quick"
        exe = compile_driver(work, "logstore", ["logstore", "detsched"], ["fs_log_store", "buffer"])
        sd = scratch(work, pid)
        # 1. histories enumerated by TLC
        depth = 2 if quick else 3
        cfg = work.path("gen.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n  Depth = %d\n  Sizes = %s\n  Bufs = %s\nINVARIANTS Out WellFormed Laws\nCHECK_DEADLOCK FALSE\n"
                    % (depth, "{1, 0, 3}" if quick else "{1, 3}", '{"1", "2", "-1"}' if quick else '{"1", "2"}'))
        rc, out = tlc("LogStoreGen", cfg, work, "gen", workers=4, xmx="8g")
        hist = sorted(set(re.findall(r'^"H (.*)"$', out, re.M)))
        if rc or not hist:
            raise SystemExit("TLC failed: " + out[-1500:])
        gstates = tlc_stats(out)
        del out
        rnd = random.Random(SEED)
        rnd.shuffle(hist)
        jobs = []
        bufs = [("1,2", 0), ("2,-1", 1), ("3,1", 2), ("-1,3", 3)]
        if quick:
            for bi, (b, o) in enumerate(bufs):
                for m in "ds":
                    jobs.append(("hist", hist, m, b, o + 4 * bi))
        else:
            # every history once densely and once sparsely observed, each with one of the buffer configurations
            for i in range(8):
                part = hist[i::8]
                jobs.append(("hist", part, "d", bufs[i % 4][0], i))
                jobs.append(("hist", part, "s", bufs[(i + 1) % 4][0], i))
        for i in range(8):
            jobs.append(("rand", SEED * 100 + i, 60 if quick else 1500, 60))
        if pid == "C19":
            for i in range(4):
                jobs.append(("conc", SEED * 100 + i, 1000 if quick else 8000))

        def one(a):
            k, j = a
            d = os.path.join(sd, str(k))
            os.mkdir(d)
            o = work.path("ls-%d.out" % k)
            if j[0] == "hist":
                hf = work.path("ls-%d.in" % k)
                with open(hf, "w") as f:
                    f.write("\n".join(j[1]) + "\n")
                cmd = [exe, d, o, "hist", hf, j[2], j[3], str(j[4])]
            else:
                cmd = [exe, d, o, j[0]] + [str(x) for x in j[1:]]
            r = run_driver(v, cmd, "log store driver")
            n = re.search(r"ops (\d+) units (\d+)", r or "")
            shutil.rmtree(d, ignore_errors=True)
            recs = []
            if os.path.exists(o):
                with open(o, "r", errors="replace") as f:
                    recs = [l for l in f.read().split("\n") if l.endswith("}")]
                os.unlink(o)
            return recs, int(n.group(1)) if n else 0, int(n.group(2)) if n else 0
        recs, ops, units = set(), 0, 0
        judge = {"C19": "all", "C20": "reopen", "C21": "pack"}[pid]
        for r, o, u in pmap(one, list(enumerate(jobs))):
            if judge == "reopen":
                r = [x for x in r if '"o":"O"' in x or '"o":"K"' in x]
            elif judge == "pack":
                r = [x for x in r if '"o":"P"' in x]
            recs.update(r)
            ops += o
            units += u
        recs = sorted(recs, key=lambda x: (x.count('"o":'), len(x)))
        log("%d operations on the real store, %d observed steps, %d distinct to validate (%.0f s)" % (ops, units, len(recs), time.time() - T0))
        if len(recs) < 100:
            v.violation("nothing-recorded", "the store does not get through the enumerated histories", "only %d distinct steps were recorded\n" % len(recs))
            return v.finish()
        states, done = validate_records(work, v, "LogStoreTrace", recs, {"Judge": '"%s"' % judge}, "log store", limit=2, describe=describe_ls)
        v.cov = {"states": states + gstates[1], "transitions": done + gstates[0], "traces_validated_against_impl": len(hist) * (8 if quick else 2),
                 "histories_enumerated": len(hist), "depth": depth, "operations_executed": ops, "distinct_steps_validated": done,
                 "samples": [json.loads(recs[len(recs) // 2])]}
        v.assumptions = ["file operations succeed apart from the injected failures of a compaction", "the buffer holds at least one entry"]
        return v.finish()
    finally:
        if sd:
            shutil.rmtree(sd, ignore_errors=True)
        work.close()


RUN = {"C19": logstore, "C20": logstore, "C21": logstore}


# ------------------------------------------------------------------------------------------------ explored schedules
def model_runs(work, v, module, base, drops, invs, must="", props="", deadlock=True, xmx="4g", workers=4):
    """model checks spec/<module>.tla with Drop = "" (must hold) and with each ingredient dropped (must fail)"""
    res, st, tr = [], 0, 0

    def one(d):
        p = work.path("%s-%s.cfg" % (module, d or "full"))
        with open(p, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in base.items()) + '  Drop = "%s"\n' % d)
            if invs:
                f.write("INVARIANTS %s\n" % invs)
            if props:
                f.write("PROPERTIES %s\n" % props)
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        rc, out = tlc(module, p, work, module + "-" + (d or "full"), workers=workers if not d else 2, xmx=xmx)
        return d, rc, out
    for d, rc, out in pmap(one, [""] + list(drops), 4):
        s = tlc_stats(out)
        found = re.search(r"(Invariant \w+ is violated|Deadlock reached|Temporal properties were violated|Action property \w+ is violated|Temporal property \w+ was violated)", out)
        if not d:
            if rc != 0 or "No error has been found" not in out:
                raise SystemExit("the model does not keep its properties: " + out[-1500:])
            st, tr = s[1], s[0]
            res.append({"model": module, "states": s[1], "result": "holds"})
        else:
            if not found:
                raise SystemExit("dropping %s from %s goes unnoticed: %s" % (d, module, out[-800:]))
            res.append({"model": module, "dropped": d, "result": found.group(1)})
    return res, st, tr


def explored(pid, module, consts, driver, sources, repo_srcs, jobs, what, point_sources=(), model=None, assumptions=(), extra=None, describe=None, point_repo=(), width=8, flags=(), more=()):
    """jobs: argument lists for the driver; its records go to TLC. more: further drivers (name, sources, repository sources, jobs, point_repo)"""
    work = Work(pid)
    sd = None
    try:
        v = Verdict(pid, "model_checking")
        exes = [compile_driver(work, driver, sources, repo_srcs, flags=flags, points=point_sources, points_repo=point_repo)]
        jobs = [(exes[0], j) for j in jobs]
        for x in more:
            exes.append(compile_driver(work, x[0], x[1], x[2], flags=flags, points_repo=x[4]))
            jobs += [(exes[-1], j) for j in x[3]]
        sd = scratch(work, pid)

        def one(a):
            k, (exe, j) = a
            d = os.path.join(sd, str(k))
            os.mkdir(d)
            o = work.path("x-%d.out" % k)
            r = run_driver(v, [exe, o] + [str(x).replace("{dir}", d) for x in j], what)
            shutil.rmtree(d, ignore_errors=True)
            m = re.search(r"executions (\d+) distinct (\d+) complete (\d)", r or "")
            recs = []
            if os.path.exists(o):
                with open(o, "r", errors="replace") as f:
                    recs = [l for l in f.read().split("\n") if l.endswith("}")]
                os.unlink(o)
            return recs, [int(x) for x in m.groups()] if m else [0, 0, 0]
        recs, ex, comp = set(), 0, 0
        for r, n in pmap(one, list(enumerate(jobs)), width):
            recs.update(r)
            ex += n[0]
            comp += n[2]
        recs = sorted(recs, key=lambda x: (len(x), x))
        log("%d executions, %d of %d schedule spaces complete, %d distinct traces (%.0f s)" % (ex, comp, len(jobs), len(recs), time.time() - T0))
        if not recs:
            v.violation("nothing", what + ": no execution could be recorded", "")
            return v.finish()
        states, done = validate_records(work, v, module, recs, consts, what, limit=2, describe=describe)
        mr, ms, mt = model(work, v) if model else ([], 0, 0)
        v.cov = {"states": states + ms, "transitions": sum(x.count('"e":') for x in recs) + mt, "traces_validated_against_impl": done, "executions": ex,
                 "schedule_spaces_complete": comp, "schedule_spaces": len(jobs), "model": mr, "samples": [json.loads(recs[len(recs) // 2])]}
        v.assumptions = list(assumptions)
        return v.finish()
    finally:
        if sd:
            shutil.rmtree(sd, ignore_errors=True)
        work.close()


EX_T = "TLA+ contract %s.tla: TLC validates every distinct trace of the real code under explored thread schedules%s"
EX_N = "The real code runs under a controlled scheduler that switches threads at every lock, condition variable and access to the shared object; "
CHECKS["C22"] = {"technique": EX_T % ("Async", "; AsyncMC model checks the protocol against the contract"), "level": "model_checking",
                 "note": EX_N + "all schedules with a bounded number of preemptions and one spurious wake-up for one setter, one registration and up to two waiters, and random schedules beyond."}


def asynch(pid):
    q = TIER == "quick"
    jobs = []
    for i, sc in enumerate(["sr", "rs", "sg", "gs", "Rsg", "Vrg", "Rxg", "xr", "xg", "gx"]):
        jobs.append([sc, 3 if q else 4, 1, 6000 if q else 60000, 0, 1, 20 if q else 120])
    for i, sc in enumerate(["srg", "sgg", "xrg", "rgs", "ggs", "gxg", "Rsgg", "srgg"]):
        jobs.append([sc, 2, 1, 5000 if q else 60000, 0, 1, 20 if q else 120])
        jobs.append([sc, 2, 1, 3000 if q else 30000, 1, SEED * 10 + i, 20 if q else 120])
    return explored(pid, "AsyncTrace", {}, "asyncres", ["asyncres", "tsanpoints", "detsched"], ["buffer"], jobs, "async result",
                    point_sources=["asyncres"],
                    model=lambda w, v: model_runs(w, v, "AsyncMC", {"Getters": '{"g1", "g2"}' if q else '{"g1", "g2", "g3"}', "Spurious": 2},
                                                  ["check-outside", "if-wait", "no-notify", "notify-one", "late-flag", "handler-outside"], "Contract"),
                    assumptions=["one result is set once and at most one handler is registered, as the library does"])


RUN["C22"] = asynch


CHECKS["C23"] = {"technique": EX_T % ("Timer", "; TimerMC model checks the timer protocol against the contract"), "level": "model_checking",
                 "note": EX_N + "time is virtual, so that delays and expiries take every order; random programs of schedule, cancel and reschedule from up to three threads on the real asio_service."}
CHECKS["C24"] = {"technique": EX_T % ("Rpc", "; RpcMC model checks the call protocol against the contract"), "level": "model_checking",
                 "note": EX_N + "random calls over real loopback sockets to the real listener, to a peer that refuses, does not answer or closes the connection after any number of response bytes, and to the same peer serving again."}
CHECKS["C26"] = {"technique": EX_T % ("Logger", "; LoggerMC model checks the flush and stop protocol against the contract"), "level": "model_checking",
                 "note": EX_N + "several threads log lines of all levels and shapes while the service flushes and stops; the file is read back when stop() returned and at the end."}


def timers(pid):
    q = TIER == "quick"
    n, secs = (16, 14) if q else (64, 100)
    return explored(pid, "TimerTrace", {}, "timers", ["timers", "tsanpoints", "detsched"], ALL, [[SEED * 1000 + i, 1000000, secs] for i in range(n)], "timers",
                    point_repo=["asio_service"],
                    model=lambda w, v: model_runs(w, v, "TimerMC", {"MaxOps": 4 if q else 5, "MaxTime": 5 if q else 6}, ["round", "flag", "reset"], "Contract", deadlock=False),
                    assumptions=["a task is scheduled and cancelled by one thread at a time", "tasks do not throw"])


def rpc(pid):
    q = TIER == "quick"
    n, secs = (32, 8) if q else (96, 60)
    return explored(pid, "RpcTrace", {}, "rpc", ["rpc", "tsanpoints", "detsched"], ["asio_service", "buffer"], [[SEED * 1000 + i, 1000000, secs] for i in range(n)], "rpc",
                    point_repo=["asio_service"], width=16,
                    model=lambda w, v: model_runs(w, v, "RpcMC", {"Max": 4 if q else 6}, ["queue", "close", "next", "session-close"], "Contract", deadlock=False),
                    assumptions=["requests of at most 16 MB, which the listener accepts"])


def loggers(pid):
    q = TIER == "quick"
    n, secs = (16, 14) if q else (64, 100)
    return explored(pid, "LoggerTrace", {}, "logger", ["logger", "tsanpoints", "detsched"], ALL, [["{dir}", SEED * 1000 + i, 1000000, secs] for i in range(n)], "logger",
                    point_repo=["asio_service"],
                    model=lambda w, v: model_runs(w, v, "LoggerMC", {"Threads": "{1, 2}", "Lines": 2 if q else 3}, ["lock", "arm-lock", "last-flush", "destructor", "early-done"], "Contract", deadlock=False),
                    assumptions=["the file system accepts the lines"])


CHECKS["C27"] = {"technique": "TLA+ contract Buffer.tla: TLC validates every distinct program of operations run on the real buffers, and every object serialized and read back (BufferTrace)",
                 "level": "model_checking",
                 "note": "All programs of a bounded number of operations on pairs of buffer sizes, and random longer ones over all size classes, run on the real buffers under AddressSanitizer; random objects of every kind are serialized and read back."}


def buffers(pid):
    q = TIER == "quick"
    jobs = [["small", i, 8, 30, 3, 0] for i in range(8)]
    jobs += [["random", SEED * 100 + i, 2500 if q else 40000, 200] for i in range(8)]
    jobs += [["objects", SEED * 100 + i, 4000 if q else 40000, 200] for i in range(4)]
    if not q:
        jobs += [["small", i, 64, 60, 4, 1] for i in range(64)]
    return explored(pid, "BufferTrace", {}, "buffers", ["buffers"], ["buffer", "srv_config", "cluster_config", "snapshot", "snapshot_sync_req"], jobs, "buffers",
                    flags=["-fsanitize=address"], assumptions=["strings hold no NUL", "a string that is read back is not empty"])


CHECKS["C25"] = {"technique": EX_T % ("Stop", "; StopMC model checks the handshake of the destructor with the background thread"), "level": "model_checking",
                 "note": EX_N + "all schedules with two preemptions and one spurious wake-up of short lives of a server, random ones of longer lives, and the real asio_service stopped with timers, calls, sessions and loggers in flight."}


def stopping(pid):
    q = TIER == "quick"
    jobs = [["dfs", i, 1, 12 if q else 120] for i in range(12)]
    jobs += [["random", SEED * 1000 + i, 1000000, 10 if q else 100] for i in range(8 if q else 24)]
    svc = [["{dir}", SEED * 1000 + i, 1000000, 10 if q else 100] for i in range(16 if q else 48)]
    return explored(pid, "StopTrace", {}, "stopsrv", ["stopsrv", "tsanpoints", "detsched"], ALL, jobs, "stop",
                    point_repo=[x for x in ALL if x.startswith("raft_server")], width=12,
                    more=[("stopsvc", ["stopsvc", "tsanpoints", "detsched"], ["asio_service", "buffer"], svc, ["asio_service"])],
                    model=lambda w, v: model_runs(w, v, "StopMC", {"Entries": 3 if q else 6, "Spurious": 2 if q else 4},
                                                  ["stop-lock", "notify", "commit-lock", "bg-flag", "ready-check", "recheck", "wait-bg"], "Contract", deadlock=False),
                    assumptions=["no other thread uses the server while it is destroyed", "stop() is not called by a worker of the service",
                                 "the workers end once listeners are stopped, clients released and timers over"])


CHECKS["C29"] = {"technique": EX_T % ("Serial", ", against the outcomes of the same calls made one after the other; SerialMC model checks the locking of a server"), "level": "model_checking",
                 "note": EX_N + "two calls at once with all schedules of one or two preemptions, two or three calls with random schedules: requests of other servers, client and membership requests, timers, answers, finished snapshots, on followers, candidates and leaders."}


def concurrent(pid):
    q = TIER == "quick"
    jobs = [["dfs", SEED * 1000 + i, 1000000, 16 if q else 150] for i in range(8)]
    jobs += [["dfs", SEED * 1000 + 100 + i, 1000000, 16 if q else 150, 2] for i in range(4 if q else 16)]
    jobs += [["random", SEED * 1000 + 500 + i, 1000000, 16 if q else 150] for i in range(12 if q else 32)]
    return explored(pid, "SerialTrace", {}, "concsrv", ["concsrv", "tsanpoints", "detsched"], ALL, jobs, "concurrent calls",
                    point_repo=[x for x in ALL if x.startswith("raft_server")], width=12,
                    model=lambda w, v: model_runs(w, v, "SerialMC", {"Threads": "{1, 2, 3}" if q else "{1, 2, 3, 4}"},
                                                  ["req-lock", "timer-lock", "resp-lock", "client-lock", "release", "durable"], "Contract", deadlock=False),
                    assumptions=["other servers follow the protocol: one leader per term, committed entries are not replaced",
                                 "a timer that is cancelled while it fires may or may not fire"])


RUN.update({"C29": concurrent, "C25": stopping, "C27": buffers, "C23": timers, "C24": rpc, "C26": loggers})


def check(pid):
    return RUN[pid](pid)

"""Driver of the Python simulation: run.py check PROPERTY | replay FILE | case PROPERTY SEED INDEX | logs PROPERTY SEED FROM TO"""
import copy
import json
import os
import select
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases
import world

BUDGET = {"C09": (3500, 300000), "C11": (3500, 300000), "C12": (3500, 300000), "C15": (3200, 300000), "C17": (4500, 300000)}
WALL = {"quick": 120, "thorough": 720}
WORKERS = 8
now = time.monotonic


def digest(r):
    return json.dumps(r, sort_keys=True)


def key(p, r):
    return hash(digest([r.get("ops"), r.get("hash")]))


def worker(fd, prop, seed, k, n, count, wall):
    t0 = now()
    c = cases.Ctx()
    s = dict(cases=0, nontrivial=0, distinct=[], twice=0, twice_bad=0, stats={}, samples=[], cut=False)
    seen = set()

    def send(x):
        b = (json.dumps(x) + "\n").encode()
        while b:
            b = b[os.write(fd, b):]

    i = k
    while i < count:
        if now() - t0 > wall:
            s["cut"] = True
            break
        p, (v, r, nt) = cases.case(prop, seed, i, c)
        s["cases"] += 1
        if (i // n) % 25 == 3 and v is None:
            s["twice"] += 1
            again = c.run(p)
            if digest(again) != digest(r):
                s["twice_bad"] += 1
                print("note: case %d of %s did not repeat exactly" % (i, prop), file=sys.stderr, flush=True)
        c.add("mode " + p["mode"])
        for a, b in (("nswitch", "context switches"), ("steps", "steps (trace events)"), ("inner", "steps in the code under test"),
                     ("gil", "interpreter lock hand-over points"), ("clock", "clock reads"), ("clock_s", "simulated seconds")):
            s["stats"][b] = s["stats"].get(b, 0) + r.get(a, 0)
        for ops in p["tasks"]:
            for o in ops:
                c.add("operations: " + o["op"])
        if p["env"]["out"] != "null":
            c.add("runs with a failing standard output (%s)" % p["env"]["out"])
        for d in p["data"]:
            if d.get("flaw"):
                c.add("data with a flaw: " + d["flaw"])
        if nt:
            h = key(p, r)
            if h not in seen:
                seen.add(h)
                s["nontrivial"] += 1
                s["distinct"].append(h)
        if v is not None:
            send(dict(viol=dict(property=prop, cls=v.cls, message=v.msg, seed=seed, index=i, plan=p, switches=r.get("switches", []))))
        elif nt and len(s["samples"]) < 1:
            s["samples"].append(dict(index=i, mode=p["mode"], plan=p, operations=[
                [{a: b for a, b in (o or {}).items() if a in ("start", "end", "kind", "type", "fired", "where", "n", "k", "size", "fault")} for o in ops]
                for ops in r["ops"]]))
        i += n
    s["counters"], s["runs"] = c.count, c.runs
    send(dict(summary=s))


def spawn(args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            worker(w, *args)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return pid, r


def known(prop):
    v = []
    for l in open(world.VERIF + "/known-findings.txt"):
        if l.startswith("known: property=%s " % prop):
            a = l.split("class=", 1)[1]
            c, t = a.split(" contains=", 1)
            v.append((c.strip(), t.strip()))
    return v


def check(prop):
    t0 = now()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    count = int(os.environ.get("SIM_CASES") or BUDGET[prop][tier == "thorough"])
    wall = int(os.environ.get("SIM_WALL") or WALL[tier])
    workers = int(os.environ.get("SIM_WORKERS") or WORKERS)
    every = bool(os.environ.get("SIM_ALL"))
    print("%s: seed %d tier %s cases %d" % (prop, seed, tier, count), flush=True)
    kids = [spawn((prop, seed, k, workers, count, wall)) for k in range(workers)]
    bufs = {r: b"" for _, r in kids}
    viols, sums, hits = [], [], {}
    stop = None
    kn = known(prop)
    while bufs:
        ok, _, _ = select.select(list(bufs), [], [], 0.5)
        for r in ok:
            b = os.read(r, 1 << 20)
            if not b:
                del bufs[r]
                continue
            bufs[r] += b
            *ls, bufs[r] = bufs[r].split(b"\n")
            for l in ls:
                m = json.loads(l)
                if "summary" in m:
                    sums.append(m["summary"])
                    continue
                v = m["viol"]
                f = [x for x in kn if x[0] == v["cls"] and x[1] in v["message"]]
                if f:
                    hits[f[0]] = v["message"]
                    continue
                if every:
                    print("case %d: %s %s" % (v["index"], v["cls"], v["message"]), flush=True)
                viols.append(v)
                if stop is None and not every:
                    stop = now()
        if stop is not None and now() - stop > 2:
            break
    bad = False
    for pid, _ in kids:
        if stop is not None:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
        bad |= stop is None and st != 0
    if bad or (stop is None and len(sums) != workers):
        print("a worker failed", file=sys.stderr)
        return 70
    for (a, b), m in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s %s: %s" % (prop, a, b, m))
    code = 0
    if viols:
        viols.sort(key=lambda v: v["index"])
        v = minimise(viols[0])
        os.makedirs(world.VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s-%d-%d.json" % (world.VERIF, prop, seed, v["index"])
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("%s: %s" % (v["cls"], v["message"]))
        print("minimised: %s" % v["minimiser"])
        print("replay with: bash %s/tools/replay.sh %s" % (world.VERIF, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    evidence(prop, tier, seed, sums, len(viols), now() - t0)
    tot = sum(s["cases"] for s in sums)
    print("%s: %d cases, %d simulated runs, %.1f s%s" % (prop, tot, sum(s["runs"] for s in sums), now() - t0,
          " (stopped by the clock)" if any(s["cut"] for s in sums) else ""))
    bad = sum(s["twice_bad"] for s in sums)
    if bad:
        print("%s: %d repeated runs differed" % (prop, bad))
    return code


RULE = {
    "C17": "A case is one or two threads whose fits, predictions and copies are interrupted at seeded steps by handlers (as signal handlers or finalisers) that themselves fit, predict or copy the same or other estimators and return. Every outcome is compared with the same call alone in a fresh interpreter, every estimator with the completed fits the history allows. Non-trivial: at least one handler ran, and the run is distinct.",
    "C15": "A case is a set of 2 to 4 threads fitting, predicting and reading shared and own estimators, some of which fork the process at whatever point the seeded scheduler has brought the other threads to; the child fits, predicts and sends its estimator back. Non-trivial: at least one process was forked after at least one context switch, and the run is distinct.",
    "C12": "A case is a history of fits, saves, loads, copies, predictions and settings over one to four successive processes that share a simulated disk and nothing else, with crashes and exceptions delivered at planned trace events, crashes in the middle of a write and full disks. Non-trivial: something was restored or a fault was delivered, and the run is distinct.",
    "C09": "A case is a history of fits, predictions, clones, settings, in-place modifications and rebuilt data of up to three estimators in one interpreter, with exceptions delivered at planned trace events and flawed data and settings. Non-trivial: at least one exception was delivered or one fit failed, and the run is distinct.",
    "C11": "A case is a set of 2 to 4 threads fitting, predicting and reading shared and own estimators on shared arrays under a seeded scheduler. Non-trivial: more context switches than threads, and the run is distinct.",
}


def is_fault(k):
    return any(w in k for w in ("delivered", "handlers that ran", "flaw", "failing", "failed", "torn", "restarts after"))


def evidence(prop, tier, seed, sums, nviol, wall):
    cnt, st, dist = {}, {}, set()
    for s in sums:
        for k, v in s["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in s["stats"].items():
            st[k] = st.get(k, 0) + v
        dist |= set(s["distinct"])
    n = sum(s["cases"] for s in sums)
    runs = sum(s["runs"] for s in sums)
    e = dict(
        property=prop, tier=tier, seed=seed, level="exploration", wall_s=wall, violations=nviol,
        assumptions=[
            "threads switch and exceptions arrive between Python trace events (opcodes of the package, lines of other modules) and where the extension gives up the interpreter lock; native code in between is atomic",
            "a clean batch is evidence over the sampled schedules and faults, not a proof",
        ],
        coverage={
            "evaluations": n,
            "distinct_nontrivial": len(dist),
            "rule": RULE[prop],
            "samples": sum((s["samples"] for s in sums), [])[:3],
            "simulated runs (one process each)": runs,
            "simulated runs per hour": int(runs / wall * 3600),
            "seeds (cases) per hour": int(n / wall * 3600),
            "runs repeated to check determinism": sum(s["twice"] for s in sums),
            "repeated runs that differed": sum(s["twice_bad"] for s in sums),
            "schedule and time": st,
            "faults injected": {k: v for k, v in sorted(cnt.items()) if is_fault(k)},
            "counters": {k: v for k, v in sorted(cnt.items()) if not is_fault(k)},
            "stopped by the clock": any(s["cut"] for s in sums),
            "real code": "the sparseglm Python package and its extension module, compiled from /repo's working tree, sparseglm, numpy, scipy, scikit-learn, the interpreter",
            "stubs": "time.time, time.monotonic, time.perf_counter, the standard output, garbage collection, threading.Lock and threading.RLock made by the package, the order of threads",
        },
    )
    os.makedirs(world.VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (world.VERIF, prop), "w") as f:
        json.dump(e, f, indent=1, sort_keys=True)


# ------------------------------------------------------------------ minimiser
def attempt(p, cls, c):
    try:
        v, r, _ = cases.evaluate(p, c)
    except Exception:
        return None
    return (v, r) if v is not None and v.cls == cls else None


def minimise(v, wall=60):
    t0 = now()
    c = cases.Ctx()
    p = copy.deepcopy(v["plan"])
    tried = 0
    if len(p["tasks"]) > 1:
        q = copy.deepcopy(p)
        q["sched"] = dict(kind="planned", seed=0, switches=v["switches"], first=p["sched"].get("first", 0))
        if attempt(q, v["cls"], c):
            p = q

    def tries(q):
        nonlocal p, tried
        if now() - t0 > wall:
            return False
        tried += 1
        if attempt(q, v["cls"], c):
            p = q
            return True
        return False

    again = True
    while again and now() - t0 < wall:
        again = False
        # operations
        for t in range(len(p["tasks"])):
            i = len(p["tasks"][t]) - 1
            while i >= 0:
                q = copy.deepcopy(p)
                del q["tasks"][t][i]
                if any(q["tasks"]):
                    again |= tries(q)
                i -= 1
        # faults
        for t in range(len(p["tasks"])):
            for i in range(len(p["tasks"][t])):
                for f in ("cut", "room"):
                    if f in p["tasks"][t][i]:
                        q = copy.deepcopy(p)
                        del q["tasks"][t][i][f]
                        again |= tries(q)
        for t in range(len(p["tasks"])):
            for i in range(len(p["tasks"][t])):
                for h in reversed(range(len(p["tasks"][t][i].get("handlers", ())))):
                    q = copy.deepcopy(p)
                    del q["tasks"][t][i]["handlers"][h]
                    again |= tries(q)
        # context switches
        if p["sched"]["kind"] == "planned":
            m = len(p["sched"].get("switches", []))
            step = max(m // 2, 1)
            while step >= 1:
                i = 0
                while i < len(p["sched"].get("switches", [])):
                    q = copy.deepcopy(p)
                    del q["sched"]["switches"][i:i + step]
                    if tries(q):
                        again = True
                    else:
                        i += step
                step //= 2
        # surroundings
        for k, x in (("out", "null"), ("envvar", ""), ("clock", dict(t0=1e9, tick=1e-3)), ("npseed", 1)):
            if p["env"][k] != x:
                q = copy.deepcopy(p)
                q["env"][k] = x
                again |= tries(q)
        # data
        for i, d in enumerate(p["data"]):
            for k, x in (("n", 3), ("n", 6), ("p", 1), ("p", 2), ("p", 4), ("t", 1), ("t", 2), ("form", "F"), ("density", 1.0), ("corr", 0), ("flaw", None)):
                if d.get(k) != x and not (k in "npt" and d[k] < x):
                    q = copy.deepcopy(p)
                    if x is None:
                        del q["data"][i][k]
                    else:
                        q["data"][i][k] = x
                    if tries(q):
                        again = True
                        d = p["data"][i]
    e, r, _ = cases.evaluate(p, c)
    if e is None:
        p = v["plan"]
        e, r, _ = cases.evaluate(p, c)
    v = dict(v)
    v["plan"] = p
    if e is not None:
        v["cls"], v["message"] = e.cls, e.msg
    v["hash"] = r.get("hash")
    v["trace"] = r.get("switches")
    v["minimiser"] = "%d runs, %d operations in %d tasks, %d planned switches left" % (
        tried, sum(len(t) for t in p["tasks"]), len(p["tasks"]), len(p["sched"].get("switches", [])))
    return v


def replay(path):
    v = json.load(open(path))
    c = cases.Ctx()
    e, r, _ = cases.evaluate(v["plan"], c)
    for t, ops in enumerate(v["plan"]["tasks"]):
        for i, op in enumerate(ops):
            o = (r.get("ops") or [[{}] * len(x) for x in v["plan"]["tasks"]])[t][i] or {}
            print("  task %d op %d: %s -> %s" % (t, i, json.dumps(op), {a: b for a, b in o.items() if a in ("start", "end", "kind", "type", "msg", "fired", "where")}))
    print("schedule hash %s, recorded %s" % (r.get("hash"), v.get("hash")))
    if e is None:
        print("no violation: the recorded one was %s: %s" % (v["cls"], v["message"]))
        return 0
    print("%s: %s" % (e.cls, e.msg))
    print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1


def main(a):
    world.fix_addresses()
    world.load()
    if a[0] == "check":
        return check(a[1])
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "case":
        c = cases.Ctx()
        p, (v, r, nt) = cases.case(a[1], int(a[2]), int(a[3]), c)
        print(json.dumps(p, indent=1))
        for t, ops in enumerate(r.get("ops", [])):
            for i, o in enumerate(ops):
                print(t, i, {x: y for x, y in (o or {}).items() if x not in ("snap",)})
        print(v and (v.cls, v.msg), nt, r.get("abort"), r.get("died"), r.get("nswitch"))
        return 0
    if a[0] == "logs":
        c = cases.Ctx()
        import hashlib
        for i in range(int(a[3]), int(a[4])):
            p, (v, r, nt) = cases.case(a[1], int(a[2]), i, c)
            print(i, hashlib.sha256(digest(r).encode()).hexdigest(), r.get("hash"))
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

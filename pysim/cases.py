"""Seeded plans and the oracles over their recorded histories."""
import copy
import hashlib
import json
import random
import re

import world

SINGLE = ["Lasso", "MCPRegressor", "ElasticNet"]
MULTI = list(world.MULTI)
FORMS = ["C", "F", "csc", "csr", "csc_array", "strided", "list", "readonly", "int", "csc-loose", "csr-loose"]
FLAWS = ["nan", "y-nan", "short-y", "f32", "x-1d", "text", "y-swap", "index64", "empty", "none", "y-col"]
DEFAULTS = dict(max_iter=50, max_epochs=1000, tol=1e-9, p0=10, use_accel=True, K=5, verbose=True)
NAMES = {
    "Lasso": [], "MultiTaskLasso": [], "MCPRegressor": ["gamma"], "BlockMCPRegressor": ["gamma"],
    "ElasticNet": ["l1_ratio"], "MultiTaskElasticNet": ["l1_ratio"],
}


def rng(prop, seed, index):
    h = hashlib.sha256(("%s/%d/%d" % (prop, seed, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))


def g_data(r, flaw=0.0):
    big = r.random() < 0.15
    d = dict(
        seed=r.randrange(1 << 31),
        n=r.choice([3, 6, 12, 25, 40]) if not big else 60,
        p=r.choice([1, 2, 4, 7, 12, 16]) if not big else 40,
        t=r.choice([1, 2, 3, 5]),
        form=r.choice(FORMS),
        density=r.choice([1.0, 1.0, 0.5, 0.2]),
        corr=r.choice([0, 0, 0.6]),
    )
    if r.random() < flaw:
        d["flaw"] = r.choice(FLAWS)
    return d


def g_params(r, cls):
    p = dict(alpha=r.choice([0.003, 0.02, 0.1, 0.3, 1.0, 1.5, 4.0, 3.0 * r.random()]))
    for x in NAMES[cls]:
        p[x] = r.choice([1.5, 3.0, 20.0, 1.01 + 60 * r.random()]) if x == "gamma" else r.choice([0.0, 0.3, 0.8, 1.0, r.random()])
    p["max_iter"] = r.choice([1, 3, 12, 50, r.randrange(1, 130)])
    p["max_epochs"] = r.choice([1, 8, 60, 300, r.randrange(1, 1200)])
    p["tol"] = r.choice([1e-3, 1e-6, 1e-9, 10 ** -(14 * r.random())])
    p["p0"] = r.choice([1, 2, 5, 10, 30, r.randrange(1, 5000)])
    p["use_accel"] = r.random() < 0.7
    p["K"] = r.choice([2, 3, 5, 5, r.randrange(1, 16)])
    p["verbose"] = r.random() < 0.3
    return p


def g_set(r, cls):
    """Another setting: valid or not."""
    k = r.random()
    if k < 0.75:
        p = g_params(r, cls)
        ks = r.sample(sorted(p), r.randrange(1, 4))
        return {x: p[x] for x in ks}
    return r.choice([
        {"K": 0}, {"K": -1}, {"tol": "x"}, {"tol": -1.0}, {"max_iter": 0}, {"max_epochs": 0}, {"p0": 0},
        {"p0": 2.5}, {"alpha": -1.0}, {"alpha": "a"}, {"no_such": 1}, {"use_accel": 3}, {"max_iter": -3},
        {"gamma": 0.5} if "gamma" in NAMES[cls] else {"l1_ratio": 7.0} if NAMES[cls] else {"verbose": None},
    ])


def g_est(r, cls=None):
    cls = cls or r.choice(SINGLE + MULTI)
    return dict(cls=cls, params=g_params(r, cls))


def g_env(r):
    return dict(
        clock=dict(t0=r.choice([0.0, 1.7e9, -5.0]), tick=r.choice([0.0, 1e-4, 3600.0]),
                   jumps=[[r.randrange(1, 20), r.choice([-1e6, 1e6])]]),
        npseed=r.randrange(1 << 31),
        envvar=r.choice(["", "1", "C", "debug"]),
        out=r.choice(["null", "null", "full", "pipe"]),
    )


def blank(prop, seed, index):
    return dict(
        prop=prop, seed=seed, index=index, mode="", snap=True,
        env=dict(clock=dict(t0=1e9, tick=1e-3), npseed=1, envvar="", out="null"),
        data=[], ests=[], tasks=[[]], sched=dict(kind="planned", seed=0, switches=[]),
    )


def gen_c09(r, p, solo):
    p["env"] = g_env(r)
    nd, ne = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    p["data"] = [g_data(r, 0.25) for _ in range(nd)]
    p["data"][0].pop("flaw", None)
    p["ests"] = [g_est(r) for _ in range(ne)]
    cur = [copy.deepcopy(e) for e in p["ests"]]
    now = [copy.deepcopy(d) for d in p["data"]]
    n = r.choice([3, 5, 8, 12, 20])
    ops = p["tasks"][0]
    hot = r.random() < 0.5
    for _ in range(n):
        x = r.random()
        e, d = r.randrange(ne), r.randrange(nd)
        if x < 0.62:
            o = dict(op="fit", est=e, data=d)
            if r.random() < (0.6 if hot else 0.35):
                s = solo(cur[e], now[d], "fit")
                ours = r.random() < 0.6
                m = s.get("k" if ours else "n", 0)
                if m:
                    # the end of a fit, where its result is stored, is as likely as the rest
                    at = m - r.randrange(0, min(m, 30)) if r.random() < 0.4 else r.randrange(1, m + 1)
                    exc = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "TimeoutError", "RuntimeError"])
                    o["cut"] = dict(at=at, ours=ours, exc=exc)
            ops.append(o)
        elif x < 0.74:
            o = dict(op="predict", est=e, data=d)
            if r.random() < 0.2:
                o["cut"] = dict(at=r.randrange(1, 14), ours=True, exc="KeyboardInterrupt")
            ops.append(o)
        elif x < 0.79:
            ops.append(dict(op="clone", est=e, dst=r.randrange(ne)))
            o = ops[-1]
            if solo(cur[e], now[0], "clone")["kind"] == "ok":
                cur[o["dst"]] = copy.deepcopy(cur[e])
        elif x < 0.86:
            s = g_set(r, cur[e]["cls"])
            ops.append(dict(op="set", est=e, params=s))
            if set(s) <= set(cur[e]["params"]):
                cur[e]["params"].update(s)
        elif x < 0.89:
            c = g_est(r)
            ops.append(dict(op="new", est=e, **c))
            cur[e] = copy.deepcopy(c)
        elif x < 0.94:
            if r.random() < 0.5:
                # two numbers change places
                s = dict(now[d], pokes=now[d].get("pokes", []) + [[r.choice("XY"), r.randrange(1 << 20), r.randrange(1 << 20)]])
            else:
                s = dict(now[d], seed=r.randrange(1 << 31))
            ops.append(dict(op="mutate", data=d, spec=s))
            if now[d]["form"] != "readonly" and now[d].get("density", 1.0) == 1.0:
                now[d] = s
        elif x < 0.97:
            s = g_data(r, 0.2)
            ops.append(dict(op="rebuild", data=d, spec=s))
            now[d] = s
        else:
            ops.append(dict(op=r.choice(["gc", "churn"])))
    p["mode"] = "interrupts" if hot else "mixed"


def gen_c11(r, p, solo):
    p["env"] = g_env(r)
    p["snap"] = False
    nt = r.choice([2, 2, 2, 3, 4])
    shape = r.choice(["shared-estimator", "shared-estimator", "own-estimators", "mixed"])
    p["data"] = [g_data(r) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.6:
        # same shape everywhere: a mixture of two fits goes unnoticed by shape checks
        for d in p["data"][1:]:
            for k in ("n", "p", "t"):
                d[k] = p["data"][0][k]
    multi = r.random() < 0.4
    pick = MULTI if multi else SINGLE
    one = r.choice(pick)
    ns = 1 if shape == "shared-estimator" else 0 if shape == "own-estimators" else r.choice([1, 2])
    p["ests"] = [g_est(r, r.choice([one, r.choice(SINGLE + MULTI)])) for _ in range(ns)]
    own = []
    for t in range(nt):
        own.append(len(p["ests"]))
        e = g_est(r, one if r.random() < 0.6 else None)
        if p["ests"] and r.random() < 0.4:
            e = copy.deepcopy(p["ests"][0])
        p["ests"].append(e)
    p["tasks"] = [[] for _ in range(nt)]
    for t in range(nt):
        for _ in range(r.choice([1, 2, 3, 5])):
            if shape == "shared-estimator":
                e = 0
            elif shape == "own-estimators":
                e = own[t]
            else:
                e = r.choice(list(range(ns)) + [own[t]])
            d = r.randrange(len(p["data"]))
            x = r.random()
            if x < 0.6 or not p["tasks"][t]:
                o = dict(op="fit", est=e, data=d)
                if r.random() < 0.08:
                    o["cut"] = dict(at=r.randrange(1, 160), ours=True, exc="KeyboardInterrupt")
            elif x < 0.8:
                o = dict(op="predict", est=e, data=d)
            elif x < 0.97:
                o = dict(op="read", est=e) if r.random() < 0.75 else dict(op="copy", est=e)
            else:
                o = dict(op=r.choice(["gc", "churn"]))
            p["tasks"][t].append(o)
    k = r.random()
    kind = "pct" if k < 0.25 else "uniform"
    prob = r.choice([0.5, 0.2, 0.08, 0.03, 0.01])
    far = r.choice([0.0, 0.0, 0.002, 0.02])
    p["sched"] = dict(kind=kind, seed=r.randrange(1 << 40), prob=prob, far=far, first=r.randrange(nt))
    p["mode"] = "%s/%s" % (shape, kind)


def gen_c15(r, p, solo):
    gen_c11(r, p, solo)
    # the process forks while the other threads are anywhere in the package's code
    p["sched"]["far"] = 0.0
    at = [(t, i) for t, ops in enumerate(p["tasks"]) for i, o in enumerate(ops) if o["op"] in ("fit", "predict", "copy") and "cut" not in o]
    r.shuffle(at)
    for t, i in at[:r.choice([1, 1, 2, 3])]:
        o = p["tasks"][t][i]
        p["tasks"][t][i] = dict(op="fork", est=o["est"], data=o.get("data", 0), fit=r.random() < 0.85)
    if not any(o["op"] == "fork" for ops in p["tasks"] for o in ops):
        p["tasks"][0].append(dict(op="fork", est=0, data=0, fit=True))
    if r.random() < 0.5:
        # a thread whose last act is a fork
        t = r.randrange(len(p["tasks"]))
        o = r.choice(p["tasks"][t])
        p["tasks"][t].append(dict(op="fork", est=o.get("est", 0), data=o.get("data", 0), fit=True))


def gen_c17(r, p, solo):
    gen_c11(r, p, solo)
    nt = 1 if r.random() < 0.75 else 2
    p["tasks"] = p["tasks"][:nt]
    p["sched"]["far"] = 0.0
    p["sched"]["first"] = 0
    p["mode"] = "handlers %d" % nt
    if nt == 1:
        p["sched"]["kind"] = "uniform"
        # more of them: histories in one thread
        e = p["tasks"][0]
        for o in list(e):
            if r.random() < 0.5:
                e.append(copy.deepcopy(o))
    ne, nd = len(p["ests"]), len(p["data"])
    for ops in p["tasks"]:
        for o in ops:
            if o["op"] not in ("fit", "predict", "copy"):
                continue
            m = 14 if o["op"] == "predict" else 60
            if o["op"] == "fit":
                m = solo(p["ests"][o["est"]], p["data"][o["data"]], "fit").get("k", 60) or 60
            o["handlers"] = []
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                # the end, where results are stored, is as likely as the rest
                at = m - r.randrange(0, min(m, 30)) if r.random() < 0.4 else r.randrange(1, m + 1)
                x = r.random()
                o["handlers"].append(dict(
                    at=at, op="fit" if x < 0.6 else "predict" if x < 0.85 else "copy",
                    est=o["est"] if r.random() < 0.5 else r.randrange(ne),
                    data=o.get("data", 0) if r.random() < 0.4 else r.randrange(nd)))


def gen_c12(r, p, solo):
    p["env"] = g_env(r)
    nd, ne, nf = r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([1, 1, 2, 3])
    p["data"] = [g_data(r, 0.05) for _ in range(nd)]
    p["data"][0].pop("flaw", None)
    one = r.choice(SINGLE + MULTI)
    p["ests"] = [g_est(r, one if r.random() < 0.6 else None) for _ in range(ne)]
    ops = p["tasks"][0]
    names = ["m%d.%s" % (i, r.choice(["pkl", "pkl", "joblib"])) for i in range(nf)]

    def fault(o, k, kinds):
        o["cut"] = dict(at=r.randrange(1, k + 1), ours=r.random() < 0.5, exc=r.choice(kinds))

    for life in range(r.choice([1, 2, 2, 3, 4])):
        if life:
            ops.append(dict(op="restart"))
        cur = [copy.deepcopy(e) for e in p["ests"]]
        for _ in range(r.choice([2, 4, 6, 9])):
            x = r.random()
            e, d = r.randrange(ne), r.randrange(nd)
            if x < 0.30:
                o = dict(op="fit", est=e, data=d)
                if r.random() < 0.3:
                    s = solo(cur[e], p["data"][d], "fit")
                    ours = r.random() < 0.6
                    m = s.get("k" if ours else "n", 0)
                    if m:
                        at = m - r.randrange(0, min(m, 30)) if r.random() < 0.4 else r.randrange(1, m + 1)
                        o["cut"] = dict(at=at, ours=ours, exc=r.choice(["crash", "crash", "KeyboardInterrupt", "RuntimeError"]))
            elif x < 0.52:
                n = r.choice(names)
                how = "joblib" if n.endswith("joblib") else r.choice([2, 4, 5])
                o = dict(op="save", est=e, name=n, how=how)
                y = r.random()
                if y < 0.12:
                    o["room"], o["full"] = r.choice([0, 10, 100, 250, 400, 700]), r.random() < 0.5
                elif y < 0.22:
                    fault(o, 40 if how != "joblib" else 400, ["crash", "KeyboardInterrupt", "MemoryError"])
            elif x < 0.76:
                o = dict(op="load", est=e, name=r.choice(names))
                if r.random() < 0.08:
                    fault(o, 40, ["crash", "KeyboardInterrupt"])
            elif x < 0.84:
                o = dict(op="copy", est=e, dst=r.randrange(ne))
                if r.random() < 0.1:
                    fault(o, 150, ["crash", "KeyboardInterrupt"])
            elif x < 0.92:
                o = dict(op="predict", est=e, data=d)
            elif x < 0.95:
                c = g_est(r)
                o = dict(op="new", est=e, **c)
                cur[e] = copy.deepcopy(c)
            elif x < 0.98:
                # valid or not: what is set is what is saved
                x = g_set(r, cur[e]["cls"])
                o = dict(op="set", est=e, params={k: v for k, v in x.items() if k in g_params(r, "Lasso")})
            else:
                o = dict(op=r.choice(["gc", "churn"]))
            ops.append(o)
            # what is restored, copied or refitted is used
            if o["op"] in ("load", "copy", "fit") and r.random() < 0.4:
                d = o.get("data", d) if r.random() < 0.7 else r.randrange(nd)
                ops.append(dict(op=r.choice(["predict", "predict", "fit"]) if o["op"] != "fit" else "predict", est=o.get("dst", e), data=d))
    p["mode"] = "lives %d" % (1 + sum(o["op"] == "restart" for o in ops))


# ------------------------------------------------------------------ oracle
class Viol(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Ctx:
    def __init__(self):
        self.memo = {}
        self.bits = {}
        self.count = {}
        self.runs = 0

    def add(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def once(self, plan):
        self.runs += 1
        r = world.fork_run(plan)
        if "harness" in r:
            raise RuntimeError(r["harness"])
        return r

    def run(self, plan):
        """One process, or one after the other where the plan says restart; only the disk survives."""
        if plan["prop"] != "C12":
            return self.once(plan)
        ops = plan["tasks"][0]
        at = [i for i, o in enumerate(ops) if o["op"] == "restart"]
        disk, whole = {}, None
        for life, (a, b) in enumerate(zip([0] + [i + 1 for i in at], at + [len(ops)])):
            q = dict(plan, disk=disk, tasks=[ops[a:b]])
            r = self.once(q)
            if r.get("died") or r["abort"]:
                return r
            disk = r["disk"]
            got = r["ops"][0] + ([{"kind": "restart", "first": None}] if b < len(ops) else [])
            if r.get("crashed"):
                i = r["crashed"][1]
                got[i] = {"kind": "crash"}
            if whole is None:
                whole = dict(r, ops=[got], lives=1, firsts=[r["first"]])
            else:
                whole["ops"][0] += got
                whole["lives"] += 1
                whole["firsts"].append(r["first"])
                for k in ("steps", "inner", "nswitch", "gil", "clock", "clock_s"):
                    whole[k] += r[k]
                whole["hash"] = (whole["hash"] * 31 + r["hash"]) & ((1 << 61) - 1)
        whole["disk"] = disk
        return whole

    def solo(self, e, d, op):
        """The same call alone in a fresh process."""
        key = json.dumps([e, d, op], sort_keys=True)
        if key in self.memo:
            return self.memo[key]
        p = blank("solo", 0, 0)
        p["data"] = [d]
        # constructed valid, then set: an invalid setting must reach the fit
        base = dict(e["params"])
        ctor = g_params(random.Random(1), e["cls"])
        p["ests"] = [dict(cls=e["cls"], params=ctor), None]
        p["tasks"] = [[dict(op="set", est=0, params=base)]]
        p["tasks"][0].append(dict(op="clone", est=0, dst=1) if op == "clone" else dict(op=op, est=0, data=0))
        r = self.run(p)
        if r.get("died") or r["abort"]:
            o = {"kind": "died", "msg": r.get("died") or r["abort"], "coef": None}
        else:
            o = dict(r["ops"][0][1])
            s = o.pop("snap")
            o["coef"] = s["est"][0]["coef"]
        if len(self.memo) > 4000:
            self.memo.clear()
        self.memo[key] = o
        return o

    def data_bits(self, d):
        key = json.dumps(d, sort_keys=True)
        if key not in self.bits:
            if len(self.bits) > 500:
                self.bits.clear()
            o = world.build(d)
            self.bits[key] = json.loads(json.dumps([world.bits(o.X), world.bits(o.y), world.bits(o.Y)]))
        return self.bits[key]


def show(c):
    if c is None:
        return "none"
    if c[0] == "not an array":
        return c[1]
    a = world.coef_array(c)
    return "%s %s" % (list(a.shape), [float("%.6g" % x) for x in a.ravel()[:6]])


def text(m):
    """A message without the contents of arrays it shows."""
    return m and re.sub(r"(?s)array=.*?(?=\nReshape|$)", "array", m)


def disturbed(r):
    """Whether an exception was delivered inside another library, whose own state may suffer: numpy,
    interrupted while it prints an array, later prints it as dots."""
    return any(o and o.get("fired") and not (o.get("where") or "estimators.py").startswith("estimators.py") for ops in r["ops"] for o in ops)


def same_outcome(o, s, what, loose=False):
    if s["kind"] == "died":
        raise Viol("died", "%s, alone in a fresh interpreter: %s" % (what, s["msg"]))
    a = (o["kind"], o.get("type"), o.get("msg"))
    b = (s["kind"], s.get("type"), s.get("msg"))
    if a[:2] != b[:2] or not loose and text(a[2]) != text(b[2]):
        raise Viol("outcome", "%s ended in %s, alone in a fresh interpreter in %s" % (what, a, b))


def check_predict(o, coef, d, what):
    """coef: bits of the coefficients it must use, or None. True when the outcome fits."""
    X = world.build(d).X
    if coef is None:
        return o["kind"] == "exc"
    np = world.np
    try:
        v = np.asarray(X @ world.coef_array(coef).T)
    except Exception:
        return o["kind"] == "exc"
    if o["kind"] != "ok":
        return False
    w = world.coef_array(o["value"])
    if w.shape != v.shape:
        return False
    if v.dtype.kind not in "fiu" or w.dtype.kind not in "fiu":
        return True
    v, w = v.astype(float), w.astype(float)
    fin = np.isfinite(v)
    if not (fin == np.isfinite(w)).all():
        return False
    scale = 1e-9 * (np.abs(v[fin]).max() if fin.any() else 1.0) + 1e-300
    return bool((np.abs(v - w)[fin] <= scale).all())


def copyable(model):
    return {k: repr(v) for k, v in sorted(model.items())}


def judge_c09(p, r, c):
    M = [dict(cls=e["cls"], params=dict(e["params"]), coef=None) for e in p["ests"]]
    D = [copy.deepcopy(d) for d in p["data"]]
    hit = False

    def whole(snap, what):
        for i, m in enumerate(M):
            s = snap["est"][i]
            if s is None:
                raise Viol("lost", "%s: estimator %d is gone" % (what, i))
            if s["params"] != copyable(m["params"]):
                raise Viol("params", "%s: hyper-parameters of estimator %d are %s, not %s" % (what, i, s["params"], copyable(m["params"])))
            if s["coef"] != m["coef"]:
                raise Viol("coef", "%s: coefficients of estimator %d (%s) are %s, those of its last completed fit are %s"
                           % (what, i, m["cls"], show(s["coef"]), show(m["coef"])))
        for i, d in enumerate(D):
            if snap["data"][i] != c.data_bits(d):
                raise Viol("input-changed", "%s: the caller's arrays %d (%s) were changed" % (what, i, d["form"]))

    whole(r["first"], "at the start")
    for i, op in enumerate(p["tasks"][0]):
        o = r["ops"][0][i]
        k = op["op"]
        what = "operation %d (%s)" % (i, k)
        if k == "fit":
            m, d = M[op["est"]], D[op["data"]]
            what = "operation %d (fit of %s on %dx%d %s data%s)" % (
                i, m["cls"], d["n"], d["p"], d["form"],
                ", %s at %s" % (o["fired"], o["where"]) if o.get("fired") else "")
            s = c.solo(dict(cls=m["cls"], params=m["params"]), d, "fit")
            if o.get("fired"):
                hit = True
                c.add("%s delivered in %s" % (o["fired"], o["where"].split(":")[0]))
                if s["kind"] == "died":
                    raise Viol("died", "%s, alone: %s" % (what, s["msg"]))
                got = o["snap"]["est"][op["est"]]["coef"] if o["snap"]["est"][op["est"]] else None
                if o["kind"] == "ok":
                    c.add("interrupts absorbed by the interrupted code")
                    if s["kind"] != "ok":
                        raise Viol("outcome", "%s succeeded, alone it fails with %s" % (what, s.get("type")))
                    if got != s["coef"]:
                        raise Viol("coef", "%s completed with coefficients %s, alone in a fresh interpreter %s" % (what, show(got), show(s["coef"])))
                # its result is complete or not there
                if s["kind"] == "ok" and got == s["coef"]:
                    m["coef"] = got
            else:
                same_outcome(o, s, what, disturbed(r))
                if o["kind"] == "ok":
                    if o.get("returned"):
                        raise Viol("outcome", "%s returned %s, not the estimator" % (what, o["returned"]))
                    got = o["snap"]["est"][op["est"]]["coef"] if o["snap"]["est"][op["est"]] else None
                    if got != s["coef"]:
                        raise Viol("coef", "%s gave coefficients %s, alone in a fresh interpreter %s" % (what, show(got), show(s["coef"])))
                    m["coef"] = s["coef"]
                else:
                    hit = True
                    c.add("fits that failed with " + o["type"])
        elif k == "predict":
            m, d = M[op["est"]], D[op["data"]]
            if o.get("fired"):
                hit = True
                c.add("%s delivered in predict" % o["fired"])
            elif not check_predict(o, m["coef"], d, what):
                raise Viol("predict", "%s with coefficients %s ended in %s %s" % (
                    what, show(m["coef"]), o["kind"], show(o["value"]) if o["kind"] == "ok" else (o.get("type"), o.get("msg"))))
        elif k == "clone":
            m = M[op["est"]]
            s = c.solo(dict(cls=m["cls"], params=m["params"]), D[0], "clone")
            same_outcome(o, s, what, disturbed(r))
            if o["kind"] == "ok":
                M[op["dst"]] = dict(cls=m["cls"], params=dict(m["params"]), coef=None)
        elif k == "set":
            m = M[op["est"]]
            if set(op["params"]) <= set(m["params"]):
                if o["kind"] != "ok":
                    raise Viol("outcome", "%s failed: %s" % (what, o))
                m["params"].update(op["params"])
            elif o["kind"] == "ok":
                raise Viol("outcome", "%s accepted an unknown name" % what)
        elif k == "new":
            if o["kind"] != "ok":
                raise Viol("outcome", "%s of %s with %s failed: %s %s" % (what, op["cls"], op["params"], o.get("type"), o.get("msg")))
            M[op["est"]] = dict(cls=op["cls"], params=dict(op["params"]), coef=None)
        elif k == "mutate" and o["done"]:
            cur = D[op["data"]]
            new = dict(op["spec"], form=cur["form"])
            new.pop("flaw", None)
            if "flaw" in cur:
                new["flaw"] = cur["flaw"]
            D[op["data"]] = new
        elif k == "rebuild":
            D[op["data"]] = copy.deepcopy(op["spec"])
        whole(o["snap"], what)
    return hit


def judge_c12(p, r, c):
    M = D = None
    disk = {}
    hit = False
    life = 0

    def start():
        nonlocal M, D
        M = [dict(cls=e["cls"], params=dict(e["params"]), coef=None) for e in p["ests"]]
        D = [copy.deepcopy(d) for d in p["data"]]

    def whole(snap, what):
        for i, m in enumerate(M):
            s = snap["est"][i]
            if s is None:
                raise Viol("lost", "%s: estimator %d is gone" % (what, i))
            if s["params"] != copyable(m["params"]):
                raise Viol("params", "%s: hyper-parameters of estimator %d are %s, not %s" % (what, i, s["params"], copyable(m["params"])))
            if s["coef"] != m["coef"]:
                raise Viol("coef", "%s: coefficients of estimator %d (%s) are %s, not %s" % (what, i, m["cls"], show(s["coef"]), show(m["coef"])))
        for i, d in enumerate(D):
            if snap["data"][i] != c.data_bits(d):
                raise Viol("input-changed", "%s: the caller's arrays %d (%s) were changed" % (what, i, d["form"]))

    start()
    whole(r["firsts"][0], "at the start")
    dead = False
    for i, op in enumerate(p["tasks"][0]):
        o = r["ops"][0][i]
        k = op["op"]
        what = "operation %d (%s)" % (i, k)
        if k == "restart":
            life += 1
            start()
            whole(r["firsts"][life], "%s, in a new process" % what)
            c.add("restarts after a crash" if dead else "restarts")
            dead = False
            continue
        if dead:
            continue
        if k == "save":
            # what a complete save would hold; what is on the disk otherwise is a fragment of it
            m = M[op["est"]]
            disk[op["name"]] = dict(m=copy.deepcopy(m), torn=o["kind"] != "ok", how=op["how"])
        if o["kind"] == "crash":
            hit = True
            dead = True
            c.add("crashes delivered in " + k)
            continue
        if o.get("fired"):
            hit = True
            c.add("%s delivered in %s" % (o["fired"], k))
        if k == "fit":
            m, d = M[op["est"]], D[op["data"]]
            what = "operation %d (fit of %s on %dx%d %s data)" % (i, m["cls"], d["n"], d["p"], d["form"])
            s = c.solo(dict(cls=m["cls"], params=m["params"]), d, "fit")
            got = o["snap"]["est"][op["est"]]["coef"] if o["snap"]["est"][op["est"]] else None
            if o.get("fired"):
                if s["kind"] == "ok" and got == s["coef"]:
                    m["coef"] = got
            else:
                same_outcome(o, s, what, disturbed(r))
                if o["kind"] == "ok":
                    if got != s["coef"]:
                        raise Viol("coef", "%s gave coefficients %s, alone in a fresh interpreter %s" % (what, show(got), show(s["coef"])))
                    m["coef"] = got
        elif k == "save":
            if o.get("fault"):
                hit = True
                c.add("saves that failed with a full disk")
            elif o["kind"] != "ok" and not o.get("fired"):
                raise Viol("save", "%s of a %s %s with %s failed: %s %s" % (
                    what, "fitted" if m["coef"] else "new", m["cls"], op["how"], o["type"], o["msg"]))
            else:
                c.add("complete saves")
        elif k == "load" and o.get("done"):
            hit = True
            f = disk[op["name"]]
            if f["torn"]:
                c.add("loads of torn files")
            if o["kind"] == "ok":
                if o["cls"] != f["m"]["cls"]:
                    raise Viol("load", "%s gave a %s, saved was a %s" % (what, o["cls"], f["m"]["cls"]))
                M[op["est"]] = copy.deepcopy(f["m"])
                what += " of what was saved"
            elif not f["torn"] and not o.get("fired"):
                raise Viol("load", "%s of a complete save of %s failed: %s %s" % (what, f["m"]["cls"], o["type"], o["msg"]))
        elif k == "copy":
            m = M[op["est"]]
            if o["kind"] == "ok":
                M[op["dst"]] = copy.deepcopy(m)
                if o["cls"] != m["cls"]:
                    raise Viol("load", "%s of a %s gave a %s" % (what, m["cls"], o["cls"]))
            elif not o.get("fired"):
                raise Viol("save", "%s of a %s %s failed: %s %s" % (what, "fitted" if m["coef"] else "new", m["cls"], o["type"], o["msg"]))
        elif k == "predict":
            m, d = M[op["est"]], D[op["data"]]
            if not check_predict(o, m["coef"], d, what):
                raise Viol("predict", "%s with coefficients %s ended in %s %s" % (
                    what, show(m["coef"]), o["kind"], show(o["value"]) if o["kind"] == "ok" else (o.get("type"), o.get("msg"))))
        elif k == "set":
            if o["kind"] != "ok":
                raise Viol("outcome", "%s failed: %s" % (what, o))
            M[op["est"]]["params"].update(op["params"])
        elif k == "new":
            if o["kind"] != "ok":
                raise Viol("outcome", "%s failed: %s %s" % (what, o.get("type"), o.get("msg")))
            M[op["est"]] = dict(cls=op["cls"], params=dict(op["params"]), coef=None)
        whole(o["snap"], what)
    return hit


def judge_c11(p, r, c):
    fits = {}
    flat = []
    handled = 0
    for t, ops in enumerate(p["tasks"]):
        for i, op in enumerate(ops):
            o = r["ops"][t][i]
            if o is None:
                raise Viol("lost", "operation %d of task %d never ended" % (i, t))
            flat.append((t, i, op, o))
            rest = sorted(op.get("handlers", ()), key=lambda h: h["at"])
            for h, x in zip(rest, o.get("handled", ())):
                flat.append((t, "%d, in a handler at %s," % (i, x["where"]), h, x))
                handled += 1
                c.add("handlers that ran %s during %s" % (h["op"], op["op"]))
    for t, i, op, o in flat:
        if op["op"] != "fit":
            continue
        e, d = p["ests"][op["est"]], p["data"][op["data"]]
        s = c.solo(e, d, "fit")
        what = "fit %s of task %d (%s on %dx%d %s data)" % (i, t, e["cls"], d["n"], d["p"], d["form"])
        if s["kind"] == "died":
            raise Viol("died", "%s, alone: %s" % (what, s["msg"]))
        if o.get("fired"):
            c.add("%s delivered in %s" % (o["fired"], o["where"].split(":")[0]))
            sure = False
        else:
            same_outcome(o, s, what)
            sure = True
        if s["kind"] == "ok":
            fits.setdefault(op["est"], []).append((o["start"], o["end"], s["coef"], sure))

    def allowed(e, start, end):
        v = []
        fs = fits.get(e, [])
        if not any(sure and b <= start for a, b, _, sure in fs):
            v.append(None)
        for a, b, coef, _ in fs:
            if a < end or (a == end and b == end):
                if not any(sure and a2 >= b and b2 <= start for a2, b2, _, sure in fs):
                    v.append(coef)
        return v

    forks = 0
    for t, i, op, o in flat:
        if op["op"] == "fork":
            e, d = p["ests"][op["est"]], p["data"][op["data"]]
            what = "the child forked by operation %d of task %d (%s of %s on %dx%d %s data)" % (
                i, t, "fit" if op["fit"] else "predict", e["cls"], d["n"], d["p"], d["form"])
            if o.get("died"):
                raise Viol("fork-died", "%s: %s" % (what, o["died"]))
            v = allowed(op["est"], o["start"], o["end"] + 1)
            if o["before"] not in v:
                raise Viol("mixed", "%s started with coefficients %s; completed fits allow %s" % (what, show(o["before"]), [show(x) for x in v]))
            want = o["before"]
            if op["fit"]:
                s = c.solo(e, d, "fit")
                same_outcome(o, s, what)
                if s["kind"] == "ok":
                    if o.get("returned"):
                        raise Viol("outcome", "%s returned %s, not the estimator" % (what, o["returned"]))
                    want = s["coef"]
            for k in ("after", "loaded"):
                if o[k] != want:
                    raise Viol("fork-coef", "%s %s coefficients %s, not %s" % (
                        what, "sent back" if k == "loaded" else "gave", show(o[k]), show(want)))
            if o["cls"] != e["cls"] or o["params"] != copyable(e["params"]):
                raise Viol("fork-coef", "%s sent back a %s with %s" % (what, o["cls"], o["params"]))
            if not check_predict(o["predict"], want, d, what):
                raise Viol("predict", "%s: its prediction ended in %s" % (what, o["predict"]["kind"]))
            forks += 1
            busy = sum(1 for a in flat if a[0] != t and a[3]["start"] < o["start"] < a[3]["end"])
            c.add("processes forked while %d other threads were in the middle of an operation" % busy)
    for t, i, op, o in flat:
        if op["op"] == "read":
            v = allowed(op["est"], o["start"], o["end"] + 1)
            if o["coef"] not in v:
                raise Viol("mixed", "read %s of task %d: estimator %d has coefficients %s; completed fits allow %s" % (
                    i, t, op["est"], show(o["coef"]), [show(x) for x in v]))
        elif op["op"] == "copy":
            v = allowed(op["est"], o["start"], o["end"] + 1)
            m = p["ests"][op["est"]]
            if o["kind"] != "ok":
                raise Viol("outcome", "copy %s of task %d (of a %s) failed: %s %s" % (i, t, m["cls"], o["type"], o["msg"]))
            if o["coef"] not in v or o["cls"] != m["cls"] or o["params"] != copyable(m["params"]):
                raise Viol("mixed", "copy %s of task %d of estimator %d has coefficients %s; completed fits allow %s" % (
                    i, t, op["est"], show(o["coef"]), [show(x) for x in v]))
        elif op["op"] == "predict":
            v = allowed(op["est"], o["start"], o["end"] + 1)
            d = p["data"][op["data"]]
            if not any(check_predict(o, x, d, "") for x in v):
                raise Viol("predict", "predict %s of task %d ended in %s %s; completed fits of estimator %d allow coefficients %s" % (
                    i, t, o["kind"], show(o["value"]) if o["kind"] == "ok" else (o.get("type"), o.get("msg")), op["est"], [show(x) for x in v]))
    for e, m in enumerate(p["ests"]):
        s = r["last"]["est"][e]
        if s["params"] != copyable(m["params"]):
            raise Viol("params", "hyper-parameters of estimator %d changed: %s" % (e, s["params"]))
        v = allowed(e, r["steps"] + 1, r["steps"] + 2)
        if s["coef"] not in v:
            raise Viol("mixed", "in the end estimator %d (%s) has coefficients %s; completed fits allow %s" % (
                e, m["cls"], show(s["coef"]), [show(x) for x in v]))
    for i, d in enumerate(p["data"]):
        if r["last"]["data"][i] != c.data_bits(d):
            raise Viol("input-changed", "the shared arrays %d (%s) were changed" % (i, d["form"]))
    if p["prop"] == "C17":
        for t, i, op, o in flat:
            if len(p["tasks"]) > 1 or not isinstance(i, str):
                continue
            # nothing else ran meanwhile
            want = o["before"]
            what = "the %s %s of estimator %d" % (op["op"], i, op["est"])
            if op["op"] == "fit" and o["kind"] == "ok":
                want = c.solo(p["ests"][op["est"]], p["data"][op["data"]], "fit")["coef"]
                if o.get("returned"):
                    raise Viol("outcome", "%s returned %s" % (what, o["returned"]))
            if o["after"] != want:
                raise Viol("coef", "%s left coefficients %s, not %s" % (what, show(o["after"]), show(want)))
            if op["op"] == "predict" and not check_predict(o, want, p["data"][op["data"]], ""):
                raise Viol("predict", "%s does not follow from its coefficients %s" % (what, show(want)))
        return handled > 0
    if p["prop"] == "C15":
        return forks > 0 and r["nswitch"] > 0
    return r["nswitch"] > len(p["tasks"])


def evaluate(p, c):
    """(violation or None, result, non-trivial)"""
    r = c.run(p)
    if r.get("died"):
        return Viol("died", "the process was " + r["died"] if r["died"].startswith("killed") else r["died"]), r, True
    if r["abort"]:
        if r["abort"].startswith("harness"):
            raise RuntimeError(r["abort"])
        return Viol("deadlock", r["abort"]), r, True
    try:
        nt = dict(C09=judge_c09, C11=judge_c11, C12=judge_c12, C15=judge_c11, C17=judge_c11)[p["prop"]](p, r, c)
        return None, r, nt
    except Viol as v:
        return v, r, True


def case(prop, seed, index, c):
    r = rng(prop, seed, index)
    p = blank(prop, seed, index)
    dict(C09=gen_c09, C11=gen_c11, C12=gen_c12, C15=gen_c15, C17=gen_c17)[prop](r, p, c.solo)
    return p, evaluate(p, c)

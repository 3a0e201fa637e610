"""The simulated process: loads the code under test and runs one plan.

Every plan runs in a process forked from one that has imported everything and fitted
nothing. Within it a seeded scheduler owns the Python threads (exactly one runs between
two trace events), exceptions are delivered at planned trace events, and the clock, the
random state and garbage collection answer to the plan.
"""
import _thread
import ctypes
import dis
import gc
import importlib.machinery
import importlib.util
import io
import json
import os
import pickle
import random
import signal
import sys
import threading
import time
import traceback

VERIF = os.environ["VERIF_DIR"]
LIB = VERIF + "/.build/py/_lib.so"
PKG = "/repo/python"
_time, _sleep = time.monotonic, time.sleep
_real_lock = threading.Lock
_real_rlock = threading.RLock


class Abort(BaseException):
    pass


# ------------------------------------------------------------------ scheduler
class Baton:
    """A binary semaphore that never meets the simulated locks."""

    def __init__(self):
        self.l = _thread.allocate_lock()
        self.l.acquire()

    def acquire(self):
        self.l.acquire()

    def release(self):
        try:
            self.l.release()
        except RuntimeError:
            pass


class Sched:
    """Passes one baton between the tasks of a plan."""

    def __init__(self, plan, ntasks):
        self.n = ntasks
        self.sems = [Baton() for _ in range(ntasks)]
        self.state = ["ready"] * ntasks
        self.cur = None
        self.main = Baton()
        s = plan["sched"]
        self.kind = s["kind"]
        self.rng = random.Random(s["seed"])
        self.prob = s.get("prob", 0.0)
        self.far = s.get("far", 0.0)
        self.planned = {(a, b): c for a, b, c in s.get("switches", [])}
        self.first = s.get("first", 0)
        self.prio = list(range(ntasks))
        self.rng.shuffle(self.prio)
        self.steps = [0] * ntasks
        self.inner = [0] * ntasks
        self.seq = 0
        self.done_switches = []
        self.hash = 0
        self.switches = 0
        self.aborted = None
        self.local = threading.local()

    def ready(self, me):
        return [i for i in range(self.n) if i != me and self.state[i] == "ready"]

    def choose(self, me, ours):
        """None to go on, or the task to switch to at this step."""
        if self.kind == "planned":
            t = self.planned.get((me, self.steps[me]))
            return t if t is not None and self.state[t] == "ready" else None
        p = self.prob if ours else self.far
        if p == 0.0 or self.rng.random() >= p:
            return None
        o = self.ready(me)
        if not o:
            return None
        if self.kind == "pct":
            # the running task drops to the lowest priority
            self.prio.remove(me)
            self.prio.append(me)
            return min(o, key=self.prio.index)
        return o[self.rng.randrange(len(o))]

    def step(self, me, ours, what):
        if self.aborted:
            raise Abort()
        self.steps[me] += 1
        self.seq += 1
        if ours:
            self.inner[me] += 1
        self.hash = (self.hash * 1000003 + me * 7919 + what) & ((1 << 61) - 1)
        if self.n == 1:
            return
        t = self.choose(me, ours)
        if t is not None:
            self.done_switches.append([me, self.steps[me], t])
            self.switch(me, t)

    def switch(self, me, t):
        self.switches += 1
        self.cur = t
        self.sems[t].release()
        self.sems[me].acquire()
        if self.aborted:
            raise Abort()

    def block(self, me):
        """The task waits for a lock: another one runs; False when there is none."""
        o = self.ready(me)
        if not o:
            self.abort("deadlock: every task waits for a lock")
            raise Abort()
        self.state[me] = "waiting"
        t = o[0] if self.kind == "planned" else o[self.rng.randrange(len(o))]
        if self.kind == "planned":
            t = self.planned.get((me, -self.steps[me]), t)
            if self.state[t] != "ready":
                t = o[0]
        self.done_switches.append([me, -self.steps[me], t])
        self.switch(me, t)

    def wake(self):
        for i in range(self.n):
            if self.state[i] == "waiting":
                self.state[i] = "ready"

    def end(self, me):
        self.state[me] = "done"
        self.wake()
        o = self.ready(me)
        if o:
            t = None
            if self.kind == "planned":
                t = self.planned.get((me, 0))
                if t not in o:
                    t = o[0]
            else:
                t = o[self.rng.randrange(len(o))]
            self.done_switches.append([me, 0, t])
            self.cur = t
            self.sems[t].release()
        else:
            self.main.release()

    def abort(self, why):
        self.aborted = why
        for s in self.sems:
            s.release()
        self.main.release()


SCHED = None


def me():
    return getattr(SCHED.local, "id", None) if SCHED is not None else None


def others():
    """Live threads the code under test started itself."""
    return len(threading._limbo) + sum(not isinstance(t, (threading._MainThread, threading._DummyThread)) for t in threading._active.values())


class Waiting:
    """Task i cannot go on: another one does, or a thread the code under test started."""

    def __init__(self, i):
        self.i = i
        self.start = _time()
        self.since = None
        self.last = False

    def wait(self):
        was = getattr(SCHED.local, "inside", False)
        SCHED.local.inside = True
        try:
            if not SCHED.ready(self.i):
                if others():
                    self.since = self.since or _time()
                    self.last = False
                    if _time() - self.since < 15.0:
                        _sleep(0.0005)
                        SCHED.wake()
                        return
                elif not self.last:
                    # such a thread may have ended after the caller looked: it looks once more
                    self.last = True
                    return
            self.last = False
            SCHED.block(self.i)
        finally:
            SCHED.local.inside = was


_join = threading.Thread.join


def sim_join(self, timeout=None):
    i = me() if SCHED is not None else None
    w = Waiting(i)
    while i is not None and timeout is None and self.is_alive():
        w.wait()
    _join(self, timeout)


class SimLock:
    """threading.Lock for the code under test: waiting is a scheduling decision."""

    _re = False

    def __init__(self):
        self.real = _real_lock()
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._re and self.owner == threading.get_ident():
            self.depth += 1
            return True
        i = me()
        w = Waiting(i)
        while not self.real.acquire(False):
            if not blocking:
                return False
            if i is None:
                self.real.acquire()
                break
            if timeout is not None and timeout >= 0 and not SCHED.ready(i):
                if not others() or _time() - w.start >= timeout:
                    return False
            w.wait()
        self.owner = threading.get_ident()
        self.depth = 1
        return True

    def release(self):
        if self._re:
            if self.owner != threading.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self.depth -= 1
            if self.depth:
                return
        self.owner = None
        self.real.release()
        if SCHED is not None:
            SCHED.wake()

    def locked(self):
        return self.real.locked()

    def _at_fork_reinit(self):
        self.real = _real_lock()
        self.owner, self.depth = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _re = True

    def _is_owned(self):
        return self.owner == threading.get_ident()


# ------------------------------------------------------------------ loading
est = None
np = None
sp = None


def load():
    global est, np, sp
    import numpy
    import scipy.sparse
    import sklearn.base
    import sklearn.utils.validation  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    import joblib  # noqa: F401
    np, sp = numpy, scipy.sparse
    # locks made by the code under test are simulated ones
    threading.Lock, threading.RLock = SimLock, SimRLock
    threading._allocate_lock = SimLock
    threading.Thread.join = sim_join
    sys.path.insert(0, PKG)
    pkg = importlib.util.find_spec("sparseglm")
    m = importlib.util.module_from_spec(pkg)
    sys.modules["sparseglm"] = m
    loader = importlib.machinery.ExtensionFileLoader("sparseglm._lib", LIB)
    spec = importlib.util.spec_from_loader("sparseglm._lib", loader, origin=LIB)
    spec.origin = LIB
    lib = importlib.util.module_from_spec(spec)
    loader.exec_module(lib)
    sys.modules["sparseglm._lib"] = lib
    m._lib = lib
    pkg.loader.exec_module(m)
    import sparseglm.estimators
    est = sparseglm.estimators
    assert est.__file__.startswith(PKG + "/"), est.__file__
    # what the oracle does in the parent must not change what its children start from
    for f in ("C", "F", "csc", "csr", "csc_array", "strided", "list", "readonly", "int", "csc-loose", "csr-loose"):
        for n in (3, 40):
            o = build(dict(seed=1, n=n, p=4, t=2, form=f, density=0.5, corr=0.6))
            for w in (np.ones(4), np.ones((2, 4)), np.ones(5)):
                try:
                    np.isfinite(np.asarray(o.X @ w.T)).all()
                except Exception:
                    pass
            for a in (o.X, o.y, o.Y):
                bits(a)
    # the interpreter heeds this from the settrace after the first time it is set
    sys._getframe().f_trace_opcodes = True
    sys._getframe().f_trace_opcodes = False
    gc.collect()
    gc.freeze()
    gc.disable()


# ------------------------------------------------------------------ disk
class SimFile:
    """A file of the simulated disk: what was accepted by write is durable, nothing else is."""

    def __init__(self, disk, name, room, full):
        self.disk, self.name, self.room, self.full = disk, name, room, full
        self.fault = None
        disk[name] = b""

    def write(self, b):
        b = bytes(b)
        have = len(self.disk[self.name])
        if self.room is not None and have + len(b) > self.room:
            self.disk[self.name] += b[:self.room - have]
            if self.full:
                self.fault = "full"
                raise OSError(28, "No space left on device")
            self.fault = "crash"
            WORLD.crash()
        self.disk[self.name] += b
        return len(b)

    def tell(self):
        return len(self.disk[self.name])

    def flush(self):
        pass


WORLD = None
EMIT = None


# ------------------------------------------------------------------ data
class Data:
    pass


def raw(d):
    """The numbers of a data set: X (n, p), y (n,), Y (n, t)."""
    r = np.random.RandomState(d["seed"] % (1 << 32))
    n, p, t = d["n"], d["p"], d["t"]
    X = r.randn(n, p)
    if d.get("corr"):
        for j in range(1, p):
            X[:, j] = d["corr"] * X[:, j - 1] + (1 - d["corr"] ** 2) ** 0.5 * X[:, j]
    if d.get("density", 1.0) < 1.0:
        X = X * (r.rand(n, p) < d["density"])
    w = r.randn(p, t) * (r.rand(p, 1) < 0.5)
    Y = X @ w + 0.1 * r.randn(n, t)
    for what, a, b in d.get("pokes", []):
        m = X if what == "X" else Y
        a, b = divmod(a % m.size, m.shape[1]), divmod(b % m.size, m.shape[1])
        m[a], m[b] = m[b], m[a]
    return X, Y[:, 0].copy(), Y


def build(d):
    """The objects a caller passes."""
    X, y, Y = raw(d)
    f = d["form"]
    o = Data()
    if f == "C":
        X = np.ascontiguousarray(X)
    elif f == "F":
        X = np.asfortranarray(X)
    elif f == "csc":
        X = sp.csc_matrix(X)
    elif f == "csr":
        X = sp.csr_matrix(X)
    elif f in ("csc-loose", "csr-loose"):
        # explicit zeros, entries out of order
        X = (sp.csc_matrix if f == "csc-loose" else sp.csr_matrix)(X)
        X.data[::3] = 0.0
        for j in range(len(X.indptr) - 1):
            k = slice(X.indptr[j], X.indptr[j + 1])
            X.indices[k] = X.indices[k][::-1].copy()
            X.data[k] = X.data[k][::-1].copy()
        X.has_sorted_indices = False
    elif f == "csc_array":
        X = sp.csc_array(X)
    elif f == "strided":
        big = np.zeros((X.shape[0] * 2, X.shape[1] + 1), order="F")
        big[::2, 1:] = X
        X = big[::2, 1:]
        Z = np.zeros((Y.shape[0] * 2, Y.shape[1]))
        Z[::2] = Y
        Y = Z[::2]
        y = Y[:, 0]
    elif f == "list":
        X, y, Y = X.tolist(), y.tolist(), Y.tolist()
    elif f == "readonly":
        X = np.asfortranarray(X)
    elif f == "int":
        X = np.asfortranarray(np.round(X * 3).astype(np.int64))
    flaw = d.get("flaw")
    if flaw == "nan" and f != "list":
        a = X.data if sp.issparse(X) else X
        if a.dtype.kind == "f" and a.size:
            a[(0,) * a.ndim] = np.nan
    elif flaw == "y-nan" and f != "list":
        y[-1] = np.inf
        Y[-1, 0] = np.nan
    elif flaw == "short-y":
        y, Y = y[:-1], Y[:-1]
    elif flaw == "f32" and f != "list":
        X = X.astype(np.float32)
    elif flaw == "x-1d" and f != "list":
        X = np.ones(5)
    elif flaw == "text":
        X = np.array([["a", "b"], ["c", "d"]])
    elif flaw == "y-swap":
        y, Y = Y, y
    elif flaw == "index64" and sp.issparse(X):
        X.indices = X.indices.astype(np.int64)
        X.indptr = X.indptr.astype(np.int64)
    elif flaw == "empty" and f != "list":
        X = X[:0]
    elif flaw == "y-col" and f != "list":
        y = y.reshape(-1, 1)
    elif flaw == "none":
        y = Y = None
    if f == "readonly":
        for a in (X, y, Y):
            if isinstance(a, np.ndarray):
                a.setflags(write=False)
    o.X, o.y, o.Y, o.spec = X, y, Y, d
    return o


def overwrite(o, d):
    """Modifies the arrays of o in place; False when that is impossible."""
    n = build(dict(d, form=o.spec["form"], flaw=o.spec.get("flaw")))
    pairs = [(getattr(o, k), getattr(n, k)) for k in ("X", "y", "Y")]
    for a, b in pairs:
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.flags.writeable:
            continue
        if sp.issparse(a) and sp.issparse(b) and a.shape == b.shape and a.data.shape == b.data.shape:
            continue
        if isinstance(a, list) and isinstance(b, list):
            continue
        return False
    for a, b in pairs:
        if sp.issparse(a):
            a.data[...] = b.data
            a.indices[...] = b.indices
            a.indptr[...] = b.indptr
        elif isinstance(a, list):
            a[:] = b
        else:
            a[...] = b
    return True


def bits(a):
    if a is None:
        return None
    if sp.issparse(a):
        return [type(a).__name__, list(a.shape), bits(a.data), bits(a.indices), bits(a.indptr)]
    if isinstance(a, np.ndarray):
        return [a.dtype.str, list(a.shape), bool(a.flags.writeable), a.tobytes().hex()]
    return repr(a)


def coef_bits(c):
    """Values of the coefficients, whatever their memory layout."""
    if c is None:
        return None
    if not isinstance(c, np.ndarray):
        return ["not an array", repr(type(c))]
    return [c.dtype.str, list(c.shape), np.ascontiguousarray(c).tobytes().hex()]


def coef_array(b):
    return np.frombuffer(bytes.fromhex(b[2]), dtype=b[0]).reshape(b[1])


MULTI = ("MultiTaskLasso", "BlockMCPRegressor", "MultiTaskElasticNet")


# ------------------------------------------------------------------ tracing
EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,
    "RuntimeError": RuntimeError,
}
CODE = {"call": 1, "line": 2, "opcode": 3, "return": 4, "exception": 5}
_ours = {}


def is_ours(code):
    v = _ours.get(code)
    if v is None:
        v = _ours[code] = code.co_filename.startswith(PKG)
    return v


_fixed = {}


def interruptible(frame):
    """False where the interpreter delivers nothing: while it leaves a with block."""
    code = frame.f_code
    v = _fixed.get(code)
    if v is None:
        v = _fixed[code] = set()
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "EXTENDED_ARG")]
        for n, i in enumerate(ins):
            if i.opname == "WITH_EXCEPT_START":
                m = n
                while m >= 0 and ins[m].opname != "PUSH_EXC_INFO":
                    m -= 1
                v.update(x.offset for x in ins[max(m, 0):n + 1])
            none = all(x.opname == "LOAD_CONST" and x.argval is None for x in ins[n - 3:n])
            if i.opname in ("CALL", "PRECALL") and n >= 3 and i.arg == 2 and none:
                m = n - 3
                while m > 0 and ins[m - 1].opname in ("SWAP", "NOP", "POP_TOP", "COPY"):
                    m -= 1
                v.update(x.offset for x in ins[m:n + 1])
    return frame.f_lasti not in v


def suspends(frame):
    """Whether a frame that leaves at its current instruction is a generator that yields."""
    code = frame.f_code
    if not code.co_flags & 0x2A0:
        return False
    return code.co_code[frame.f_lasti] == dis.opmap["YIELD_VALUE"] if frame.f_lasti >= 0 else True


class Tracer:
    """Trace function of one operation of one task."""

    def __init__(self, task, cut, handlers=()):
        self.task = task
        self.handlers = sorted(handlers, key=lambda h: h["at"])
        self.handled = []
        self.cut = cut
        self.n = 0
        self.k = 0
        self.fired = None
        self.where = None
        self.frames = {}

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename == __file__:
            return None
        o = is_ours(frame.f_code)
        if o:
            frame.f_trace_opcodes = True
            self.frames[id(frame)] = frame
        return self.local(frame, event, arg)

    def untrace(self):
        """Ends the trace of every frame, suspended generators included. The interpreter calls the
        trace function of the thread for each opcode of a frame that asks for it, set or not."""
        for f in self.frames.values():
            f.f_trace_opcodes = False
        self.frames.clear()

    def local(self, frame, event, arg):
        if event == "return" and not suspends(frame):
            self.frames.pop(id(frame), None)
        if event == "exception" or getattr(SCHED.local, "inside", False):
            return self.local
        self.n += 1
        o = is_ours(frame.f_code)
        if o:
            self.k += 1
        i = SCHED.local
        i.inside = True
        try:
            SCHED.step(self.task, o, (frame.f_lineno or 0) * 8 + CODE.get(event, 0))
        except BaseException:
            self.untrace()
            raise
        finally:
            i.inside = False
        while o and self.handlers and self.handlers[0]["at"] <= self.k and interruptible(frame):
            h = self.handlers.pop(0)
            where = "%s:%d %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, event)
            i.inside = True
            try:
                self.handled.append(dict(WORLD.handle(h), at=h["at"], where=where))
            except BaseException:
                self.untrace()
                raise
            finally:
                i.inside = False
        c = self.cut
        if c is not None and self.fired is None:
            if (self.k >= c["at"] and o if c["ours"] else self.n >= c["at"]) and interruptible(frame):
                self.fired = c["exc"]
                if c["exc"] == "crash":
                    WORLD.crash()
                self.where = "%s:%d %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, event)
                self.untrace()  # raising removes the thread's trace function
                raise EXC[c["exc"]]("injected")
        return self.local


def gil_point():
    i = me()
    if i is not None and not getattr(SCHED.local, "inside", False):
        SCHED.local.inside = True
        try:
            SCHED.gil += 1
            SCHED.step(i, True, 6)
        finally:
            SCHED.local.inside = False


# ------------------------------------------------------------------ operations
def snapshot(ests, datas):
    s = {"est": [], "data": None}
    for e in ests:
        if e is None:
            s["est"].append(None)
            continue
        p = e.get_params()
        s["est"].append({"params": {k: repr(v) for k, v in sorted(p.items())}, "coef": coef_bits(e.coef_)})
    s["data"] = [None if d is None else [bits(d.X), bits(d.y), bits(d.Y)] for d in datas]
    return s


def traced(tr, f, *a):
    sys.settrace(tr)
    try:
        return f(*a)
    finally:
        sys.settrace(None)
        tr.untrace()


def outcome(f):
    try:
        v = f()
        return {"kind": "ok"}, v
    except Abort:
        raise
    except BaseException as e:
        return {"kind": "exc", "type": type(e).__name__, "msg": str(e)[:300]}, None


class World:
    def __init__(self, plan):
        self.plan = plan
        self.datas = [build(d) for d in plan["data"]]
        self.ests = []
        for e in plan["ests"]:
            self.ests.append(None if e is None else getattr(est, e["cls"])(**e["params"]))
        self.ops = [[None] * len(t) for t in plan["tasks"]]
        self.disk = {k: bytes.fromhex(v) for k, v in plan.get("disk", {}).items()}
        self.now = None
        self.first = None
        self.pid = 4000 + plan["env"]["npseed"] % 1000

    def args(self, e, d):
        o = self.datas[d]
        return (o.X, o.Y) if type(e).__name__ in MULTI else (o.X, o.y)

    def fork(self, t, op):
        """The process forks at this moment: the child fits, predicts and sends its estimator back."""
        sys.stdout.flush()
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                self.pid += 1
                r = self.forked(t, op)
                b = json.dumps(r).encode()
                while b:
                    b = b[os.write(wfd, b):]
                os._exit(0)
            finally:
                os._exit(9)
        os.close(wfd)
        r = collect(pid, rfd, 20.0)
        if r.get("packed"):
            v = pickle.loads(bytes.fromhex(r.pop("packed")))
            r["cls"] = type(v).__name__
            r["loaded"] = coef_bits(v.coef_)
            r["params"] = {a: repr(b) for a, b in sorted(v.get_params().items())}
        return r

    def forked(self, t, op):
        SCHED.state = ["ready" if i == t else "gone" for i in range(SCHED.n)]
        e = self.ests[op["est"]]
        X, y = self.args(e, op["data"])
        r = {"kind": "none", "before": coef_bits(e.coef_)}
        try:
            if op["fit"]:
                o, v = outcome(lambda: e.fit(X, y))
                r.update(o)
                if r["kind"] == "ok" and v is not e:
                    r["returned"] = repr(type(v))
            r["after"] = coef_bits(e.coef_)
            r["predict"], v = outcome(lambda: e.predict(X))
            if r["predict"]["kind"] == "ok":
                r["predict"]["value"] = coef_bits(np.asarray(v))
            r["packed"] = pickle.dumps(e).hex()
        except Abort:
            return {"died": SCHED.aborted}
        return r

    def handle(self, h):
        """What a signal handler or a finaliser does that uses the package itself, at this moment."""
        SCHED.seq += 1
        SCHED.hash = (SCHED.hash * 1000003 + h["at"] * 31 + 5) & ((1 << 61) - 1)
        e = self.ests[h["est"]]
        X, y = self.args(e, h["data"])
        r = {"start": SCHED.seq, "before": coef_bits(e.coef_)}
        if h["op"] == "fit":
            o, v = outcome(lambda: e.fit(X, y))
            if o["kind"] == "ok" and v is not e:
                r["returned"] = repr(type(v))
        elif h["op"] == "predict":
            o, v = outcome(lambda: e.predict(X))
            if o["kind"] == "ok":
                r["value"] = coef_bits(np.asarray(v))
        else:
            import copy
            o, v = outcome(lambda: copy.deepcopy(e))
            if v is not None:
                r["cls"] = type(v).__name__
                r["params"] = {a: repr(b) for a, b in sorted(v.get_params().items())}
                r["coef"] = coef_bits(v.coef_)
        r.update(o)
        r["after"] = coef_bits(e.coef_)
        SCHED.seq += 1
        r["end"] = SCHED.seq
        SCHED.seq += 1
        return r

    def crash(self):
        """The process ends here; the disk is all that is left of it."""
        res = result(self, self.plan)
        res["crashed"] = list(self.now)
        EMIT(res)

    def run(self, t, i, op):
        k = op["op"]
        self.now = (t, i)
        r = {"start": SCHED.seq}
        tr = Tracer(t, op.get("cut"), op.get("handlers", ()))
        if k == "fit":
            e = self.ests[op["est"]]
            X, y = self.args(e, op["data"])
            o, v = outcome(lambda: traced(tr, e.fit, X, y))
            r.update(o)
            if r["kind"] == "ok" and v is not e:
                r["returned"] = repr(type(v))
        elif k == "predict":
            e = self.ests[op["est"]]
            X = self.datas[op["data"]].X
            o, v = outcome(lambda: traced(tr, e.predict, X))
            r.update(o)
            if r["kind"] == "ok":
                r["value"] = coef_bits(np.asarray(v))
        elif k == "fork":
            r.update(self.fork(t, op))
        elif k == "read":
            r.update(kind="ok", coef=coef_bits(self.ests[op["est"]].coef_))
        elif k == "clone":
            import sklearn.base
            o, v = outcome(lambda: sklearn.base.clone(self.ests[op["est"]]))
            r.update(o)
            if v is not None:
                self.ests[op["dst"]] = v
                r["cls"] = type(v).__name__
        elif k == "copy":
            import copy
            o, v = outcome(lambda: traced(tr, copy.deepcopy, self.ests[op["est"]]))
            r.update(o)
            if v is not None:
                r["cls"] = type(v).__name__
                r["params"] = {a: repr(b) for a, b in sorted(v.get_params().items())}
                r["coef"] = coef_bits(v.coef_)
                if "dst" in op:
                    self.ests[op["dst"]] = v
        elif k == "save":
            f = SimFile(self.disk, op["name"], op.get("room"), op.get("full", False))
            e = self.ests[op["est"]]
            if op["how"] == "joblib":
                import joblib
                o, v = outcome(lambda: traced(tr, joblib.dump, e, f))
            else:
                o, v = outcome(lambda: traced(tr, pickle.dump, e, f, op["how"]))
            r.update(o)
            r["size"] = f.tell()
            if f.fault:
                r["fault"] = f.fault
        elif k == "load":
            b = self.disk.get(op["name"])
            r.update(kind="ok", done=b is not None)
            if b is not None:
                if op["name"].endswith("joblib"):
                    import joblib
                    o, v = outcome(lambda: traced(tr, joblib.load, io.BytesIO(b)))
                else:
                    o, v = outcome(lambda: traced(tr, pickle.loads, b))
                r.update(o)
                if v is not None:
                    r["cls"] = type(v).__name__
                    self.ests[op["est"]] = v
        elif k == "set":
            o, v = outcome(lambda: self.ests[op["est"]].set_params(**op["params"]))
            r.update(o)
        elif k == "new":
            self.ests[op["est"]] = None
            o, v = outcome(lambda: getattr(est, op["cls"])(**op["params"]))
            r.update(o)
            self.ests[op["est"]] = v
        elif k == "mutate":
            r.update(kind="ok", done=overwrite(self.datas[op["data"]], op["spec"]))
        elif k == "rebuild":
            self.datas[op["data"]] = None
            self.datas[op["data"]] = build(op["spec"])
            r.update(kind="ok")
        elif k == "gc":
            gc.collect()
            r.update(kind="ok")
        elif k == "churn":
            # memory the next allocations reuse holds other numbers
            x = [np.full(m, v) for m in (3, 17, 64, 300, 1500) for v in (np.nan, 1e300, -7.0)]
            del x
            r.update(kind="ok")
        r["end"] = SCHED.seq
        r["n"], r["k"] = tr.n, tr.k
        if tr.handled:
            r["handled"] = tr.handled
        if tr.fired:
            r["fired"], r["where"] = tr.fired, tr.where
        self.ops[t][i] = r
        if self.plan["snap"]:
            r["snap"] = snapshot(self.ests, self.datas)

    def task(self, t):
        SCHED.local.id = t
        SCHED.sems[t].acquire()
        try:
            for i, op in enumerate(self.plan["tasks"][t]):
                if SCHED.aborted:
                    return
                if i and SCHED.n > 1:
                    SCHED.step(t, True, 7)
                self.run(t, i, op)
        except Abort:
            return
        except BaseException:
            SCHED.abort("harness: " + traceback.format_exc())
            return
        finally:
            sys.settrace(None)
        SCHED.end(t)


class Clock:
    def __init__(self, c):
        self.t = c["t0"]
        self.tick = c["tick"]
        self.reads = 0
        self.jumps = dict(c.get("jumps", []))

    def __call__(self):
        self.reads += 1
        self.t += self.tick + self.jumps.get(self.reads, 0.0)
        return self.t


def run_plan(plan):
    """Runs in a child process; the result is plain data."""
    global SCHED, WORLD
    c = plan["env"]
    clock = Clock(c["clock"])
    time.time = time.monotonic = time.perf_counter = clock
    np.random.seed(c["npseed"])
    random.seed(c["npseed"])
    os.environ["SPARSEGLM_X"] = os.environ["LC_ALL"] = c["envvar"]
    out = {"null": "/dev/null", "full": "/dev/full"}.get(c["out"])
    if out:
        fd = os.open(out, os.O_WRONLY)
    else:
        r, fd = os.pipe()
        os.close(r)
    os.dup2(fd, 1)
    n = len(plan["tasks"])
    SCHED = Sched(plan, n)
    SCHED.gil = 0
    sys._sim_gil_point = gil_point
    w = WORLD = World(plan)
    os.getpid = lambda: WORLD.pid
    w.clock = clock
    w.first = snapshot(w.ests, w.datas)
    for t in range(n):
        _thread.start_new_thread(w.task, (t,))
    SCHED.cur = plan["sched"].get("first", 0) % n
    SCHED.sems[SCHED.cur].release()
    SCHED.main.acquire()
    w.last = snapshot(w.ests, w.datas)
    r = result(w, plan)
    SCHED = None
    return r


def result(w, plan):
    s = SCHED
    return {
        "ops": w.ops,
        "first": w.first,
        "last": getattr(w, "last", None),
        "abort": s.aborted,
        "switches": s.done_switches,
        "nswitch": s.switches,
        "steps": s.seq,
        "inner": sum(s.inner),
        "hash": s.hash,
        "clock": w.clock.reads,
        "clock_s": w.clock.t - plan["env"]["clock"]["t0"],
        "gil": s.gil,
        "disk": {k: v.hex() for k, v in sorted(w.disk.items())},
    }


def fork_run(plan, stall=25.0):
    """Runs a plan in a fresh child process."""
    r, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 2)
            def emit(res):
                b = json.dumps(res).encode()
                while b:
                    b = b[os.write(wfd, b):]
                os._exit(0)

            global EMIT
            EMIT = emit
            try:
                res = run_plan(plan)
            except BaseException:
                res = {"harness": traceback.format_exc()}
            emit(res)
        finally:
            os._exit(0)
    os.close(wfd)
    return collect(pid, r, 60.0 if plan["prop"] == "C15" else stall)


def collect(pid, r, stall):
    """What a child writes before it ends."""
    import select
    os.set_blocking(r, False)
    buf = []
    real_time = _time
    start = real_time()
    mark, cpu = start, -1.0
    died = None
    while True:
        ok, _, _ = select.select([r], [], [], 2.0)
        if ok:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
            continue
        now = cputime(pid)
        t = real_time()
        if now - cpu > 0.02:
            mark, cpu = t, now
        if t - mark > stall:
            died = "blocked for ever: no task makes progress"
        elif now > 120.0:
            died = "still running after 120 s of processor time"
        if died:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if died:
        return {"died": died}
    if os.WIFSIGNALED(st):
        return {"died": "killed by signal %d" % os.WTERMSIG(st)}
    if os.WEXITSTATUS(st) != 0 or not buf:
        return {"died": "exit status %d" % os.WEXITSTATUS(st)}
    return json.loads(b"".join(buf))




def cputime(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / 100.0
    except OSError:
        return 0.0


def fix_addresses():
    """Starts the interpreter again without address randomisation."""
    if os.environ.get("SIM_FIXED") == "1":
        return
    os.environ["SIM_FIXED"] = "1"
    libc = ctypes.CDLL(None)
    old = libc.personality(ctypes.c_ulong(0xFFFFFFFF))
    if old != -1:
        libc.personality(ctypes.c_ulong(old | 0x0040000))
    os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])

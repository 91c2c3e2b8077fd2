"""Python side of C40: the same random script on the Python module and on the C++ reference, compared call by call.
Reports with the line protocol of main.cpp."""
import datetime, gc, math, random, sys, threading, traceback, weakref
import numpy as np
import verif_ref as ref
import pympcxx as mpc

MASK = (1 << 64) - 1


class Stop(Exception):
    pass


class Case:
    def __init__(self, seed, idx, name, thorough):
        self.r = random.Random("%d/%d/%s" % (seed, idx, name))
        self.viol, self.counters, self.hash, self.nontrivial, self.sample, self.thorough = [], {}, 1469598103934665603, False, "", thorough
        self.trace = []

    def bad(self, key, detail):
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, detail + " | after: " + ", ".join(self.trace[-8:])))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def obs(self, v):
        for ch in repr(v).encode():
            self.hash = ((self.hash ^ ch) * 1099511628211) & MASK


def same(a, b):
    """bit equality up to the sign of zero and NaN payloads"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a == b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def show(v):
    s = repr(v).replace("\n", " ")
    return s if len(s) < 500 else s[:500] + "..."


def result(r):
    cmd = np.array(r.cmd)
    return (r.solver_status, r.is_feasible, r.solver_status_msg, r.cost, str(r.status).split(".")[-1], cmd.reshape(-1))


def flat(t):
    return t[:5] + (np.asarray(t[5]).reshape(-1),)


class Pair:
    """One controller of the module and its reference."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.held = []
        self.solves = 0

    def both(self, name, fa, fb, post=None):
        """runs both, compares outcome (value or exception), boundary and returns the module's value"""
        c = self.c
        c.trace.append(name)
        clock, code = c.r.getrandbits(40), self.code
        outs = []
        t0 = ref.now()
        for f in (fa, fb):
            ref.set_now(t0)
            ref.drain()
            ref.begin(clock, code)
            try:
                v = f()
                err = None
            except Exception as e:
                v, err = None, (type(e).__name__, str(e))
            outs.append((v, err, ref.drain()))
        (va, ea, da), (vb, eb, db) = outs
        if (ea is None) != (eb is None):
            c.bad("outcome", "%s: module %s, C++ %s" % (name, ea or "succeeds", eb or "succeeds"))
            raise Stop()
        if ea and ea[0] != eb[0]:
            c.bad("exception", "%s raises %s, C++ %s" % (name, ea, eb))
        if da != db:
            c.bad("solver-input", "%s: the solver is given something else than by the C++ controller (nonlinear %d/%d, linear %d/%d calls)" % (name, da[1], db[1], da[2], db[2]))
        c.obs(db)
        if ea is None:
            ca = post(va) if post else va
            if not same(ca, vb if post is not result else flat(vb)):
                return self.differs(name, ca, vb if post is not result else flat(vb), va)
        return va

    def differs(self, name, ca, cb, va):
        if self.tolerate and ca[:2] == cb[:2] and ca[3:] and same(ca[:2] + ca[3:], cb[:2] + cb[3:]):
            # the text of an exception that passed through Python names it in Python's way
            if self.tolerate in ca[2] or self.tolerate not in cb[2]:
                return va
        self.c.bad("value:" + name, "%s: module %s, C++ %s" % (name, show(ca), show(cb)))
        return va

    code, tolerate = 1000, None

    def setting(self, name, *args, refname=None):
        """a setting with arrays in a random representation; they are overwritten afterwards"""
        conv = [self.convert(x) for x in args]
        v = self.both(name, lambda: getattr(self.a, name)(*[x for x, _ in conv]), lambda: getattr(self.b, refname or name)(*[y for _, y in conv]))
        for x, _ in conv:
            if isinstance(x, np.ndarray):
                x.fill(1e6 if x.dtype.kind == "f" else 7)
            elif isinstance(x, list) and x and not isinstance(x[0], list):
                x[:] = [3.5] * len(x)
        self.c.count("settings")
        return v

    def convert(self, x):
        """(what the module gets, what the reference gets)"""
        r = self.c.r
        if isinstance(x, mpc.HorizonSlice):
            raise RuntimeError("harness")
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "slice":
            return (mpc.HorizonSlice.all() if x[1] is None else mpc.HorizonSlice(x[1], x[2])), ((-1, -1) if x[1] is None else (x[1], x[2]))
        if not isinstance(x, np.ndarray):
            return x, x
        base = np.array(x, dtype=float)
        kind = r.randrange(9)
        if kind in (0, 1, 2):
            y = base.copy()
        elif kind == 3:
            y = np.asfortranarray(base)
        elif kind == 4:                                   # not contiguous
            big = np.full(tuple(2 * s for s in base.shape), -77.25)
            y = big[tuple(slice(None, None, 2) for _ in base.shape)]
            y[...] = base
        elif kind == 5:                                   # reversed view
            y = base[tuple(slice(None, None, -1) for _ in base.shape)].copy()[tuple(slice(None, None, -1) for _ in base.shape)]
        elif kind == 6 and np.array_equal(base.astype(np.float32).astype(float), base):
            y = base.astype(np.float32)
        elif kind == 7 and np.all(np.isfinite(base)) and np.array_equal(np.round(base), base):
            y = base.astype(np.int64)
        elif kind == 8 and base.size:
            y = base.tolist()
        elif base.ndim == 2:
            y = base.T.copy().T
        else:
            y = base.copy()
        self.c.count("array_forms")
        return y, base

    def check_stats(self):
        c = self.c
        c.trace.append("stats")
        s, t = self.a.getExecutionStats(), self.b.getExecutionStats()
        if s.numberOfSolutions != t[0]:
            c.bad("stats:numberOfSolutions", "%d, C++ %d" % (s.numberOfSolutions, t[0]))
        per = {str(k).split(".")[-1]: v for k, v in s.solutionsStates.items()}
        if per != t[1]:
            c.bad("stats:solutionsStates", "%s, C++ %s" % (per, t[1]))
        if t[0] > 0:
            for n, v in (("totalSolutionTime", t[2]), ("minSolutionTime", t[3]), ("maxSolutionTime", t[4]), ("averageSolutionTime", t[5])):
                w = getattr(s, n)
                if not isinstance(w, datetime.timedelta) or abs(w.total_seconds() - v) > 1.5e-6 + 1e-12 * abs(v):
                    c.bad("stats:" + n, "%s, C++ %.9f s" % (w, v))
            if not same(float(s.standardDeviation), t[6]):
                c.bad("stats:standardDeviation", "%r, C++ %r" % (s.standardDeviation, t[6]))
        c.count("stats_compared")

    def check_reads(self):
        va = self.both("getLastResult", self.a.getLastResult, self.b.getLastResult, result)
        self.both("getOptimalSequence", self.a.getOptimalSequence, self.b.getOptimalSequence, lambda q: (np.array(q.state), np.array(q.output), np.array(q.input)))
        self.c.count("sequences_compared")
        return va

    def solve(self, x0, u0):
        c = self.c
        xa, xb = self.convert(x0)
        ua, ub = self.convert(u0)
        if c.r.random() < 0.08:
            box = []

            def run():
                try:
                    box.append((self.a.optimize(xa, ua), None))
                except BaseException as e:      # noqa: B036
                    box.append((None, e))

            def fa():
                t = threading.Thread(target=run)
                t.start()
                t.join()
                if box[0][1] is not None:
                    raise box[0][1]
                return box[0][0]
            c.count("solves_in_threads")
        else:
            def fa():
                return self.a.optimize(xa, ua)
        va = self.both("optimize", fa, lambda: self.b.optimize(xb, ub), result)
        for z in (xa, ua):
            if isinstance(z, np.ndarray):
                z.fill(9)
        if va is not None:
            self.held.append((va, result(va)))
        self.solves += 1
        c.count("solves")
        return va

    def check_held(self):
        for va, was in self.held:
            if not same(result(va), was):
                self.c.bad("result-changes", "a result obtained earlier reads %s, at first %s" % (show(result(va)), show(was)))


def values(r, n, m=None, lo=-1.0, hi=1.0):
    shape = (n,) if m is None else (n, m)
    k = r.randrange(3)
    rs = np.random.RandomState(r.getrandbits(31))
    a = rs.uniform(lo, hi, shape)
    if k == 0:
        a = np.round(a * 64) / 64
    elif k == 1 and hi - lo > 3:
        a = np.round(a)
    return a + 0.0          # no negative zeros: they do not survive the conversion to integers


def limits(r, n, m, mag, p=0.6):
    lo = -np.abs(values(r, n, m, 0.3 * mag, 2 * mag)) - 0.1
    hi = np.abs(values(r, n, m, 0.3 * mag, 2 * mag)) + 0.1
    rs = np.random.RandomState(r.getrandbits(31))
    lo[rs.uniform(size=lo.shape) > p] = -np.inf
    hi[rs.uniform(size=hi.shape) > p] = np.inf
    return lo, hi


def a_slice(r, h):
    k = r.random()
    if k < 0.25:
        return ("slice", None, None)
    if k < 0.85:
        a = r.randint(0, h - 1)
        return ("slice", a, r.randint(a + 1, h))
    return ("slice", r.randint(-3, h + 2), r.randint(-3, h + 3))


def logger_ops(c, p):
    r = c.r
    lv = r.choice(["DEEP", "NORMAL", "ALERT", "NONE"])
    if p.a.setLoggerLevel(getattr(mpc.LoggerLevel, lv)) is not p.b.setLoggerLevel(("DEEP", "NORMAL", "ALERT", "NONE").index(lv)):
        c.bad("value-logger", "setLoggerLevel answers differently")
    if r.random() < 0.5:
        px = r.choice(["", "arm", "a b"])
        if p.a.setLoggerPrefix(px) is not p.b.setLoggerPrefix(px):
            c.bad("value-logger", "setLoggerPrefix answers differently")


BOOM = (ValueError, KeyError, ZeroDivisionError, KeyboardInterrupt, SystemExit, StopIteration, MemoryError, RuntimeError)


class Callbacks:
    """User functions in Python that delegate to the recorded functions."""

    def __init__(self, c, fun):
        self.c, self.fun = c, fun
        self.d = fun.dims()
        self.kept = []
        self.keep = c.r.random() < 0.2
        self.scribble = c.r.random() < 0.3
        self.boom = None
        self.live = []

    def wrap(self, name, shapes):
        fun, c, me = self.fun, self.c, weakref.ref(self)
        inner = getattr(fun, name)
        form = c.r.randrange(6)
        kept, keep, scribble = self.kept, self.keep, self.scribble

        def call(*args):
            self_ = me()
            if len(args) != len(shapes):
                c.bad("callback-arguments", "%s is called with %d arguments" % (name, len(args)))
            for a, s in zip(args, shapes):
                if s == "k":
                    if type(a) is not int:
                        c.bad("callback-arguments", "%s: step is %r" % (name, a))
                elif s == "e":
                    if type(a) is not float:
                        c.bad("callback-arguments", "%s: slack is %r" % (name, a))
                elif not isinstance(a, np.ndarray) or a.shape != s or a.dtype != np.float64:
                    c.bad("callback-arguments", "%s: %s instead of a float array of shape %s" % (name, getattr(a, "shape", type(a)), s))
            try:
                v = inner(*args)
            except RuntimeError:
                if self_ is not None and self_.boom is not None:
                    raise self_.boom("boom in python")
                raise
            if keep and len(kept) < 400:
                kept.extend((a, a.copy()) for a in args if isinstance(a, np.ndarray) and not scribble)
            if scribble:
                for a in args:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a.fill(-3e5)
            if name == "cost":
                return v if form % 2 else np.float64(v)
            if form == 0:
                return v.tolist()
            if form == 1:
                return tuple(v.tolist())
            if form == 2:
                z = np.zeros(2 * len(v))[::2]
                z[...] = v
                return z
            if form == 3:
                return v.reshape(-1, 1)
            return v

        class Callable:
            def __init__(self, f):
                self.f = f

            def __call__(self, *a):
                return self.f(*a)

            def method(self, *a):
                return self.f(*a)

        how = c.r.randrange(4)
        if how == 0:
            f = Callable(call)
        elif how == 1:
            o = Callable(call)
            f = o.method
            self.live.append(weakref.ref(o))
            return f
        elif how == 2:
            f = lambda *a: call(*a)        # noqa: E731
        else:
            f = call
        self.live.append(weakref.ref(f))
        return f

    def check_kept(self):
        for a, was in self.kept:
            if not same(a, was):
                self.c.bad("kept-argument", "an argument array kept by a callback changed after the callback returned")
                return
        if self.kept:
            self.c.count("kept_arguments", len(self.kept))


def nonlinear(c):
    r = c.r
    seed = r.getrandbits(48)
    fa, fb = ref.Fun(seed, True), ref.Fun(seed, False)
    nx, nu, ny, ph, ch, ineq, eq = fa.dims()
    p = Pair(c, mpc.NLMPC(nx, nu, ny, ph, ch, ineq, eq), ref.NL(nx, nu, ny, ph, ch, ineq, eq))
    funs = []
    log = r.random() < 0.25
    c.sample = "NLMPC%s" % (fa.dims(),)

    def install(which, fa, fb, cb):
        ts, ti, te = fa.tols()
        tol = r.choice([1.0, 1.0, 0.0, 3.0])
        X, Y, U = (ph + 1, nx), (ph + 1, ny), (ph + 1, nu)
        if which == "f":
            f = cb.wrap("f", ((nx,), (nu,), "k"))
            p.both("setStateSpaceFunction", lambda: p.a.setStateSpaceFunction(f, ts * tol), lambda: p.b.setStateSpaceFunction(fb, ts * tol))
        elif which == "h":
            f = cb.wrap("h", ((nx,), (nu,), "k"))
            p.both("setOutputFunction", lambda: p.a.setOutputFunction(f), lambda: p.b.setOutputFunction(fb))
        elif which == "cost":
            f = cb.wrap("cost", (X, Y, U, "e"))
            p.both("setObjectiveFunction", lambda: p.a.setObjectiveFunction(f), lambda: p.b.setObjectiveFunction(fb))
        elif which == "ineqs":
            f = cb.wrap("ineqs", (X, Y, U, "e"))
            p.both("setIneqConFunction", lambda: p.a.setIneqConFunction(f, ti * tol), lambda: p.b.setIneqConFunction(fb, ti * tol))
        elif which == "eqs":
            f = cb.wrap("eqs", (X, U))
            p.both("setEqConFunction", lambda: p.a.setEqConFunction(f, te * tol), lambda: p.b.setEqConFunction(fb, te * tol))
        c.count("callbacks_installed")

    def installable(fa):
        cont, out, hasi, hase = fa.flags()
        return ["f", "cost"] + (["h"] if out else []) + (["ineqs"] if hasi and ineq else []) + (["eqs"] if hase and eq else [])

    def params():
        f = {"maximum_iteration": r.randint(1, 15), "enable_warm_start": r.random() < 0.5, "hard_constraints": r.random() < 0.5}
        for n in ("relative_ftol", "relative_xtol", "absolute_ftol", "absolute_xtol"):
            if r.random() < 0.5:
                f[n] = 10.0 ** -r.uniform(3, 9)
        if r.random() < 0.2:
            f["time_limit"] = r.choice([0.0, 1000.0, 3600.5])
        q = mpc.NLParameters()
        for n, v in f.items():
            setattr(q, n, v)
        for n, v in f.items():
            if getattr(q, n) != v:
                c.bad("parameter-field", "NLParameters.%s reads %r after %r was stored" % (n, getattr(q, n), v))
        p.both("setOptimizerParameters", lambda: p.a.setOptimizerParameters(q), lambda: p.b.setOptimizerParameters(f))
        c.count("parameters")

    def bounds():
        k = r.randrange(6)
        name, n, h = [("setStateBounds", nx, ph), ("setInputBounds", nu, ch), ("setOutputBounds", ny, ph)][k % 3]
        if n == 0:
            return
        if k < 3:
            lo, hi = limits(r, n, h, 3)
            p.setting(name, lo, hi)
        else:
            lo, hi = limits(r, n, None, 3)
            p.setting(name, lo, hi, a_slice(r, h))

    ca = Callbacks(c, fa)
    funs.append((ca, fa, fb))
    texts = []

    def act():
        if log:
            logger_ops(c, p)
        if r.random() < 0.3:
            p.check_reads()
        first = installable(fa)
        r.shuffle(first)
        todo = [(install, (w, fa, fb, ca)) for w in first]
        sX, sx, sU, su = fa.scales()
        if sX:
            todo.append((p.setting, ("setStateScale", np.array(sx))))
        if sU:
            todo.append((p.setting, ("setInputScale", np.array(su))))
        todo.append((params, ()))
        if fa.flags()[0]:
            ts = fa.ts()
            todo.append((p.setting, ("setDiscretizationSamplingTime", ts)))
        for _ in range(r.randint(0, 3)):
            todo.append((bounds, ()))
        r.shuffle(todo)
        for f, a in todo:
            f(*a)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.25:
                bounds()
            elif k < 0.4:
                params()
            elif k < 0.5:
                p.a.resetStats()
                p.b.resetStats()
                c.trace.append("resetStats")
                p.check_stats()
            elif k < 0.62:
                seed2 = r.getrandbits(48)
                ga, gb = ref.Fun(seed2, fa), ref.Fun(seed2, fb)
                cb = Callbacks(c, ga)
                todo = [w for w in installable(ga) if w in first]
                funs.append((cb, ga, gb))
                install(r.choice(todo), ga, gb, cb)
                c.count("callbacks_replaced")
            elif k < 0.7:
                refused(c, p)
            p.code = r.choice([1000] * 8 + [-1, -2, -3, -4, -5, 1, 2, 3, 4, 5, 6])
            p.tolerate = None
            for cb, _, _ in funs:
                cb.boom = None
            if r.random() < 0.2:
                cb, xa, xb = r.choice(funs)
                n = r.randint(1, 200)
                xa.throw_at(n)
                xb.throw_at(n)
                p.tolerate = "boom"
                cb.boom = r.choice((None, None) + BOOM)
            va = p.solve(values(r, nx), values(r, nu))
            for cb, xa, xb in funs:
                if p.tolerate and not xb.pending():
                    c.count("python_exceptions") if cb.boom else c.count("exceptions")
                xa.throw_at(-1)
                xb.throw_at(-1)
            p.code = 1000
            for cb, xa, xb in funs:
                if xa.digest() != xb.digest():
                    c.bad("callback-arguments", "the callbacks are invoked differently than by the C++ controller: calls and digest %s, C++ %s" % (xa.digest(), xb.digest()))
            if va is not None:
                c.nontrivial = True
            p.check_reads()
            p.check_stats()
            p.tolerate = None
        p.check_held()

    both_sides_logged(c, p, act, log)
    for cb, xa, _ in funs:
        cb.check_kept()
        c.count("callback_calls", xa.digest()[1])
    # the controller goes away: results stay, the functions are let go
    held = p.held
    refs = [w for cb, _, _ in funs for w in cb.live]
    p.a = None
    del act, install, params, bounds
    p.b = None
    gc.collect()
    alive = [w for w in refs if w() is not None]
    if alive:
        c.bad("callback-leak", "%d of %d Python functions are still referenced after the controller is gone" % (len(alive), len(refs)))
    c.count("functions_released", len(refs))
    for va, was in held:
        if not same(result(va), was):
            c.bad("result-changes", "a result reads differently after its controller is gone")


def refused(c, p):
    """calls that cannot be right are refused by both and change nothing"""
    r = c.r
    k = r.randrange(5)
    try:
        if k == 0:
            p.a.setStateBounds("low", 3)
        elif k == 1:
            p.a.optimize(np.zeros(2))
        elif k == 2:
            p.a.setOptimizerParameters({"maximum_iteration": 3})
        elif k == 3:
            p.a.setInputBounds(np.zeros((2, 2, 2)), np.zeros((2, 2, 2)))
        else:
            p.a.setLoggerLevel(1)
    except TypeError:
        c.count("refused_calls")
        return
    c.bad("accepts-nonsense", "a call with arguments of the wrong kind (%d) is accepted" % k)


def both_sides_logged(c, p, act, log):
    """the text written while both sides act: each line the module writes is written by the reference as well"""
    if not log:
        # no text is expected by default below the alert level; it is only kept out of the way
        ref.capture_begin()
        try:
            act()
        finally:
            ref.capture_end()
        return
    wa, wb = [], []
    orig = p.both

    def both(name, fa, fb, post=None):
        def rec(f, into):
            def g():
                ref.capture_begin()
                try:
                    return f()
                finally:
                    into.append(ref.capture_end())
            return g
        wa.clear()
        wb.clear()
        v = orig(name, rec(fa, wa), rec(fb, wb), post)
        if wa != wb and not p.tolerate:
            x, y = b"".join(wa), b"".join(wb)
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            c.bad("log", "%s: the module writes ...%r, C++ ...%r" % (name, x[max(0, i - 80):i + 80], y[max(0, i - 80):i + 80]))
        if wa and wa[0]:
            c.count("log_texts")
        return v
    p.both = both
    try:
        act()
    finally:
        del p.both
        p.a.setLoggerLevel(mpc.LoggerLevel.NORMAL)
        p.b.setLoggerLevel(1)
        p.a.setLoggerPrefix("")
        p.b.setLoggerPrefix("")


def linear(c):
    r = c.r
    nx, nu, ndu, ny, ph = r.randint(1, 3), r.randint(1, 2), r.choice([0, 1, 2]), r.randint(1, 3), r.randint(1, 5)
    ch = r.randint(1, ph)
    p = Pair(c, mpc.LMPC(nx, nu, ndu, ny, ph, ch), ref.Lin(nx, nu, ndu, ny, ph, ch))
    c.sample = "LMPC%s" % ((nx, nu, ndu, ny, ph, ch),)
    log = r.random() < 0.25

    def model():
        p.setting("setStateSpaceModel", values(r, nx, nx), values(r, nx, nu), values(r, ny, nx))

    def dist():
        if ndu:
            p.setting("setDisturbances", values(r, nx, ndu), values(r, ny, ndu))

    def weights():
        if r.random() < 0.5:
            p.setting("setObjectiveWeights", values(r, ny, ph, 0, 4), values(r, nu, ph, 0, 4), values(r, nu, ph, 0.1, 4))
        else:
            p.setting("setObjectiveWeights", values(r, ny, None, 0, 4), values(r, nu, None, 0, 4), values(r, nu, None, 0.1, 4), a_slice(r, ph))

    def bounds():
        name, n, h = r.choice([("setStateBounds", nx, ph), ("setInputBounds", nu, ch), ("setOutputBounds", ny, ph)])
        if r.random() < 0.5:
            lo, hi = limits(r, n, h, 4)
            p.setting(name, lo, hi)
        else:
            lo, hi = limits(r, n, None, 4)
            p.setting(name, lo, hi, a_slice(r, h))

    def scalar():
        lo, hi = -r.uniform(1, 6), r.uniform(1, 6)
        if r.random() < 0.2:
            lo, hi = -3, 4          # integers
        if r.random() < 0.5:
            p.setting("setScalarConstraint", r.randint(0, ph + 1), lo, hi, values(r, nx), values(r, nu), refname="setScalarConstraintAt")
        else:
            p.setting("setScalarConstraint", lo, hi, values(r, nx), values(r, nu), a_slice(r, ph))

    def refs():
        if r.random() < 0.5:
            p.setting("setReferences", values(r, ny, ph), values(r, nu, ph), values(r, nu, ph))
        else:
            p.setting("setReferences", values(r, ny), values(r, nu), values(r, nu), a_slice(r, ph))

    def exo():
        if ndu:
            if r.random() < 0.5:
                p.setting("setExogenousInputs", values(r, ndu, ph))
            else:
                p.setting("setExogenousInputs", values(r, ndu), a_slice(r, ph))

    def params():
        f = {"maximum_iteration": r.randint(1, 500), "enable_warm_start": r.random() < 0.6}
        for n, v in (("alpha", r.uniform(0.5, 1.9)), ("rho", 10 ** -r.uniform(1, 6)), ("eps_rel", 10 ** -r.uniform(2, 8)), ("eps_abs", 10 ** -r.uniform(2, 8)), ("eps_prim_inf", 10 ** -r.uniform(2, 6)),
                     ("eps_dual_inf", 10 ** -r.uniform(2, 6)), ("verbose", r.random() < 0.5), ("adaptive_rho", r.random() < 0.5), ("polish", r.random() < 0.5), ("time_limit", r.choice([0.0, 5.0]))):
            if r.random() < 0.6:
                f[n] = v
        q = mpc.LParameters()
        for n, v in f.items():
            setattr(q, n, v)
        for n, v in f.items():
            if getattr(q, n) != v:
                c.bad("parameter-field", "LParameters.%s reads %r after %r was stored" % (n, getattr(q, n), v))
        p.both("setOptimizerParameters", lambda: p.a.setOptimizerParameters(q), lambda: p.b.setOptimizerParameters(f))
        c.count("parameters")

    def warm():
        vx = p.both("getSolverWarmStartPrimal", p.a.getSolverWarmStartPrimal, p.b.getSolverWarmStartPrimal)
        vy = p.both("getSolverWarmStartDual", p.a.getSolverWarmStartDual, p.b.getSolverWarmStartDual)
        c.count("warm_vectors")
        if vx and r.random() < 0.7:
            x = [v + r.uniform(-1, 1) for v in vx]
            y = [v + r.uniform(-1, 1) for v in vy]
            p.both("setSolverWarmStart", lambda: p.a.setSolverWarmStart(list(x), list(y)), lambda: p.b.setSolverWarmStart(x, y))
            p.both("getSolverWarmStartPrimal", p.a.getSolverWarmStartPrimal, p.b.getSolverWarmStartPrimal)
            p.both("getSolverWarmStartDual", p.a.getSolverWarmStartDual, p.b.getSolverWarmStartDual)

    def act():
        if log:
            logger_ops(c, p)
        if r.random() < 0.2:
            p.check_reads()
        ops = [model, weights] + [r.choice([dist, weights, bounds, bounds, scalar, refs, exo, params]) for _ in range(r.randint(2, 9))]
        r.shuffle(ops)
        for o in ops:
            o()
        for _ in range(r.randint(1, 4)):
            for _ in range(r.randint(0, 3)):
                r.choice([model, dist, weights, bounds, scalar, refs, exo, params, warm, warm])()
            if r.random() < 0.1:
                p.a.resetStats()
                p.b.resetStats()
                c.trace.append("resetStats")
                p.check_stats()
            if r.random() < 0.15:
                refused(c, p)
            p.code = r.choice([1000] * 8 + [1, 2, 3, 4, -2, -3, -4, -6, -7, -10])
            va = p.solve(values(r, nx), values(r, nu))
            p.code = 1000
            if va is not None:
                c.nontrivial = True
            p.check_reads()
            p.check_stats()
            if r.random() < 0.4:
                warm()
        p.check_held()

    both_sides_logged(c, p, act, log)
    held = p.held
    p.a = p.b = None
    gc.collect()
    for va, was in held:
        if not same(result(va), was):
            c.bad("result-changes", "a result reads differently after its controller is gone")


def surface(c):
    """names and values of everything exported, defaults of the parameters, slices"""
    r = c.r
    for cls, vals in ref.enums().items():
        e = getattr(mpc, cls, None)
        for n, v in vals.items():
            if e is None or not hasattr(e, n) or int(getattr(e, n)) != v:
                c.bad("enum", "%s.%s is %s in the module and %d in C++" % (cls, n, getattr(e, n, None), v))
            c.obs((cls, n, v))
            c.count("enumerators")
    for cls, d in zip(("NLParameters", "LParameters"), ref.defaults()):
        q = getattr(mpc, cls)()
        for n, v in d.items():
            if getattr(q, n) != v or type(getattr(q, n)) is not type(v):
                c.bad("parameter-default", "%s.%s is %r in the module and %r in C++" % (cls, n, getattr(q, n), v))
            c.count("parameter_defaults")
        # storing one field changes that field only
        n = r.choice(sorted(d))
        new = (not d[n]) if isinstance(d[n], bool) else d[n] + r.randint(1, 5)
        setattr(q, n, new)
        for k, v in d.items():
            if getattr(q, k) != (new if k == n else v):
                c.bad("parameter-field", "%s.%s is %r after %s was set to %r" % (cls, k, getattr(q, k), n, new))
        c.obs((cls, n, new))
    c.nontrivial = True
    c.sample = "enumerators, parameter defaults and fields"


CASES = {"C40N": nonlinear, "C40L": linear, "C40S": surface}


def esc(s):
    return s.replace("\n", " ").replace("\t", " ").replace("\r", " ")


def main():
    a = dict(zip([x[2:] for x in sys.argv[1::2]], sys.argv[2::2]))
    if a["case"] not in CASES:
        sys.exit(3)
    out = open(a["out"], "a")
    counters, samples = {}, 0
    for k in range(int(a["from"]), int(a["to"])):
        out.write("B\t%d\n" % k)
        out.flush()
        c = Case(int(a["seed"]), k, a["case"], a.get("tier") == "thorough")
        try:
            CASES[a["case"]](c)
        except Stop:
            pass
        except BaseException:
            c.bad("unexpected-exception", traceback.format_exc()[-900:])
        live = ref.live()
        gc.collect()
        live = ref.live()
        if live != (0, 0):
            c.bad("solver-object-leak", "solver objects alive after all controllers are gone: %s" % (live,)) if not c.viol else None
        for key, d in c.viol:
            out.write("V\t%d\t%s\t%s\n" % (k, esc(key), esc(d)))
        if c.nontrivial and samples < 2 and c.sample:
            out.write("S\t%d\t%s\n" % (k, esc(c.sample + ": " + ", ".join(c.trace[:12]))))
            samples += 1
        for q, n in c.counters.items():
            counters[q] = counters.get(q, 0) + n
        out.write("E\t%d\t%016x\t%d\n" % (k, c.hash, 1 if c.nontrivial else 0))
        out.flush()
    for q, n in counters.items():
        out.write("C\t%s\t%d\n" % (q, n))
    out.write("D\n")
    out.close()


main()

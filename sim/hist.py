"""Histories of calls on a pool of operators (shared by several properties)."""
import copy

import numpy as np

from . import catalog as C
from . import kernel as K

METHODS = ("call", "call", "prox", "prox", "prox", "prox", "proxdual", "proxdual", "grad", "grad")
# operators whose instances accept inputs of any length
ANYSIZE = ("Euclidean", "L0", "L1", "Huber", "HuberCircular", "ETP", "Geman", "Log", "Log1", "SCAD", "RelaxedMumfordShah", "QuadraticEnvelopeCard", "Box")


def anysize(sp):
    return sp["t"] in ANYSIZE and not sp.get("g") and "los" not in sp and not (sp["t"] == "L1" and isinstance(sp["sigma"], int))


BMETHODS = ("call2", "call1", "gradx", "grady", "grad", "lx", "ly", "mx", "my", "mvx", "mvy", "updatex", "updatey", "updatexy")


# -- generation --------------------------------------------------------------
def gen_pool(rng, kmax=3, exclude=(), only=None, bilinear=0.12, share=0.3, need_n=None):
    insts = []
    k = rng.randint(1, kmax)
    n = need_n if need_n is not None else rng.choice([None, None, 4, 6])
    for j in range(k):
        if rng.random() < bilinear:
            insts.append(C.gen_bilinear(rng))
            continue
        refs = [i for i, s in enumerate(insts) if s["t"] != "Bilinear" and C.xshape(s) is None and not s.get("cx")]
        if refs and rng.random() < share:
            i = rng.choice(refs)
            m = insts[i]["n"]
            w = rng.choice(["Affine", "Post", "Pre", "Adjoint", "VStack", "Sum", "Orth"])
            r = {"ref": i}
            if w == "Affine":
                s = {"t": w, "n": m, "f": r, "v": C.S(rng), "neg": False}
            elif w == "Post":
                s = {"t": w, "n": m, "f": r, "sigma": C.R(rng, 0.2, 2), "mul": False}
            elif w == "Pre":
                s = {"t": w, "n": m, "f": r, "a": C.R(rng, 0.3, 2), "b": C.S(rng)}
            elif w == "Adjoint":
                s = {"t": w, "n": m, "f": r}
            elif w == "VStack":
                s = {"t": w, "n": 2 * m, "nn": [m, m], "f": [r, dict(r)], "restr": False, "perm": 0}
            elif w == "Sum":
                s = {"t": w, "n": m, "f": [r, C.gen(rng, m, 1, only=("Box", "L1", "EuclideanBall"), cx=False)], "w": None, "warr": False, "par": rng.random() < 0.5, "ot": False, "niter": 5, "tol": 1e-9}
            else:
                s = {"t": "Orthogonal", "n": m, "q": {"t": "alias", "m": m, "n": m, "s": 0}, "f": r, "partial": rng.random() < 0.5, "b": None, "alpha": 1.0}
            s["cx"] = False
            insts.append(s)
            continue
        insts.append(C.gen(rng, n, exclude=exclude, only=only))
    return insts


TAUS = (0.1, 0.37, 0.5, 1.0, 1.0, 1.7, 3.0)
TINY = (1e-6, 3e-7, 2e-5, 1e3)


def gen_op(rng, insts, taus=None):
    i = rng.randrange(len(insts))
    sp = insts[i]
    if sp["t"] == "Bilinear":
        m = rng.choice(BMETHODS)
        return {"i": i, "m": m, "x": {"s": C.S(rng), "mode": "normal", "lay": "c"}, "tau": 1.0}
    m = rng.choice(METHODS)
    op = {"i": i, "m": m, "x": C.gen_x(rng), "tau": rng.choice(taus or TAUS)}
    if rng.random() < 0.15:
        op["reuse"] = True
    return op


SOLVERS = ("admm", "pg", "pp", "drs", "cadmm", "hqs")


def gen_ops(rng, insts, k, solve=0.0, copies=0.0, sizes=0.1, nat=0.0):
    # few distinct taus and points, so that memoised state is actually revisited
    taus = [rng.choice(TAUS) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.06:
        taus.append(rng.choice(TINY))
    for t in list(taus):
        if rng.random() < 0.3:  # nearly equal steps
            taus.append(t * (1.0 + rng.choice([4e-7, 5e-6, 1e-4, 1e-2, -2e-5, 0.4])))
    pts = [C.gen_x(rng) for _ in range(rng.randint(1, 4))]
    for p in list(pts):
        if rng.random() < 0.4:  # points a lossy key would confuse
            q = dict(p)
            q["tr"] = rng.choice(["rev", "neg", "scale", "eps", "swap"])
            if rng.random() < 0.3:
                q["lay"] = rng.choice(["c", "strided", "f32"])
            pts.append(q)
    ops = []
    for _ in range(k):
        o = gen_op(rng, insts, taus)
        sp = insts[o["i"]]
        if sp["t"] != "Bilinear":
            if rng.random() < 0.7:
                o["x"] = dict(rng.choice(pts))
            if rng.random() < sizes and anysize(sp):
                o["n"] = rng.choice([1, 3, 5, 8])
            elif rng.random() < 0.12 and anysize(sp):
                o["sh"] = rng.choice([[2, 3], [3, 3], [4, 1], [1, 5], [2, 2, 2]])
                if len(o["sh"]) == 3 and o["x"]["lay"] == "strided":
                    o["x"]["lay"] = "c"
            if rng.random() < nat:
                o["x"]["mode"] = "nan"
            if rng.random() < solve and C.xshape(sp) is None and not sp.get("cx") and sp["t"] != "Hankel":
                o["m"] = "solve"
                o["solver"] = rng.choice(SOLVERS)
                o.pop("reuse", None)
                o.pop("n", None)
                o.pop("sh", None)
                o["x"].pop("feas", None)
                o["x"]["lay"] = "c"
            if rng.random() < 0.02 and not sp.get("cx"):
                o["m"] = "moreau"
        if rng.random() < copies:
            o["m"] = "copy"
        ops.append(o)
    return ops


# -- execution -------------------------------------------------------------
def norm(v):
    """Outcome of a call as comparable plain data."""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, (tuple, list)):
        return tuple(norm(a) for a in v)
    return v


def get_input(sp, op, bufs=None):
    xs = op["x"]
    shape = C.xshape(sp)
    if op.get("sh") and anysize(sp):
        shape = tuple(op["sh"])
        n = int(np.prod(shape))
    else:
        n = op.get("n") or sp["n"]
    if xs.get("feas") and sp["t"] != "Bilinear" and not any("ref" in q for q in C.walk(sp)):
        # a point an equal operator's prox returned (a feasible one, for constraints)
        x = C.make_x(dict(xs, lay="c"), n, sp.get("cx", False), shape)
        k = K.Kernel.cur
        a = k.active if k is not None else 0
        if k is not None:
            k.active = 0
        try:
            y = C.build(sp).op.prox(x, 1.0)
            if isinstance(y, np.ndarray) and y.shape == x.shape:
                x = np.array(y)
        except Exception:
            pass
        finally:
            if k is not None:
                k.active = a
        x = C.relay(x, xs.get("lay", "c"), shape)
    else:
        x = C.make_x(xs, n, sp.get("cx", False), shape)
    if bufs is not None and op.get("reuse"):
        key = (x.shape, str(x.dtype))
        b = bufs.get(key)
        if b is None:
            bufs[key] = b = np.empty(x.shape, x.dtype)
        b[...] = x
        return b
    return x


def split_xy(sp, x):
    nx = sp["nn"] * sp["k"]
    return x[:nx], x[nx:]


def invoke(built, sp, op, x):
    """One call of the library under test."""
    o, m = built.op, op["m"]
    if sp["t"] == "Bilinear":
        a, b = split_xy(sp, x)
        a, b = a.copy(), b.copy()
        if m == "call2":
            return o(a, b)
        if m == "call1":
            return o(x)
        if m == "gradx":
            return o.gradx(a)
        if m == "grady":
            return o.grady(b)
        if m == "grad":
            return o.grad(x)
        if m == "lx":
            return o.lx(a)
        if m == "ly":
            return o.ly(b)
        if m == "mx":
            return o._matvecx(a)
        if m == "my":
            return o._matvecy(b)
        if m == "mvx":
            return o.matvec(a) if o.n != o.m else o._matvecx(a)
        if m == "mvy":
            return o.matvec(b) if o.n != o.m else o._matvecy(b)
        if m == "updatex":
            o.updatex(a)
            return None
        if m == "updatey":
            o.updatey(b)
            return None
        if m == "updatexy":
            o.updatexy(x)
            return None
        raise K.Invalid(m)
    if m == "call":
        return o(x)
    if m == "grad":
        return o.grad(x)
    if m == "prox":
        return o.prox(x, op["tau"])
    if m == "proxdual":
        return o.proxdual(x, op["tau"])
    if m == "moreau":
        from pyproximal.utils.moreau import moreau

        return bool(moreau(o, x, op["tau"], verb=False, raiseerror=False))
    raise K.Invalid(m)


def outcome(fn):
    try:
        return ("ok", norm(fn()))
    except (K.BudgetExceeded, K.Violation, K.Invalid):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def base_env():
    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    np.random.seed(12345)


def bilinear_state(case, j):
    """Updates visible to op j: list of earlier update ops of the same instance."""
    ops = case["ops"]
    return [q for q in range(j) if ops[q]["i"] == ops[j]["i"] and ops[q]["m"].startswith("update") and not ops[q].get("fault") and not ops[q].get("copy")]


def fresh_result(case, j, count=False):
    """Outcome of op j on a freshly built instance in this process."""
    op = case["ops"][j]
    sp = case["insts"][op["i"]]
    b = C.build(sp, None, case["insts"])
    if sp["t"] == "Bilinear":
        for q in bilinear_state(case, j):
            invoke(b, sp, case["ops"][q], get_input(sp, case["ops"][q]))
    x = get_input(sp, op)
    k = K.Kernel.cur
    if k is None:
        return outcome(lambda: invoke(b, sp, op, x)), 0, 0, 0
    with K.call(k) as c:
        r = outcome(lambda: invoke(b, sp, op, x))
    return r, c.nlines, c.nseams, c.nentries


def reference(case, entry=False):
    """All fresh results, in reverse order, in a pristine process.

    Reverse order: state leaking through modules or classes meets a different
    history here than in the run under test.
    """
    base_env()
    K.Kernel(3_000_000).install(entry=entry)
    out = {}
    for j in reversed(range(len(case["ops"]))):
        if case["ops"][j]["m"] == "copy":
            continue
        if case["ops"][j]["m"] == "solve":
            with K.call(K.Kernel.cur) as c:
                r = solve(case, j, None)
            out[j] = (r, c.nlines, c.nseams, c.nentries)
        else:
            out[j] = fresh_result(case, j)
    return out


def solve(case, j, pool, wrap=None):
    """A short real solver run using an instance of the pool (or a fresh one)."""
    import pyproximal as pp
    from pyproximal.optimization import primal

    op = case["ops"][j]
    sp = case["insts"][op["i"]]
    b = pool[op["i"]] if pool is not None else C.build(sp, None, case["insts"])
    x0 = C.arr(op["x"]["s"], sp["n"])
    f = pp.L2(b=C.arr(op["x"]["s"] + 1, sp["n"]), sigma=1.0)
    w = op["solver"]
    if w == "admm":
        fn = lambda: primal.ADMM(f, b.op, x0, op["tau"], niter=3)
    elif w == "pg":
        fn = lambda: primal.ProximalGradient(f, b.op, x0, tau=0.5, niter=3, acceleration="fista")
    elif w == "pp":
        fn = lambda: primal.ProximalPoint(b.op, x0, op["tau"], niter=3)
    elif w == "drs":
        fn = lambda: primal.DouglasRachfordSplitting(f, b.op, x0, op["tau"], niter=3)
    elif w == "cadmm":
        fn = lambda: primal.ConsensusADMM([f, b.op], x0, op["tau"], niter=3)
    else:
        fn = lambda: primal.HQS(f, b.op, x0, op["tau"], niter=3)
    return (wrap or outcome)(fn)


def differ(a, b, rtol=1e-9):
    """None if outcomes agree, else a short description."""
    if a[0] != b[0]:
        return "%s vs %s" % (brief(a), brief(b))
    if a[0] == "exc":
        return None if a[1] == b[1] else "%s vs %s" % (a[1], b[1])
    return vdiff(a[1], b[1], rtol)


def vdiff(a, b, rtol=1e-9):
    if type(a) is tuple or type(b) is tuple:
        if type(a) is not type(b) or len(a) != len(b):
            return "structure differs"
        for u, v in zip(a, b):
            d = vdiff(u, v, rtol)
            if d:
                return d
        return None
    if a is None or b is None:
        return None if (a is None and b is None) else "%r vs %r" % (a, b)
    ua, ub = np.asarray(a), np.asarray(b)
    if ua.shape != ub.shape:
        return "shape %s vs %s" % (ua.shape, ub.shape)
    if ua.dtype.kind != ub.dtype.kind:
        return "dtype %s vs %s" % (ua.dtype, ub.dtype)
    if ua.dtype.kind in "biu?":
        return None if np.array_equal(ua, ub) else "%s vs %s" % (ua, ub)
    if ua.dtype.kind not in "fc":
        return None if repr(a) == repr(b) else "%r vs %r" % (a, b)
    if ua.dtype.itemsize != ub.dtype.itemsize:
        return "dtype %s vs %s" % (ua.dtype, ub.dtype)
    with np.errstate(all="ignore"):
        na, nb = ~np.isfinite(ua), ~np.isfinite(ub)
        if np.any(na != nb):
            return "non-finite pattern differs: %s vs %s" % (ua, ub)
        if np.any(na) and not np.array_equal(ua[na], ub[nb], equal_nan=True):
            return "non-finite values differ"
        fa, fb = ua[~na], ub[~nb]
        if fa.size:
            sc = max(1e-300, float(np.max(np.abs(fa))), float(np.max(np.abs(fb))))
            tol = rtol if ua.dtype.itemsize >= 8 and ua.dtype != np.complex64 else max(rtol, 1e-4)
            if float(np.max(np.abs(fa - fb))) > tol * max(sc, 1e-3):
                return "max difference %.3e (scale %.3e)" % (float(np.max(np.abs(fa - fb))), sc)
    return None


def brief(o):
    s = repr(o)
    return s if len(s) < 160 else s[:157] + "..."


def describe(case, j):
    op = case["ops"][j]
    sp = case["insts"][op["i"]]
    return "call %d (%s.%s)" % (j, sp["t"], op["m"])


# -- histories -----------------------------------------------------------------
FAULTS = ("interrupt", "memory", "user", "linalg", "value", "runtime", "float", "key", "index", "attr", "zerodiv")


def gen_fault(rng):
    kind = rng.choice(["line", "line", "line", "seam", "entry"])
    exc = rng.choice(["interrupt", "memory"]) if kind == "line" else rng.choice(FAULTS)
    return {"kind": kind, "exc": exc, "frac": round(rng.random(), 4)}


def locate(fault, ref):
    """Concrete place of a fault, from the counts of the undisturbed call."""
    if fault is None or "at" in fault:
        return fault
    n = {"line": ref[1], "seam": ref[2], "entry": ref[3]}[fault["kind"]]
    kind = fault["kind"]
    if n == 0 and kind != "line":
        kind, n = "line", ref[1]
    if n == 0:
        return None
    return {"kind": kind, "exc": fault["exc"] if kind != "line" or fault["exc"] in ("interrupt", "memory") else "interrupt", "at": 1 + int(fault["frac"] * n)}


def call_args(fault):
    if fault is None:
        return {}, None
    exc = K.make_exc(fault["exc"])
    return {fault["kind"]: fault["at"], "exc": exc}, exc


def play(case, ref, k, on_op=None, start=0, pool=None):
    """Run the history on one pool; every unfaulted op must equal its fresh result."""
    insts = case["insts"]
    if pool is None:
        pool = []
        for sp in insts:
            pool.append(C.build(sp, pool, insts))
    bufs = {}
    stats = {"faulted": 0, "ops": 0}
    for j, op in enumerate(case["ops"]):
        sp = insts[op["i"]]
        if op["m"] == "copy":
            try:
                pool[op["i"]] = C.Built(copy.deepcopy(pool[op["i"]].op), sp["n"], {}, sp.get("cx", False))
            except TypeError:
                pass
            continue
        kw, exc = call_args(op.get("fault"))
        if op["m"] == "solve":
            with K.call(k, **kw):
                got = fouter(exc, lambda: solve(case, j, pool, lambda fn: outcome_fault(exc, fn)))
        else:
            x = get_input(sp, op, bufs)
            with K.call(k, **kw):
                got = fouter(exc, lambda: outcome_fault(exc, lambda: invoke(pool[op["i"]], sp, op, x)))
        stats["ops"] += 1
        if got is None:
            stats["faulted"] += 1
            continue
        if on_op is not None:
            on_op(j, got)
        d = differ(got, ref[j][0])
        if d:
            raise K.Violation("history", "%s differs from the same call on a freshly built equal operator: %s" % (describe(case, j), d))
    return stats


def fouter(exc, fn):
    """None if the injected exception ended the call."""
    try:
        return fn()
    except BaseException as e:
        if e is exc:
            return None
        raise


def outcome_fault(exc, fn):
    try:
        return ("ok", norm(fn()))
    except (K.BudgetExceeded, K.Violation, K.Invalid):
        raise
    except BaseException as e:
        if e is exc:
            raise
        if exc is not None:
            return None  # the fault turned into something else: still an aborted call
        if not isinstance(e, Exception):
            raise
        return ("exc", type(e).__name__)


def case_marks(case):
    """Structural description of a history."""
    out = []
    for op in case["ops"]:
        sp = case["insts"][op["i"]]
        f = op.get("fault")
        out.append((op["i"], sp["t"], op["m"], op["tau"] if isinstance(op["tau"], float) else 0, (f["kind"], f["exc"]) if f else None))
    import hashlib

    return hashlib.sha1(repr(out).encode()).hexdigest()[:12]


# -- concurrent use -------------------------------------------------------------
def chooser(case, sched, ntasks):
    import random

    if "switches" in sched:
        return K.explicit_chooser(sched["switches"])
    rng = random.Random(sched["seed"])
    if sched["kind"] == "pct":
        return K.pct_chooser(rng, ntasks, sched["depth"], sched["horizon"])
    return K.random_chooser(rng, sched["p"])


def gen_sched(rng, horizon=400):
    if rng.random() < 0.35:
        return {"kind": "pct", "seed": C.S(rng), "depth": rng.randint(1, 4), "horizon": rng.choice([40, 120, horizon])}
    return {"kind": "rand", "seed": C.S(rng), "p": rng.choice([0.01, 0.05, 0.15, 0.3, 0.6])}


def run_tasks(k, case, bodies, **fault):
    """Run bodies under the case's scheduler; -> Scheduler (trace concretised)."""
    sched = case["sched"]
    s = K.Scheduler(k, chooser(case, sched, len(bodies)))
    for b in bodies:
        s.spawn(b)
    s.run(**fault)
    if s.aborted:
        raise K.Violation("deadlock", "all threads blocked: %s" % s.aborted)
    return s

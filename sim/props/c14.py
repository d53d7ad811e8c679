import copy

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C14"
LEVEL = "exploration"
N = {"quick": 7000, "thorough": 200000}
RULE = "one run = a history of calls on operators with inner solvers (warm start on or off, alone, composed, copied, inside solver runs) with aborted calls and a caller who overwrites every array it is given; every prox is compared with an operator started at the previous result and, where the inner solver converges, with the exact prox"
MEASURE = "signature of operators, inner solvers, composites, methods and faults, or of the solver run"
MARKS_ARE_RUNS = False
REAL = "L2 (legacy/cg/cgls/dense), Quadratic, Nonlinear, scipy and pylops inner solvers, composites, solvers"
STUB = "matrix-free linear operators, user functions of Nonlinear, faults, the scribbling caller"
ASSUME = [
    "after an aborted prox the next start may be the old result or the one the aborted call was computing",
    "inner accuracy: 1e-6 for L2 (inner tolerances tightened), 1e-4 for Quadratic and Nonlinear, relative to the largest magnitude involved",
]
KINDS = ("L2", "Quadratic", "Nonlinear")


def warm_op(rng, n, conv):
    while True:
        t = rng.choice(("L2", "L2", "L2", "Quadratic", "Nonlinear"))
        sp = C.gen(rng, n, 1, only=(t,), cx=False)
        sp["warm"] = rng.random() < 0.75
        if t == "L2":
            if sp["mode"] not in ("free", "dense") or (sp["mode"] == "dense" and rng.random() < 0.7):
                continue
            if sp["mode"] == "free":
                sp["niter"] = 300 if conv else rng.choice([1, 2, 3])
                if conv:
                    sp["kws"] = {"atol": 1e-13, "btol": 1e-13} if sp["solver"] == "legacy" else {"tol": 1e-22}
            if sp["op"]["t"] == "alias":
                continue
        if t == "Quadratic":
            if sp["mode"] not in ("free", "dense", "nob"):
                continue
            sp["niter"] = 300 if conv else rng.choice([1, 2, 3])
        if t == "Nonlinear":
            sp["niter"] = 300 if conv else rng.choice([1, 2, 3])
        return sp


def gen(rng, idx, tier):
    conv = rng.random() < 0.5
    if rng.random() < 0.35:
        return gen_solver(rng, conv)
    n = rng.choice([3, 4, 4, 6, 8])
    insts = [warm_op(rng, n, conv) for _ in range(rng.choice([1, 1, 2, 2]))]
    base = len(insts)
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = {"ref": rng.randrange(base)}
        w = rng.choice(["Affine", "Post", "Pre", "Adjoint", "VStack", "Orth"])
        if w == "Affine":
            s = {"t": w, "n": n, "f": r, "v": C.S(rng), "neg": False}
        elif w == "Post":
            s = {"t": w, "n": n, "f": r, "sigma": C.R(rng, 0.2, 2), "mul": False}
        elif w == "Pre":
            s = {"t": w, "n": n, "f": r, "a": C.R(rng, 0.3, 2), "b": C.S(rng)}
        elif w == "Adjoint":
            s = {"t": w, "n": n, "f": r}
        elif w == "VStack":
            s = {"t": w, "n": 2 * n, "nn": [n, n], "f": [r, {"ref": rng.randrange(base)}], "restr": False, "perm": 0}
        else:
            s = {"t": "Orthogonal", "n": n, "q": {"t": "alias", "m": n, "n": n, "s": 0}, "f": r, "partial": rng.random() < 0.5, "b": None, "alpha": 1.0}
        s["cx"] = False
        insts.append(s)
    ops = []
    taus = [rng.choice(H.TAUS) for _ in range(2)]
    for _ in range(rng.randint(2, 9)):
        m = rng.choice(["prox", "prox", "prox", "prox", "proxdual", "call", "grad", "copy"])
        op = {"i": rng.randrange(len(insts)), "m": m, "x": C.gen_x(rng), "tau": rng.choice(taus), "scrib": rng.random() < 0.5}
        op["x"]["lay"] = rng.choice(["c", "c", "c", "f32", "strided"])
        if op["x"]["mode"] == "large":
            op["x"]["mode"] = "normal"
        if rng.random() < 0.15:
            op["x"]["again"] = True
        if m != "copy" and rng.random() < 0.2:
            op["fault"] = H.gen_fault(rng)
        ops.append(op)
    for a, b in zip(ops, ops[1:]):
        if rng.random() < 0.2:
            b["x"] = dict(a["x"])
    return {"insts": insts, "ops": ops, "conv": conv}


def gen_solver(rng, conv):
    while True:
        spec = V.gen(rng, V2.EVERY, niters=(2, 3, 5, 8), plain=True)
        q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
        if spec.get("cx") or spec["solver"] in ("PALM", "iPALM", "Segment", "SR3", "Bregman", "PGBilinear") or q.get("bt") or spec["n"] < 2:
            continue
        done = False
        for k in ("f", "g"):
            c = q.get(k)
            if isinstance(c, dict) and c.get("c") in ("sim", "cat") and c["n"] >= 2 and rng.random() < 0.8:
                q[k] = {"c": "cat", "sp": warm_op(rng, c["n"], conv), "n": c["n"]}
                done = True
        if "fs" in q:
            for i, c in enumerate(q["fs"]):
                if c["n"] >= 2 and rng.random() < 0.8 and q["solver"] in ("PPXA", "ConsensusADMM"):
                    q["fs"][i] = {"c": "cat", "sp": warm_op(rng, c["n"], conv), "n": c["n"]}
                    done = True
        if done:
            break
    runs = []
    for _ in range(rng.choice([1, 2, 2])):
        f = None
        if rng.random() < 0.35:
            f = {"kind": rng.choice(["line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)}
        runs.append({"fault": f, "scrib": rng.random() < 0.5})
    return {"spec": spec, "runs": runs, "conv": conv}


# -- watching --------------------------------------------------------------
class Off:
    def __enter__(self):
        self.k = K.Kernel.cur
        self.a = self.k.active
        self.k.active = 0

    def __exit__(self, *a):
        self.k.active = self.a


def twin(sp, x0):
    """Equal operator that starts its inner solver at x0 and never warm starts."""
    op = C.build(dict(sp, warm=False)).op
    op.x0 = None if x0 is None else np.array(x0)
    return op


def exact(sp, x, tau):
    """The prox itself, in plain numpy."""
    n, t = sp["n"], sp["t"]
    x = np.array(x, dtype=float)
    if t == "L2":
        A = C.linop_mat(sp["op"])
        b = C.arr(sp["b"], sp["op"]["m"])
        y = x + tau * sp["sigma"] * A.T @ b
        if sp["q"] is not None:
            y = y - tau * sp["alpha"] * C.arr(sp["q"], n)
        return np.linalg.solve(np.eye(n) + tau * sp["sigma"] * A.T @ A, y), 1e-6
    if t == "Quadratic":
        A = C.linop_mat(sp["op"])
        b = C.arr(sp["b"], n) if sp["mode"] != "nob" else 0.0
        return np.linalg.solve(np.eye(n) + tau * A, x - tau * b), 1e-4
    a = sp["a"]
    lo, hi = np.minimum(x, 0.0), np.maximum(x, 0.0)
    for _ in range(200):  # monotone scalar equations
        m = 0.5 * (lo + hi)
        up = a * np.sinh(a * m) + (m - x) / tau > 0
        hi = np.where(up, m, hi)
        lo = np.where(up, lo, m)
    return 0.5 * (lo + hi), 1e-4


class Watch:
    def __init__(self, sp, conv):
        self.sp = sp
        self.conv = conv and (sp.get("niter", 0) == 300 or sp.get("mode") in ("dense", "nob"))
        x0 = sp["x0"] if "x0" in sp else None
        self.starts = [None if x0 is None else C.arr(x0, sp["n"])]
        self.depth = 0
        self.big = 1.0
        self.tainted = False  # a non-finite input may stay in the warm start


STATS = {}


def spy(op, sp, conv):
    base = type(op)

    class Spy(base):
        def prox(self, x, tau, *a, **kw):
            w = self._watch
            if w.depth:
                return base.prox(self, x, tau, *a, **kw)
            with Off():
                xc = np.array(x)
                w.tainted = w.tainted or not (np.all(np.isfinite(xc)) and float(np.max(np.abs(xc))) < 1e6)
                exp = []
                for s in w.starts:
                    e = H.outcome(lambda: twin(w.sp, s).prox(xc.copy(), tau))
                    if e[0] != "ok":
                        raise K.Invalid("inner solver: %s" % (e[1],))
                    exp.append(e[1])
            w.depth = 1
            try:
                y = base.prox(self, x, tau, *a, **kw)
            except BaseException:
                if w.sp["warm"]:
                    w.starts = dedupe(w.starts + [np.array(e) for e in exp])
                raise
            finally:
                w.depth = 0
            with Off():
                STATS["prox judged"] = STATS.get("prox judged", 0) + 1
                why = None
                for e in exp:
                    why = H.vdiff(np.asarray(y), np.asarray(e), 1e-6 if not w.conv else 1e-5)
                    if why is None:
                        break
                if why is not None and not (w.conv and close(w, xc, tau, y)[0]):
                    raise K.Violation("start", "prox of %s (%s) is not what its inner solver gives from %s: %s" % (w.sp["t"], w.sp.get("solver", w.sp.get("mode", w.sp.get("how"))), "the previous result" if w.sp["warm"] else "the initial guess", why))
                if w.conv and xc.dtype.itemsize >= 8 and np.all(np.isfinite(xc)) and not w.tainted:
                    ok, d = close(w, xc, tau, y)
                    STATS["prox compared with the exact one"] = STATS.get("prox compared with the exact one", 0) + 1
                    if not ok and why is None and not np.isfinite(d) and max(w.big, float(np.max(np.abs(xc)))) > 30:
                        # the absolute tolerance of the inner solver is below round-off: it runs on to 0/0
                        raise K.Invalid("inner solver broke down")
                    if not ok:
                        raise K.Violation("answer", "prox of %s (%s, warm=%s) is off the exact prox by %.2e (largest input %.2e)" % (w.sp["t"], w.sp.get("solver", w.sp.get("mode", w.sp.get("how"))), w.sp["warm"], d, float(np.max(np.abs(xc)))))
                w.big = max(1.0, float(np.max(np.abs(y))) if np.all(np.isfinite(y)) else 1.0)
                if w.sp["warm"]:
                    w.starts = [np.array(y)]
            return y

    Spy.__name__ = base.__name__
    op._watch = Watch(sp, conv)
    op.__class__ = Spy
    return op


def dedupe(xs):
    out = []
    for x in xs:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out[:6]


def same(a, b):
    if a is None or b is None:
        return a is b
    return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def close(w, x, tau, y):
    e, tol = exact(w.sp, x, tau)
    if not np.all(np.isfinite(y)):
        return False, float("inf")
    if x.dtype.itemsize < 8:
        tol = max(tol, 1e-3)
    d = float(np.max(np.abs(np.asarray(y, dtype=float) - e)))
    sc = max(w.big, float(np.max(np.abs(e))), float(np.max(np.abs(x))), 1.0)
    return d <= tol * sc * (1.0 + tau), d


def pool_of(insts, conv):
    pool = []
    for sp in insts:
        b = C.build(sp, pool, insts)
        if sp["t"] in KINDS:
            spy(b.op, sp, conv)
        pool.append(b)
    return pool


def execute(case, k, faults, ctx=None):
    pool = pool_of(case["insts"], case["conv"])
    counts = {}
    held = []
    for j, op in enumerate(case["ops"]):
        sp, b = case["insts"][op["i"]], pool[op["i"]]
        if op["m"] == "copy":
            if sp["t"] in KINDS:
                pool[op["i"]] = C.Built(copy.deepcopy(b.op), b.n, {}, False)
            continue
        x = C.make_x(op["x"], sp["n"])
        if op["x"].get("again") and held and held[-1].shape == x.shape:
            x = held[-1]  # the caller feeds a result straight back
        kw, exc = H.call_args(op.get("fault") if faults else None)
        y = None
        with K.call(k, **kw) as c:
            try:
                y = H.invoke(b, sp, op, x)
            except (K.Violation, K.Invalid):
                raise
            except K.BudgetExceeded as e:
                raise K.Violation("hang", str(e))
            except BaseException as e:
                if exc is None:
                    raise K.Violation("raises", "%s raised %s: %s" % (H.describe(case, j), type(e).__name__, e))
        counts[j] = (None, c.nlines, c.nseams, c.nentries)
        if isinstance(y, np.ndarray):
            held.append(y)
            if op["scrib"] and y.flags.writeable:
                y[...] = np.nan if j % 2 else 1e3 * (1.0 + np.arange(y.size).reshape(y.shape))
                if ctx is not None:
                    ctx.faults["caller:overwrites-result"] += 1
                held.pop()
    return counts


def probe(case):
    H.base_env()
    return execute(case, K.Kernel(3_000_000).install(entry=True), False)


def run(case, ctx):
    H.base_env()
    STATS.clear()
    if "spec" in case:
        return run_solver(case, ctx)
    if any(o.get("fault") and "at" not in o["fault"] for o in case["ops"]):
        ref = ctx.isolated(probe, case)
        for j, o in enumerate(case["ops"]):
            if o.get("fault"):
                o["fault"] = H.locate(o["fault"], ref[j]) if j in ref else None
    ctx.final = case
    k = K.Kernel(3_000_000).install(entry=any((o.get("fault") or {}).get("kind") == "entry" for o in case["ops"]))
    execute(case, k, True, ctx)
    ctx.absorb(k)
    for a, b in STATS.items():
        ctx.n[a] += b
    ctx.nontrivial = bool(STATS)
    ctx.marks.add(repr(([(s["t"], s.get("solver"), s.get("mode"), s.get("how"), s.get("warm"), s.get("x0") is None) for s in case["insts"]], case["conv"], [(o["i"], o["m"], bool(o.get("fault")), o["scrib"]) for o in case["ops"]])))


# -- inside solvers ----------------------------------------------------------
def watch_env(spec, env, conv):
    q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
    n = 0
    for key in ("f", "g"):
        if isinstance(q.get(key), dict) and q[key].get("c") == "cat" and q[key]["sp"]["t"] in KINDS and "warm" in q[key]["sp"] and q[key]["sp"].get("mode") not in ("b", "none"):
            spy(env[key], q[key]["sp"], conv)
            n += 1
    for i, c in enumerate(q.get("fs", ())):
        if c.get("c") == "cat" and c["sp"]["t"] in KINDS and "warm" in c["sp"] and c["sp"].get("mode") not in ("b", "none"):
            spy(env["fs"][i], c["sp"], conv)
            n += 1
    if not n:
        raise K.Invalid("nothing warm")
    return env


def sprobe(case):
    H.base_env()
    k = K.Kernel(recur.BUDGET).install()
    env = watch_env(case["spec"], V.make_env(case["spec"]), False)
    its, res, exc, c = recur.free_run(k, case["spec"], env, two=False)
    return c.nlines, c.nseams


def run_solver(case, ctx):
    spec = case["spec"]
    tot = None
    for r in case["runs"]:
        f = r["fault"]
        if f and "at" not in f:
            tot = tot or ctx.isolated(sprobe, case)
            n = tot[0] if f["kind"] == "line" else tot[1]
            r["fault"] = dict(f, at=1 + int(f["frac"] * n)) if n else None
    ctx.final = case
    k = K.Kernel(recur.BUDGET).install()
    env = watch_env(spec, V.make_env(spec), case["conv"])
    for r in case["runs"]:
        f = dict(r["fault"], obj=K.make_exc("interrupt")) if r["fault"] else None
        its, res, exc, c = recur.free_run(k, spec, env, fault=f, two=False)
        if exc is not None and not (f and exc is f["obj"]) and not isinstance(exc, (ValueError, FloatingPointError, np.linalg.LinAlgError, ZeroDivisionError)):
            raise K.Violation("raises", "%s raised %s: %s" % (spec["solver"], type(exc).__name__, exc))
        if r["scrib"] and res is not None:
            for a in res:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = -7.5e2
                    ctx.faults["caller:overwrites-result"] += 1
    ctx.absorb(k)
    for a, b in STATS.items():
        ctx.n[a + " inside solvers"] += b
    ctx.nontrivial = bool(STATS)
    ctx.marks.add((recur.signature(spec), case["conv"], tuple((bool(r["fault"]), r["scrib"]) for r in case["runs"])))

import copy

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C13"
LEVEL = "exploration"
N = {"quick": 6000, "thorough": 200000}
RULE = "one run = a history of calls on operators with iteration-dependent parameters (alone, composed, copied, shared by several composites, with calls aborted or rejected) or whole solver runs with them; a counter model watches every prox and evaluation wherever it comes from"
MEASURE = "signature of operators, composites, methods, faults, or of the solver run"
MARKS_ARE_RUNS = False
REAL = "L0, L0Ball, L10Ball, L1, L2, TV, RelaxedMumfordShah, composites, all solvers"
STUB = "parameter functions; matrix-free linear operators; faults"
ASSUME = [
    "an interrupted or rejected prox may or may not have been counted: both continuations are accepted until the next call shows which",
    "the value of the parameter function at k is compared through an operator built with that constant",
    "L1.proxdual without g does not go through prox and is only required not to advance the counter",
]
KINDS = ("L1", "L0", "L0Ball", "L10Ball", "RelaxedMumfordShah", "L2", "TV")


# -- generation --------------------------------------------------------------
def scheduled(rng, n):
    """A catalogue operator with every schedulable parameter a function of k."""
    while True:
        t = rng.choice(KINDS)
        if t == "TV" and n < 3:
            continue
        sp = C.gen(rng, n, 1, only=(t, "L1"), cx=False)
        if sp["t"] != t:
            continue
        if t == "L1":
            sp["sigma"] = C.gen_schedule(rng)
        elif t == "L0":
            sp["sigma"] = C.gen_schedule(rng)
        elif t == "L0Ball":
            sp["r"] = C.gen_schedule(rng, True, 1, max(2, n))
        elif t == "L10Ball":
            sp["r"] = C.gen_schedule(rng, True, 1, max(2, n // sp["nd"]))
        elif t == "RelaxedMumfordShah":
            sp["sigma"], sp["kappa"] = C.gen_schedule(rng), C.gen_schedule(rng)
        elif t == "TV":
            sp["niter"] = C.gen_schedule(rng, True, 1, 9)
            sp["rtol"] = 1e-8
        elif t == "L2":
            if sp["mode"] != "free" or sp["op"]["t"] in ("identity", "diag"):
                continue
            sp["niter"] = C.gen_schedule(rng, True, 1, 6)
        return sp


def gen(rng, idx, tier):
    if rng.random() < 0.4:
        return gen_solver(rng)
    n = rng.choice([3, 4, 4, 6, 6, 8])
    insts = [scheduled(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    base = len(insts)
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(base)
        r = {"ref": i}
        w = rng.choice(["Affine", "Post", "Pre", "Adjoint", "VStack", "Sum", "Orth", "Chain"])
        m = n
        if w == "Affine":
            s = {"t": w, "n": m, "f": r, "v": C.S(rng), "neg": False}
        elif w == "Post":
            s = {"t": w, "n": m, "f": r, "sigma": C.R(rng, 0.2, 2), "mul": False}
        elif w == "Pre":
            s = {"t": w, "n": m, "f": r, "a": C.R(rng, 0.3, 2), "b": C.S(rng)}
        elif w == "Adjoint":
            s = {"t": w, "n": m, "f": r}
        elif w == "Chain":
            s = {"t": w, "n": m, "f": r, "g": {"ref": rng.randrange(base)}}
        elif w == "VStack":
            s = {"t": w, "n": 2 * m, "nn": [m, m], "f": [r, {"ref": rng.randrange(base)}], "restr": False, "perm": 0}
        elif w == "Sum":
            s = {"t": w, "n": m, "f": [r, {"ref": rng.randrange(base)}], "w": None, "warr": False, "par": rng.random() < 0.5, "ot": True, "niter": 3, "tol": 1e-9}
        else:
            s = {"t": "Orthogonal", "n": m, "q": {"t": "alias", "m": m, "n": m, "s": 0}, "f": r, "partial": rng.random() < 0.5, "b": None, "alpha": 1.0}
        s["cx"] = False
        insts.append(s)
    ops = []
    k = rng.randint(2, 12)
    if rng.random() < 0.02:  # long life of one operator
        insts, k = [scheduled(rng, rng.choice([3, 4]))], rng.choice([60, 130, 260, 520])
    for _ in range(k):
        i = rng.randrange(len(insts))
        if k > 50:
            m = rng.choice(["call", "prox", "prox", "prox", "prox", "prox"])
            ops.append({"i": i, "m": m, "x": C.gen_x(rng), "tau": rng.choice(H.TAUS)})
            ops[-1]["x"]["lay"] = "c"
            continue
        m = rng.choice(["call", "call", "prox", "prox", "prox", "proxdual", "grad", "copy"]) if rng.random() < 0.9 else "reject"
        if m == "copy" and rng.random() < 0.6:
            m = "prox"
        op = {"i": i, "m": m, "x": C.gen_x(rng), "tau": rng.choice(H.TAUS)}
        op["x"]["lay"] = "c"
        if m not in ("copy", "reject") and rng.random() < 0.2:
            op["fault"] = {"kind": rng.choice(["line", "line", "seam"]), "exc": rng.choice(["interrupt", "memory"]), "frac": round(rng.random(), 4)}
        ops.append(op)
    return {"insts": insts, "ops": ops}


def gen_solver(rng):
    runs = []
    while True:
        spec = V.gen(rng, V2.EVERY, niters=(1, 2, 4, 7), plain=True)
        q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
        if spec.get("cx") or spec["solver"] in ("PALM", "iPALM", "Segment", "SR3", "Bregman", "PGBilinear") or q.get("bt"):
            continue
        done = False
        for k in ("f", "g"):
            c = q.get(k)
            if isinstance(c, dict) and c.get("c") in ("sim", "cat") and not (k == "f" and q["solver"] in ("ProximalGradient", "AndersonProximalGradient", "GeneralizedProximalGradient")):
                if rng.random() < 0.8:
                    q[k] = {"c": "cat", "sp": scheduled(rng, c["n"]), "n": c["n"]} if c["n"] >= 3 else c
                    done = done or c["n"] >= 3
        if "fs" in q and q["solver"] in ("PPXA", "ConsensusADMM"):
            for i, c in enumerate(q["fs"]):
                if c["n"] >= 3:
                    q["fs"][i] = {"c": "cat", "sp": scheduled(rng, c["n"]), "n": c["n"]}
                    done = True
        if done:
            break
    for _ in range(rng.choice([1, 2, 2, 3])):
        runs.append({"fault": {"kind": rng.choice(["line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)} if rng.random() < 0.35 else None, "show": rng.random() < 0.2})
    return {"spec": spec, "runs": runs}


# -- counter model -----------------------------------------------------------
class Off:
    """Not part of the simulated execution."""

    def __enter__(self):
        self.k = K.Kernel.cur
        self.a = self.k.active
        self.k.active = 0

    def __exit__(self, *a):
        self.k.active = self.a


def constant(sp, k):
    s = dict(sp)
    for key in ("sigma", "r", "kappa", "niter"):
        if isinstance(s.get(key), dict):
            s[key] = C.SimSchedule(s[key]).value(k)
    return C.build(s).op


class Watch:
    def __init__(self, sp):
        self.sp = sp
        self.ks = {0}  # possible numbers of prox calls so far
        self.depth = 0
        self.log = []

    def drain(self, op):
        out = []
        for key in ("sigma", "radius", "kappa", "niter"):
            s = getattr(op, key, None)
            if isinstance(s, C.SimSchedule):
                out += s.calls
                s.calls = []
        return out


STATS = {}


def spy(op, sp):
    """Make the live operator report every prox and evaluation to its Watch."""
    base = type(op)

    class Spy(base):
        def prox(self, x, tau, *a, **kw):
            w = self._watch
            if w.depth:  # an operator defining prox through itself
                return base.prox(self, x, tau, *a, **kw)
            with Off():
                w.drain(self)
                xc = np.array(x)
                cand = {k + 1 for k in w.ks}
                before = set(w.ks)
            w.depth = 1
            try:
                y = base.prox(self, x, tau, *a, **kw)
            except BaseException:
                w.ks = before | cand  # may or may not have counted
                with Off():
                    w.drain(self)
                raise
            finally:
                w.depth = 0
            with Off():
                w.ks = judge(self, w, cand, "prox", lambda o: o.prox(xc, tau), y)
            return y

        def __call__(self, x, *a, **kw):
            w = self._watch
            if w.depth:
                return base.__call__(self, x, *a, **kw)
            with Off():
                w.drain(self)
                xc = np.array(x)
            v = base.__call__(self, x, *a, **kw)
            with Off():
                w.ks = judge(self, w, set(w.ks), "evaluation", lambda o: o(xc), v)
            return v

    Spy.__name__ = base.__name__
    op._watch = Watch(sp)
    op._watch.drain(op)
    op.__class__ = Spy
    return op


def judge(op, w, cand, what, fn, got):
    args = [int(a) for a in w.drain(op)]
    t = w.sp["t"]
    STATS[what] = STATS.get(what, 0) + 1
    bad = [a for a in args if a not in cand]
    if bad:
        raise K.Violation("counter", "%s of %s number %s asked its parameter function for %s" % (what, t, sorted(cand), sorted(set(args))))
    if args:
        if len(set(args)) > 1:
            raise K.Violation("counter", "one %s of %s asked its parameter function for %s" % (what, t, sorted(set(args))))
        cand = {args[0]}
    why = None
    keep = set()
    for k in cand:
        d = H.differ(("ok", H.norm(got)), H.outcome(lambda: fn(constant(w.sp, k))), 1e-7)
        if d is None:
            keep.add(k)
        else:
            why = d
    if not keep:
        raise K.Violation("value", "%s of %s number %s differs from the operator with the constant parameter of that call: %s" % (what, t, sorted(cand), why))
    return keep


# -- runs ----------------------------------------------------------------------
def pool_of(insts):
    pool = []
    for sp in insts:
        b = C.build(sp, pool, insts)
        if sp["t"] in KINDS:
            spy(b.op, sp)
        pool.append(b)
    return pool


def execute(case, k, faults):
    pool = pool_of(case["insts"])
    counts = {}
    for j, op in enumerate(case["ops"]):
        sp = case["insts"][op["i"]]
        b = pool[op["i"]]
        if op["m"] == "copy":
            if sp["t"] in KINDS:  # composites keep their own reference
                pool[op["i"]] = C.Built(copy.deepcopy(b.op), b.n, {}, False)
            continue
        if op["m"] == "reject":
            if sp["t"] in KINDS:
                try:
                    b.op.prox(C.make_x(op["x"], sp["n"]), -op["tau"])
                    raise K.Violation("reject", "%s accepted a negative step" % sp["t"])
                except ValueError:
                    pass
            continue
        x = C.make_x(op["x"], sp["n"])
        ws = {id(p.op): set(p.op._watch.ks) for p in pool if hasattr(p.op, "_watch")}
        kw, exc = H.call_args(op.get("fault") if faults else None)
        with K.call(k, **kw) as c:
            try:
                H.invoke(b, sp, op, x)
            except (K.Violation, K.Invalid):
                raise
            except K.BudgetExceeded as e:
                raise K.Violation("hang", str(e))
            except BaseException as e:
                if exc is None and not isinstance(e, Exception):
                    raise  # an ordinary error of a composite is not this property's business
        counts[j] = (None, c.nlines, c.nseams, c.nentries)
        if sp["t"] == "L1" and op["m"] == "proxdual" and sp["g"] is None:
            b.op._watch.drain(b.op)
            if b.op._watch.ks != ws[id(b.op)]:
                raise K.Violation("counter", "the projection behind L1.proxdual counted as a prox call")
    return counts


def probe(case):
    """Counts of lines and seams of every call, undisturbed."""
    H.base_env()
    return execute(case, K.Kernel(3_000_000).install(), False)


def run(case, ctx):
    H.base_env()
    STATS.clear()
    if "spec" in case:
        return run_solver(case, ctx)
    if any(o.get("fault") and "at" not in o["fault"] for o in case["ops"]):
        ref = ctx.isolated(probe, case)
        for j, o in enumerate(case["ops"]):
            if o.get("fault") and j in ref:
                o["fault"] = H.locate(o["fault"], ref[j])
    ctx.final = case
    k = K.Kernel(3_000_000).install()
    execute(case, k, True)
    ctx.absorb(k)
    for a, b in STATS.items():
        ctx.n[a + " judged"] += b
    ctx.nontrivial = bool(STATS)
    ctx.marks.add(repr(([(s["t"], "ref" in str(s.get("f"))) for s in case["insts"]], [(o["i"], o["m"], bool(o.get("fault"))) for o in case["ops"]])))


def watch_env(spec, env):
    q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
    n = 0
    e = env
    for key in ("f", "g"):
        if isinstance(q.get(key), dict) and q[key].get("c") == "cat" and q[key]["sp"]["t"] in KINDS and sched(q[key]["sp"]):
            spy(e[key], q[key]["sp"])
            n += 1
    for i, c in enumerate(q.get("fs", ())):
        if c.get("c") == "cat" and c["sp"]["t"] in KINDS and sched(c["sp"]):
            spy(e["fs"][i], c["sp"])
            n += 1
    if not n:
        raise K.Invalid("nothing scheduled")
    return env


def sched(sp):
    return any(isinstance(sp.get(k), dict) for k in ("sigma", "r", "kappa", "niter"))


def sprobe(spec):
    H.base_env()
    k = K.Kernel(recur.BUDGET).install()
    env = watch_env(spec, V.make_env(spec))
    its, res, exc, c = recur.free_run(k, spec, env, two=False)
    return c.nlines, c.nseams


def run_solver(case, ctx):
    spec = case["spec"]
    tot = None
    for r in case["runs"]:
        f = r["fault"]
        if f and "at" not in f:
            tot = tot or ctx.isolated(sprobe, spec)
            n = tot[0] if f["kind"] == "line" else tot[1]
            r["fault"] = dict(f, at=1 + int(f["frac"] * n)) if n else None
    ctx.final = case
    k = K.Kernel(recur.BUDGET).install()
    env = watch_env(spec, V.make_env(spec))
    for r in case["runs"]:
        f = dict(r["fault"], obj=K.make_exc("interrupt")) if r["fault"] else None
        its, res, exc, c = recur.free_run(k, spec, env, fault=f, two=False, show=r["show"])
        if exc is not None and not (f and exc is f["obj"]) and not isinstance(exc, (ValueError, FloatingPointError, np.linalg.LinAlgError, ZeroDivisionError)):
            raise K.Violation("raises", "%s raised %s: %s" % (spec["solver"], type(exc).__name__, exc))
    ctx.absorb(k)
    for a, b in STATS.items():
        ctx.n[a + " judged inside solvers"] += b
    ctx.nontrivial = bool(STATS)
    ctx.marks.add((recur.signature(spec), len(case["runs"]), tuple(bool(r["fault"]) for r in case["runs"])))

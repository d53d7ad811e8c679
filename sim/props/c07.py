import numpy as np

from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C07"
LEVEL = "exploration"
N = {"quick": 7000, "thorough": 150000}
RULE = "one run = one solver execution with a tolerance compared with the documented stop, or a long execution compared with the same execution given a smaller budget and with one aborted from its callback; distinct = different option/component signature"
MEASURE = "signature of solver, options, component kinds, iteration count and kind of comparison"
MARKS_ARE_RUNS = False
REAL = "every solver of pyproximal.optimization"
STUB = "simulated proximal operators, matrix-free linear operators, callbacks"
ASSUME = ["tolerance stops are not judged when the criterion is within 1e-6 relative of the tolerance", "per-iteration sequences are truncated to the budget"]
NAMES = tuple(n for n in V2.EVERY if n != "SR3")
NOCOUNT = ("AdaptivePrimalDual", "Bregman")


def gen(rng, idx, tier):
    mode = rng.choice(["tol", "tol", "prefix", "prefix", "abort"])
    if mode == "tol":
        spec = V.gen(rng, V.TOLS + ("Bregman",), niters=(1, 2, 3, 5, 10, 15, 30), tol=True)
        return {"spec": spec, "mode": mode, "show": rng.random() < 0.2}
    spec = V.gen(rng, NAMES)
    n = spec["niter"]
    return {"spec": spec, "mode": mode, "k": rng.randint(1, n), "two": rng.random() < 0.7, "show": rng.random() < 0.25}


def last_is_result(spec, its, res):
    if not its or res is None:
        return
    if spec["solver"] == "Segment":
        res = (np.asarray(res[0]).T.ravel(),)
    for p, v in enumerate(its[-1][: len(res)]):
        d = H.vdiff(np.asarray(res[p]), v, 1e-12)
        if d:
            raise K.Violation("last", "%s: the last iterate reported is not the result returned (part %d): %s" % (spec["solver"], p, d))


def run(case, ctx):
    spec = case["spec"]
    name = spec["solver"]
    if case["mode"] == "tol":
        its = recur.run(spec, ctx, after=lambda env, its, res: last_is_result(spec, its, res))
        if its is not None:
            ctx.n["tolerance stops before the budget"] += len(its) < spec["niter"]
        return
    H.base_env()
    ok, clean = recur.horizon(spec)
    k = K.Kernel(recur.BUDGET).install()
    two, show = case["two"], case["show"]
    its, res, exc, _ = recur.free_run(k, spec, two=two, show=show)
    ctx.marks.add(recur.signature(spec) + case["mode"])
    ctx.n["runs of " + name] += 1
    if not clean and ok == 0:
        raise K.Invalid("not determined numerically")
    if exc is not None or not np.all(np.isfinite(its[-1][0])):
        # judged by the refinement checks; what was reported must still be a prefix
        ctx.n["runs that end in a numerical failure"] += 1
        raise K.Invalid("numerical failure")
    last_is_result(spec, its, res)
    if name not in NOCOUNT and spec.get("tol", None) in (None, 0.0) and not (name == "PlugAndPlay" and spec["inner"].get("tol")):
        if len(its) > spec["niter"] or (len(its) < spec["niter"] and spec.get("tol", None) is None):
            raise K.Violation("count", "%s reported %d iterations for a budget of %d" % (name, len(its), spec["niter"]))
    kk = case["k"]
    if case["mode"] == "prefix":
        s2 = recur.cut(spec, kk)
        its2, res2, exc2, _ = recur.free_run(k, s2, two=two)
        ctx.absorb(k)
        if exc2 is not None:
            raise K.Violation("prefix", "%s with budget %d raised %s, with budget %d it did not" % (name, kk, type(exc2).__name__, spec["niter"]))
        last_is_result(s2, its2, res2)
        if name not in NOCOUNT and len(its2) != min(kk, len(its)):
            raise K.Violation("count", "%s reported %d iterations for a budget of %d" % (name, len(its2), kk))
        if len(its2) > len(its):
            raise K.Violation("count", "%s reported more iterations with a smaller budget" % name)
        d = recur.diff_its(its2[:ok], its, 1e-9)
        if d:
            raise K.Violation("prefix", "%s: budget %d differs from budget %d: %s" % (name, kk, spec["niter"], d))
    else:
        kk = min(kk, len(its))
        stop = K.make_exc("user", "enough")

        def cb(i, a):
            if i == kk:
                ctx.faults["callback:raises"] += 1
                raise stop

        its2, res2, exc2, _ = recur.free_run(k, spec, two=two, cb=cb)
        ctx.absorb(k)
        if exc2 is not stop:
            raise K.Violation("abort", "%s: callback %d raised, the solver %s" % (name, kk, "returned" if exc2 is None else "raised %s" % type(exc2).__name__))
        if len(its2) != kk:
            raise K.Violation("abort", "%s called the callback after it had raised" % name)
        d = recur.diff_its(its2[:ok], its, 1e-9)
        if d:
            raise K.Violation("prefix", "%s aborted at %d: %s" % (name, kk, d))
    ctx.n["iterates compared"] += len(its2)
    ctx.nontrivial = True

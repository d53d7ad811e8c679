import warnings

import numpy as np

from .. import ambient as AM
from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C19"
LEVEL = "exploration"
N = {"quick": 6500, "thorough": 90000}
RULE = "one run = a history of constructions and calls, or one solver execution, under unusual process settings, some calls aborted, settings inspected after every call and results compared with those under other settings; distinct = different (structure, settings) combination"
MEASURE = "signature of the history or solver run, and the settings in force"
MARKS_ARE_RUNS = False
REAL = "every solver, operator, projection and bilinear operator of pyproximal, gradient and Moreau tests, pylops, numpy and scipy"
STUB = "simulated clock and terminal, simulated proximal operators, projections, denoisers, matrix-free linear operators, parameter functions, callbacks"
ASSUME = ["numba's one-off compilation is done before the settings are recorded", "interrupts arrive between executed source lines of pyproximal"]


def gen(rng, idx, tier):
    c = {"amb": AM.gen(rng), "amb2": AM.gen(rng)}
    if rng.random() < 0.4:
        c["spec"] = recur.put_stateful(rng, V.gen(rng, V2.EVERY, niters=(1, 2, 3, 6)), 0.2)
        c["show"] = rng.random() < 0.5
        if rng.random() < 0.4:
            c["fault"] = {"kind": rng.choice(["line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)}
        return c
    insts = H.gen_pool(rng, kmax=3)
    ops = H.gen_ops(rng, insts, rng.randint(1, 5), solve=0.05, nat=0.05)
    for o in ops:
        if rng.random() < 0.3 and not o["m"].startswith("update"):
            o["fault"] = {"kind": rng.choice(["line", "line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)}
    c.update(insts=insts, ops=ops)
    if rng.random() < 0.3:
        c["util"] = rng.choice(["gradtest", "moreau"])
    return c


def warm_up():
    """One-off work of other libraries that is not this library's doing."""
    import pyproximal as pp

    pp.Simplex(3, 1.0, engine="numba").prox(np.ones(3), 1.0)
    pp.Simplex(6, 1.0, dims=(2, 3), axis=1, engine="numba").prox(np.ones(6), 1.0)


def results(case, amb):
    """The same workload under other settings, undisturbed."""
    warm_up()
    AM.setup(amb)
    K.Kernel(3_000_000).install(entry=True)
    k = K.Kernel.cur
    if "spec" in case:
        with K.call(k) as c:
            r = H.outcome(lambda: V.run_real(case["spec"], V.make_env(case["spec"]), show=False)[1])
        return {0: (r, c.nlines, c.nseams, c.nentries)}
    out = {}
    for j in range(len(case["ops"])):
        op = case["ops"][j]
        if op["m"] == "solve":
            with K.call(k) as c:
                r = H.solve(case, j, None)
            out[j] = (r, c.nlines, c.nseams, c.nentries)
        elif op["m"] != "copy":
            out[j] = H.fresh_result(case, j)
    return out


def run(case, ctx):
    ref = ctx.isolated(results, case, case["amb2"])
    warm_up()
    AM.setup(case["amb"])
    k = K.Kernel(recur.BUDGET).install(entry=True)
    cur = [AM.snap()]

    def check(what, random_state=True):
        now = AM.snap()
        ctx.n["inspections of process settings"] += 1
        bad = [d for d in AM.diff(cur[0], now) if random_state or "random" not in d]
        if bad:
            raise K.Violation("ambient", "%s changed: %s" % (what, ", ".join(bad)))
        cur[0] = now

    try:
        if "spec" in case:
            spec = case["spec"]
            if case.get("fault") and "at" not in case["fault"]:
                case["fault"] = H.locate(case["fault"], ref[0])
            ctx.final = case
            env = V.make_env(spec)
            check("building the operators of a run")
            its = []

            def cb(i, a):
                its.append(1)
                if len(its) <= 3:
                    check("an iteration of %s" % spec["solver"])

            kw, exc = H.call_args(case.get("fault"))
            with K.call(k, **kw):
                got = H.fouter(exc, lambda: H.outcome_fault(exc, lambda: V.run_real(spec, env, cb=cb, keep=False, show=case["show"])[1]))
            check("%s (%s)" % (spec["solver"], "aborted" if exc else "completed"))
            ctx.marks.add(recur.signature(spec) + repr(case["amb"]["g"]))
            if exc is None and not (case["show"] and got[0] == "exc"):
                try:
                    okc = recur.horizon(spec)[1]
                except Exception:
                    okc = False
                if okc:
                    d = H.differ(got, ref[0][0])
                    if d:
                        raise K.Violation("depends", "%s depends on process settings: %s" % (spec["solver"], d))
        else:
            for j, o in enumerate(case["ops"]):
                if o.get("fault") and "at" not in o["fault"] and j in ref:
                    o["fault"] = H.locate(o["fault"], ref[j])
            ctx.final = case
            pool = []
            for sp in case["insts"]:
                with K.call(k):
                    pool.append(C.build(sp, pool, case["insts"]))
                check("constructing %s" % sp["t"])
            for j, op in enumerate(case["ops"]):
                sp = case["insts"][op["i"]]
                kw, exc = H.call_args(op.get("fault"))
                if op["m"] == "copy":
                    continue
                if op["m"] == "solve":
                    with K.call(k, **kw):
                        got = H.fouter(exc, lambda: H.solve(case, j, pool, lambda fn: H.outcome_fault(exc, fn)))
                else:
                    x = H.get_input(sp, op)
                    with K.call(k, **kw):
                        got = H.fouter(exc, lambda: H.outcome_fault(exc, lambda: H.invoke(pool[op["i"]], sp, op, x)))
                check("%s (%s)" % (H.describe(case, j), "aborted" if got is None else "completed"))
                if got is not None:
                    d = H.differ(got, ref[j][0])
                    if d:
                        raise K.Violation("depends", "%s depends on process settings: %s" % (H.describe(case, j), d))
            u = case.get("util")
            if u and case["insts"][0]["t"] != "Bilinear":
                sp = case["insts"][0]
                with K.call(k):
                    if u == "gradtest":
                        from pyproximal.utils.gradtest import gradtest_proximal

                        if pool[0].op.hasgrad and C.xshape(sp) is None:
                            H.outcome(lambda: gradtest_proximal(pool[0].op, sp["n"], raiseerror=False))
                        check("gradtest_proximal", False)
                    else:
                        H.outcome(lambda: H.invoke(pool[0], sp, {"m": "moreau", "tau": 1.0, "i": 0}, H.get_input(sp, {"x": {"s": 3, "mode": "normal", "lay": "c"}})))
                        check("moreau")
            ctx.marks.add(H.case_marks(case) + repr(case["amb"]["g"]))
    finally:
        ctx.absorb(k)
    ctx.nontrivial = True

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C18"
LEVEL = "fault_enumeration"
N = {"quick": 5000, "thorough": 120000}
RULE = "one run = one solver execution or operator call in which an exception is raised at a chosen component call, callback, display write or executed line; distinct = different (structure, fault kind, exception, place) combination"
MEASURE = "signature of the call, fault kind, exception type and place"
MARKS_ARE_RUNS = False
REAL = "every solver, operator, projection, bilinear operator, gradient tests and Moreau test of pyproximal; pylops operators and solvers"
STUB = "simulated terminal, simulated proximal operators, projections, denoisers, matrix-free linear operators, parameter functions, callbacks (the fault sites)"
ASSUME = ["StopIteration may arrive as the RuntimeError Python makes of it inside a generator", "interrupts arrive between executed source lines of pyproximal"]
KINDS = ("user", "value", "linalg", "runtime", "float", "key", "index", "attr", "zerodiv", "type", "notimpl", "memory", "interrupt", "exit", "timeout", "generator", "unbound", "stop")


def gen(rng, idx, tier):
    frac = round(rng.random(), 4)
    if rng.random() < 0.6:
        spec = recur.put_stateful(rng, V.gen(rng, V2.EVERY, niters=(1, 2, 3, 4, 6)), 0.3)
        kind = rng.choice(["seam", "seam", "seam", "line", "display", "callback"])
        if kind in ("display", "callback") and spec["solver"] == "SR3":
            kind = "seam"
        e = {"seam": KINDS, "line": ("interrupt", "memory", "exit"), "display": ("pipe", "enospc", "value", "interrupt"), "callback": KINDS + ("stop",)}[kind]
        return {"spec": spec, "fault": {"kind": kind, "exc": rng.choice(e), "frac": frac}, "show": kind == "display" or rng.random() < 0.2, "two": rng.random() < 0.5}
    if rng.random() < 0.08:
        kind = rng.choice(["seam", "seam", "line", "display"])
        u = rng.choice(["gradtest", "gradtest_bilinear", "moreau"])
        inst = C.gen_bilinear(rng, cx=False) if u == "gradtest_bilinear" else C.gen(rng, None, cx=False, only=("L2", "Pre", "Orthogonal", "Sum", "GenericIntersectionProx"))
        e = {"seam": KINDS, "line": ("interrupt", "memory", "exit"), "display": ("pipe", "enospc", "value", "interrupt")}[kind]
        return {"insts": [inst], "util": u, "op": {"i": 0, "m": "prox", "x": {"s": C.S(rng), "mode": "normal", "lay": "c"}, "tau": 1.0}, "fault": {"kind": kind, "exc": rng.choice(e), "frac": frac}}
    insts = H.gen_pool(rng, kmax=2, bilinear=0.15)
    if rng.random() < 0.2:
        insts = [recur.stateful(rng, rng.choice([3, 4, 6]))["sp"]]
    op = H.gen_op(rng, insts)
    op["i"] = len(insts) - 1
    if insts[-1]["t"] == "Bilinear":
        op["m"] = rng.choice(H.BMETHODS)
    elif op["m"] in H.BMETHODS and op["m"] not in H.METHODS:
        op["m"] = "prox"
    op.pop("reuse", None)
    kind = rng.choice(["seam", "seam", "seam", "line"])
    return {"insts": insts, "op": op, "fault": {"kind": kind, "exc": rng.choice(KINDS if kind == "seam" else ("interrupt", "memory", "exit")), "frac": frac}}


def target(case, k):
    """-> callable to run under a fault, its name"""
    if "spec" in case:
        spec = case["spec"]

        def fn(cb=None):
            env = V.make_env(spec)

            def go():
                V.run_real(spec, env, cb=cb, keep=False, two=case["two"], show=case["show"])

            return go

        return fn, spec["solver"]

    def fn(cb=None):
        pool = []
        for sp in case["insts"]:
            pool.append(C.build(sp, pool, case["insts"]))
        op = case["op"]
        sp = case["insts"][op["i"]]
        u = case.get("util")
        if u:
            import numpy as np
            from pyproximal.utils import gradtest as G
            from pyproximal.utils.moreau import moreau

            np.random.seed(11)
            if u == "gradtest":
                return lambda: G.gradtest_proximal(pool[0].op, sp["n"], raiseerror=False, verb=True)
            if u == "gradtest_bilinear":
                return lambda: G.gradtest_bilinear(pool[0].op, raiseerror=False, verb=True)
            x = H.get_input(sp, op)
            return lambda: moreau(pool[0].op, x, 1.0, raiseerror=False, verb=True)
        x = H.get_input(sp, op)
        return lambda: H.invoke(pool[op["i"]], sp, op, x)

    return fn, case.get("util") or "%s.%s" % (case["insts"][case["op"]["i"]]["t"], case["op"]["m"])


def run(case, ctx):
    H.base_env()
    f = case["fault"]
    fn, name = target(case, None)
    if "at" not in f:
        # an undisturbed execution tells which places exist
        cnt = ctx.isolated(count, case)
        n = cnt[f["kind"]]
        if n == 0 and f["kind"] == "seam":
            f = {"kind": "line", "exc": "interrupt", "frac": f["frac"]}
            n = cnt["line"]
        if n == 0:
            raise K.Invalid("no such place in this call")
        f = case["fault"] = {"kind": f["kind"], "exc": f["exc"], "at": 1 + int(f["frac"] * n)}
    ctx.final = case
    k = K.Kernel(recur.BUDGET).install()
    exc = K.make_exc(f["exc"])
    done = [0]

    def cb(*a):
        done[0] += 1
        if f["kind"] == "callback" and done[0] == f["at"]:
            k.count_fault("callback:" + type(exc).__name__)
            raise exc

    go = fn(cb)
    kw = {}
    if f["kind"] in ("seam", "line"):
        kw = {f["kind"]: f["at"], "exc": exc}
    elif f["kind"] == "display":
        k.stdout.fail_at = k.stdout.nwrites + f["at"]
        k.stdout.fail_exc = exc
    got = None
    try:
        with K.call(k, **kw):
            go()
    except K.BudgetExceeded as e:
        raise K.Violation("hang", "%s did not end after %s was raised" % (name, type(exc).__name__))
    except BaseException as e:
        got = e
    mark, end = k.mark, (k.steps, k.seams)
    ctx.absorb(k)
    sig = recur.signature(case["spec"]) if "spec" in case else name + repr(sorted(s["t"] for s in C.walk(case["insts"][case["op"]["i"]]) if "t" in s))
    ctx.marks.add(sig + "%s/%s/%d" % (f["kind"], f["exc"], f["at"] if f["at"] < 40 else f["at"] // 20 * 20))
    if mark is None:
        raise K.Invalid("the fault site was not reached")
    ctx.nontrivial = True
    where = {"seam": "a user component", "line": "an interrupt in pyproximal", "display": "the display stream", "callback": "the callback"}[f["kind"]]
    if got is None:
        raise K.Violation("swallowed", "%s returned normally although %s raised %s" % (name, where, type(exc).__name__))
    if isinstance(exc, StopIteration) and isinstance(got, RuntimeError) and got.__cause__ is exc:
        return  # what Python itself makes of it inside a generator
    if got is not exc:
        raise K.Violation("replaced", "%s raised %s (%s) instead of the %s raised by %s" % (name, type(got).__name__, H.brief(got), type(exc).__name__, where))
    if end[1] > mark[1] or done[0] > f["at"] and f["kind"] == "callback":
        raise K.Violation("late", "%s called user components again after %s raised %s" % (name, where, type(exc).__name__))
    if end[0] - mark[0] > 300:
        raise K.Violation("late", "%s went on for %d lines after %s raised %s" % (name, end[0] - mark[0], where, type(exc).__name__))


def count(case):
    H.base_env()
    k = K.Kernel(recur.BUDGET).install()
    fn, _ = target(case, k)
    n = [0]

    def cb(*a):
        n[0] += 1

    go = fn(cb)
    w = k.stdout.nwrites
    with K.call(k) as c:
        try:
            go()
        except Exception:
            pass
    return {"seam": c.nseams, "line": c.nlines, "callback": n[0], "display": k.stdout.nwrites - w}

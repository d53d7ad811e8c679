import numpy as np

from .. import catalog as C
from .. import guard as G
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C15"
LEVEL = "exploration"
N = {"quick": 11000, "thorough": 250000}
RULE = "one run = a history of operator, projection or utility calls, or solver runs, with every caller array (and the memory around views of it) byte-compared after each step, some arrays write-protected, and calls aborted at arbitrary points"
MEASURE = "signature of operators/solver, methods, layouts, protection, aliasing components and faults"
MARKS_ARE_RUNS = False
REAL = "all operators, projections, bilinear operators, solvers, gradient tests, moreau"
STUB = "user components (some hand back their input or an array they keep), caller memory, faults"
ASSUME = [
    "numba kernels are not run on write-protected arrays (they would be recompiled)",
    "a write to protected memory is recognised by numpy's 'read-only' error",
]
ALIAS = ("ident", "point", "linear")


def gen(rng, idx, tier):
    r = rng.random()
    if r < 0.5:
        return gen_hist(rng)
    if r < 0.63:
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append({"proj": G.gen_proj(rng), "x": C.gen_x(rng), "fault": H.gen_fault(rng) if rng.random() < 0.25 else None})
        return {"projs": ops, "ro": rng.random() < 0.4}
    return gen_solver(rng)


def gen_hist(rng):
    insts = H.gen_pool(rng, kmax=3, bilinear=0.15)
    for sp in insts:  # warm starts hold on to arrays
        for q in C.walk(sp):
            if q.get("t") in ("L2", "Quadratic", "Nonlinear") and "warm" in q:
                q["warm"] = rng.random() < 0.6
    ops = H.gen_ops(rng, insts, rng.randint(1, 6), solve=0.1, copies=0.03)
    if rng.random() < 0.4:  # every method of every instance
        ops = []
        for i, sp in enumerate(insts):
            for m in H.BMETHODS if sp["t"] == "Bilinear" else ("call", "prox", "proxdual", "grad"):
                o = H.gen_ops(rng, [sp], 1)[0]
                o.update(i=i, m=m)
                ops.append(o)
        rng.shuffle(ops)
    for o in ops:
        o.pop("reuse", None)
        if o["m"] in ("call", "prox", "grad", "proxdual") and rng.random() < 0.15:
            o["m"] = rng.choice(["gradtest", "moreau"]) if insts[o["i"]]["t"] != "Bilinear" else o["m"]
        if o["m"] not in ("copy",) and rng.random() < 0.2:
            o["fault"] = H.gen_fault(rng)
    numba = any(q.get("eng") == "numba" for sp in insts for q in C.walk(sp))
    return {"insts": insts, "ops": ops, "ro": not numba and rng.random() < 0.4, "feed": rng.random() < 0.3}


def gen_solver(rng):
    spec = V.gen(rng, V2.EVERY, niters=(1, 2, 3, 6))
    for c in recur.comps(spec):
        if c.get("c") == "sim" and c["kind"] not in ("quad",) and rng.random() < 0.35:
            c["kind"] = rng.choice(ALIAS) if not spec.get("cx") else "ident"
            c.pop("noise", None)
    if rng.random() < 0.3:
        recur.put_stateful(rng, spec, 0.4)
    for k in ("A", "Op"):
        if isinstance(spec.get(k), dict) and spec[k].get("m") == spec[k].get("n") and rng.random() < 0.1 and not spec.get("cx"):
            spec[k] = dict(spec[k], t="alias")
    runs = [{"fault": {"kind": rng.choice(["line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)} if rng.random() < 0.3 else None, "show": rng.random() < 0.2} for _ in range(rng.choice([1, 1, 2]))]
    return {"spec": spec, "runs": runs, "lay": C.S(rng), "ro": rng.random() < 0.35}


# -- histories ---------------------------------------------------------------
def one(b, sp, op, x):
    if op["m"] == "gradtest":
        from pyproximal.utils.gradtest import gradtest_bilinear, gradtest_proximal

        if sp["t"] == "Bilinear":
            return gradtest_bilinear(b.op, raiseerror=False)
        return gradtest_proximal(b.op, x.size, x=x, raiseerror=False)
    return H.invoke(b, sp, op, x)


def complain(g, what):
    bad = g.changed()
    if bad:
        raise K.Violation("write", "%s wrote into the caller's %s" % (what, bad))


def wrote(e, what, g):
    if isinstance(e, ValueError) and "read-only" in str(e):
        raise K.Violation("write", "%s tried to write into a write-protected array of the caller: %s" % (what, e))


def play(case, k, faults, ctx=None):
    g = G.Guard()
    pool = []
    with G.Recorder() as rec:
        for sp in case["insts"]:
            pool.append(C.build(sp, pool, case["insts"]))
    for nm, a in rec.got:
        g.add(nm, a)
    counts = {}
    prev = None
    if case["ro"]:
        g.readonly()
    for j, op in enumerate(case["ops"]):
        sp, b = case["insts"][op["i"]], pool[op["i"]]
        kw, exc = H.call_args(op.get("fault") if faults else None)
        if op["m"] == "copy":
            import copy

            try:
                pool[op["i"]] = C.Built(copy.deepcopy(b.op), b.n, {}, b.cx)
            except TypeError:
                pass
            continue
        what = H.describe(case, j)
        if op["m"] == "solve":
            x0 = C.arr(op["x"]["s"], sp["n"])

            def body():
                return H.solve(case, j, pool, lambda f: f())

        else:
            x = H.get_input(sp, op)
            if case["feed"] and prev is not None and prev.shape == x.shape and prev.dtype == x.dtype:
                x = prev
            g.add("input of call %d" % j, x)
            if case["ro"]:
                g.readonly()

            def body():
                return one(b, sp, op, x)

        y = None
        with K.call(k, **kw) as c:
            try:
                y = body()
            except (K.Violation, K.Invalid):
                raise
            except K.BudgetExceeded as e:
                raise K.Violation("hang", str(e))
            except BaseException as e:
                if e is not exc:
                    wrote(e, what, g)
                    if exc is None and not isinstance(e, Exception):
                        raise
        counts[j] = (None, c.nlines, c.nseams, c.nentries)
        complain(g, what)
        if isinstance(y, np.ndarray) and y.dtype.kind in "fc":
            prev = y
    if ctx is not None:
        ctx.n["caller arrays guarded"] += len(g.items)
    return counts


def probe(case):
    H.base_env()
    k = K.Kernel(3_000_000).install(entry=True)
    return play(case, k, False) if "insts" in case else play_proj(case, k, False)


def play_proj(case, k, faults, ctx=None):
    g = G.Guard()
    counts = {}
    for j, op in enumerate(case["projs"]):
        with G.Recorder() as rec:
            p, shape = G.proj(op["proj"], g.add)
        for nm, a in rec.got:
            g.add(nm, a)
        x = G.pinput(op["proj"], op["x"], shape)
        g.add("input of call %d" % j, x)
        if case["ro"]:
            g.readonly()
        kw, exc = H.call_args(op.get("fault") if faults else None)
        what = "call %d (%sProj)" % (j, op["proj"]["p"])
        with K.call(k, **kw) as c:
            try:
                p(x)
            except K.BudgetExceeded as e:
                raise K.Violation("hang", str(e))
            except BaseException as e:
                if e is not exc:
                    wrote(e, what, g)
                    if exc is None and not isinstance(e, Exception):
                        raise
        counts[j] = (None, c.nlines, c.nseams, c.nentries)
        complain(g, what)
    if ctx is not None:
        ctx.n["caller arrays guarded"] += len(g.items)
    return counts


def run(case, ctx):
    H.base_env()
    if "spec" in case:
        return run_solver(case, ctx)
    key = "insts" if "insts" in case else "projs"
    ops = case["ops"] if key == "insts" else case["projs"]
    if any(o.get("fault") and "at" not in o["fault"] for o in ops):
        ref = ctx.isolated(probe, case)
        for j, o in enumerate(ops):
            if o.get("fault"):
                o["fault"] = H.locate(o["fault"], ref[j]) if j in ref else None
    ctx.final = case
    k = K.Kernel(3_000_000).install(entry=any((o.get("fault") or {}).get("kind") == "entry" for o in ops))
    (play if key == "insts" else play_proj)(case, k, True, ctx)
    ctx.absorb(k)
    if case["ro"]:
        ctx.faults["memory:write-protected"] += 1
    ctx.nontrivial = True
    if key == "insts":
        ctx.marks.add(repr(([s["t"] for s in case["insts"]], [(o["i"], o["m"], o["x"]["lay"], bool(o.get("fault"))) for o in ops], case["ro"], case["feed"])))
    else:
        ctx.marks.add(repr(([(o["proj"]["p"], o["x"]["lay"], o["x"]["mode"], bool(o.get("fault"))) for o in ops], case["ro"])))


# -- solvers -----------------------------------------------------------------
def guarded_env(spec, lay, ro):
    g = G.Guard()
    with G.Recorder() as rec:
        env = V.make_env(spec)
    G.relayout(lay, env)
    for nm, a in rec.got:
        g.add(nm, a)
    for k, v in env.items():
        if isinstance(v, (np.ndarray, list, tuple)):
            g.add(k, v)
    if ro:
        g.readonly()
    return env, g


def sprobe(case):
    H.base_env()
    k = K.Kernel(recur.BUDGET).install()
    env, g = guarded_env(case["spec"], case["lay"], False)
    its, res, exc, c = recur.free_run(k, case["spec"], env)
    return c.nlines, c.nseams


def run_solver(case, ctx):
    spec = case["spec"]
    tot = None
    for r in case["runs"]:
        f = r["fault"]
        if f and "at" not in f:
            tot = tot or ctx.isolated(sprobe, case)
            n = tot[0] if f["kind"] == "line" else tot[1]
            r["fault"] = dict(f, at=1 + int(f["frac"] * n)) if n else None
    ctx.final = case
    env, g = guarded_env(spec, case["lay"], case["ro"])
    k = K.Kernel(recur.BUDGET).install()
    name = spec["solver"]

    def each(i, a):
        ctx.n["inspections at callbacks"] += 1
        complain(g, "%s, by callback %d," % (name, i))

    for r in case["runs"]:
        f = dict(r["fault"], obj=K.make_exc("interrupt")) if r["fault"] else None
        its, res, exc, c = recur.free_run(k, spec, env, fault=f, cb=each, show=r["show"])
        ctx.n["solver runs"] += 1
        if exc is not None:
            ctx.n["solver runs ended by " + type(exc).__name__] += 1
            wrote(exc, name, g)
        complain(g, name + (" (aborted)" if exc is not None else ""))
    ctx.absorb(k)
    if case["ro"]:
        ctx.faults["memory:write-protected"] += 1
    ctx.n["caller arrays guarded"] += len(g.items)
    for c in recur.comps(spec):
        if c.get("c") == "sim" and c["kind"] in ALIAS:
            ctx.faults["component:hands-back-its-input" if c["kind"] == "ident" else "component:hands-out-its-own-array"] += 1
    ctx.nontrivial = True
    ctx.marks.add((recur.signature(spec), case["ro"], tuple(bool(r["fault"]) for r in case["runs"])))

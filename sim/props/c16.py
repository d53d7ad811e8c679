import copy

import numpy as np

from .. import catalog as C
from .. import guard as G
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C16"
LEVEL = "exploration"
N = {"quick": 6000, "thorough": 200000}
RULE = "one run = a history of operator or projection calls, or solver runs on shared operators, by a caller who keeps every array received, checks that kept arrays never change, and overwrites some of them between calls or runs; later results must equal those of the same history without overwriting"
MEASURE = "signature of operators/solvers, methods, overwriting pattern and faults"
MARKS_ARE_RUNS = False
REAL = "all operators, projections, bilinear operators and solvers"
STUB = "the caller, user components (some hand back their input), faults"
ASSUME = [
    "a result may share memory with an argument of the same operator call or the starting point of the same run",
    "arrays are overwritten only between calls; callback arrays only after the run has ended",
]


def gen(rng, idx, tier):
    r = rng.random()
    if r < 0.45:
        insts = H.gen_pool(rng, kmax=3, bilinear=0.15)
        for sp in insts:
            for q in C.walk(sp):
                if q.get("t") in ("L2", "Quadratic", "Nonlinear") and "warm" in q:
                    q["warm"] = rng.random() < 0.7
        ops = H.gen_ops(rng, insts, rng.randint(2, 9), solve=0.15, copies=0.03, nat=0.0)
        for o in ops:
            o.pop("reuse", None)
            o["scrib"] = rng.random() < 0.6
        for a, b in zip(ops, ops[1:]):
            if rng.random() < 0.3 and a["m"] == b["m"] and a["i"] == b["i"]:
                b["x"], b["tau"] = dict(a["x"]), a["tau"]
        return {"insts": insts, "ops": ops}
    if r < 0.55:
        ps = []
        for _ in range(rng.randint(1, 3)):
            ps.append({"proj": G.gen_proj(rng), "x": [C.gen_x(rng) for _ in range(rng.randint(2, 4))], "scrib": rng.random() < 0.7})
        return {"projs": ps}
    specs = [V.gen(rng, V2.EVERY, niters=(1, 2, 3, 6, 9))]
    for c in recur.comps(specs[0]):
        if c.get("c") == "sim" and rng.random() < 0.2 and not c.get("cx"):
            c["kind"] = "ident"
        c.pop("noise", None)
    if rng.random() < 0.4:
        recur.put_stateful(rng, specs[0], 0.5)
    for _ in range(rng.choice([0, 1, 1, 2])):
        b = copy.deepcopy(specs[0])
        if rng.random() < 0.5:
            b["x0"] = C.S(rng)
        specs.append(b)
    return {
        "parts": specs,
        "scrib": [rng.random() < 0.8 for _ in specs],
        "fault": {"kind": rng.choice(["line", "seam"]), "exc": "interrupt", "frac": round(rng.random(), 4)} if rng.random() < 0.2 else None,
        "after": rng.random() < 0.7,
        "newx0": rng.random() < 0.5,
        "s": C.S(rng),
    }


class Kept:
    """References the caller keeps, with what they held when received."""

    def __init__(self):
        self.items = []

    def keep(self, name, v):
        if isinstance(v, np.ndarray):
            self.items.append((name, v, np.array(v)))
        elif isinstance(v, (tuple, list)):
            for i, x in enumerate(v):
                self.keep("%s[%d]" % (name, i), x)

    def check(self, when):
        for name, a, c in self.items:
            if a.shape != c.shape or a.tobytes() != c.tobytes():
                raise K.Violation("changed", "%s was changed by the library: %s" % (name, when))

    def scribble(self, j):
        n = 0
        for name, a, c in self.items:
            if a.size and a.flags.writeable and a.dtype.kind in "fc":
                a[...] = (np.nan, 3.25e3, -0.125)[j % 3]
                n += 1
        self.items = []
        return n


# -- histories -----------------------------------------------------------------
def play(case, scrib, ctx=None):
    pool = []
    for sp in case["insts"]:
        pool.append(C.build(sp, pool, case["insts"]))
    kept = Kept()
    out = []
    k = K.Kernel.cur
    for j, op in enumerate(case["ops"]):
        sp, b = case["insts"][op["i"]], pool[op["i"]]
        if op["m"] == "copy":
            try:
                pool[op["i"]] = C.Built(copy.deepcopy(b.op), b.n, {}, b.cx)
            except TypeError:
                pass
            out.append(None)
            continue
        raw = []

        def body(f):
            v = f()
            raw.append(v)
            return v

        with K.call(k):
            if op["m"] == "solve":
                got = H.solve(case, j, pool, lambda f: H.outcome(lambda: body(f)))
            else:
                x = H.get_input(sp, op)
                got = H.outcome(lambda: body(lambda: H.invoke(b, sp, op, x)))
        out.append(got)
        kept.check("%s" % H.describe(case, j))
        if raw:
            kept.keep("the result of call %d (%s.%s)" % (j, sp["t"], op["m"]), raw[0])
        if scrib and op["scrib"]:
            n = kept.scribble(j)
            if ctx is not None:
                ctx.faults["caller:overwrites-result"] += n
    return out


def ref_hist(case):
    H.base_env()
    K.Kernel(3_000_000).install()
    return play(case, False)


def play_proj(case, scrib, ctx=None):
    out = []
    kept = Kept()
    k = K.Kernel.cur
    ps = [G.proj(p["proj"], lambda n, a: None) for p in case["projs"]]
    for i in range(max(len(p["x"]) for p in case["projs"])):
        for j, (p, (f, shape)) in enumerate(zip(case["projs"], ps)):
            if i >= len(p["x"]):
                continue
            x = G.pinput(p["proj"], p["x"][i], shape)
            raw = []
            with K.call(k):
                got = H.outcome(lambda: raw.append(f(x)) or raw[0])
            out.append(got)
            kept.check("a later projection")
            if raw:
                kept.keep("the result of %sProj" % p["proj"]["p"], raw[0])
            if scrib and p["scrib"]:
                n = kept.scribble(i)
                if ctx is not None:
                    ctx.faults["caller:overwrites-result"] += n
    return out


def ref_proj(case):
    H.base_env()
    K.Kernel(3_000_000).install()
    return play_proj(case, False)


# -- solver runs ---------------------------------------------------------------
def chain(case, scrib, fault, ctx=None):
    parts = case["parts"]
    k = K.Kernel.cur
    env = V.make_env(parts[0])
    outs = []
    kept = Kept()
    start = {key: np.array(env[key]) for key in ("x0", "z0", "y0") if isinstance(env.get(key), np.ndarray)}
    for i, spec in enumerate(parts):
        if i and case["newx0"]:
            e2 = V.make_env(spec)
            start = {key: e2[key] for key in ("x0", "z0", "y0") if isinstance(e2.get(key), np.ndarray)}
        for key in start:
            # an array received may be the run's own starting point, handed back
            # by a user component: every run gets starting points of its own
            env[key] = np.array(start[key])
        its = []

        def cb(n, a):
            its.append(tuple(np.array(v) for v in a))
            kept.keep("%s run %d: array given to callback %d" % (spec["solver"], i, n), tuple(a))

        f = dict(fault, obj=K.make_exc("interrupt")) if fault and i == 0 else None
        _, res, exc, c = recur.free_run(k, spec, env, fault=f, cb=cb, two=True)
        aborted = f is not None and exc is f["obj"]
        kept.check("the rest of the %s run" % spec["solver"])
        if res is not None:
            kept.keep("%s run %d: returned array" % (spec["solver"], i), res)
        outs.append((its, None if res is None else [np.array(r) for r in res], type(exc).__name__ if exc is not None and not aborted else None, aborted, c.nlines, c.nseams))
        if scrib and case["scrib"][i]:
            n = kept.scribble(i)
            if ctx is not None:
                ctx.faults["caller:overwrites-arrays-received"] += n
    late = []
    if case["after"]:
        late = probe_ops(case, env, k)
        kept.check("operator calls after the run")
    return outs, late


def probe_ops(case, env, k):
    """Answers of the operators the runs have used."""
    out = []
    g = np.random.default_rng(case["s"])
    spec = case["parts"][0]
    H_ = env.get("H")
    with K.call(k):
        if H_ is not None:
            u, v = g.normal(size=H_.sizex), g.normal(size=H_.sizey)
            out.append(("bilinear operator", H.outcome(lambda: (np.array(H_.gradx(u)), np.array(H_.grady(v)), H_(u, v)))))
        for key in ("f", "g"):
            if env.get(key) is not None and hasattr(env[key], "prox"):
                q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
                c = q.get(key)
                if isinstance(c, dict) and "n" in c:
                    x = g.normal(size=c["n"])
                    out.append((key, H.outcome(lambda: np.array(env[key].prox(x, 0.7)))))
    return out


def ref_chain(case, fault):
    H.base_env()
    K.Kernel(recur.BUDGET).install()
    return chain(case, False, fault)


def run(case, ctx):
    H.base_env()
    if "insts" in case:
        if not case["insts"] or not case["ops"]:
            raise K.Invalid("empty")
        ref = ctx.isolated(ref_hist, case)
        k = K.Kernel(3_000_000).install()
        got = play(case, True, ctx)
        for j, (a, b) in enumerate(zip(got, ref)):
            if a is None:
                continue
            ctx.n["results compared"] += 1
            d = H.differ(a, b, 1e-9)
            if d:
                raise K.Violation("later", "%s changes when the caller overwrites earlier results: %s" % (H.describe(case, j), d))
        ctx.marks.add(repr(([s["t"] for s in case["insts"]], [(o["i"], o["m"], o["scrib"]) for o in case["ops"]])))
    elif "projs" in case:
        ref = ctx.isolated(ref_proj, case)
        k = K.Kernel(3_000_000).install()
        got = play_proj(case, True, ctx)
        for a, b in zip(got, ref):
            ctx.n["results compared"] += 1
            d = H.differ(a, b, 1e-9)
            if d:
                raise K.Violation("later", "a projection changes when the caller overwrites earlier results: %s" % d)
        ctx.marks.add(repr([(p["proj"]["p"], [x["mode"] for x in p["x"]], p["scrib"]) for p in case["projs"]]))
    else:
        run_chain(case, ctx)
        k = K.Kernel.cur
    ctx.absorb(k)
    ctx.nontrivial = True


def run_chain(case, ctx):
    parts = case["parts"]
    if not parts:
        raise K.Invalid("empty")
    f = case.get("fault")
    if f and "at" not in f:
        o = ctx.isolated(ref_chain, case, None)[0][0]
        n = o[4] if f["kind"] == "line" else o[5]
        case["fault"] = f = dict(f, at=1 + int(f["frac"] * n)) if n else None
    ctx.final = case
    f = {k: v for k, v in f.items()} if f else None
    ref, rlate = ctx.isolated(ref_chain, case, f)
    K.Kernel(recur.BUDGET).install()
    got, late = chain(case, True, f, ctx)
    ok = recur.horizon(parts[0])
    for i, (a, b) in enumerate(zip(got, ref)):
        ctx.n["iterates compared"] += len(a[0])
        nm = "%s run %d after the caller overwrote arrays received earlier" % (parts[i]["solver"], i)
        d = recur.diff_its(a[0], b[0], 1e-9)
        if d:
            raise K.Violation("later", "%s: %s from the run without overwriting" % (nm, d))
        if len(a[0]) != len(b[0]) or a[2:4] != b[2:4]:
            raise K.Violation("later", "%s made %d iterations (%s), without overwriting %d (%s)" % (nm, len(a[0]), a[2], len(b[0]), b[2]))
        if a[1] is not None:
            d = recur.diff_its([a[1]], [b[1]], 1e-9, "result")
            if d:
                raise K.Violation("later", "%s: %s from the run without overwriting" % (nm, d))
    for (n1, a), (n2, b) in zip(late, rlate):
        d = H.differ(a, b, 1e-9)
        if d:
            raise K.Violation("later", "after %s, %s answers differently once the caller overwrote the arrays the run returned: %s" % (parts[0]["solver"], n1, d))
    ctx.marks.add(repr((recur.signature(parts[0]), len(parts), case["scrib"], case["newx0"], bool(f))))

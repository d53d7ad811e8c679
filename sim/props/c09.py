from .. import catalog as C
from .. import guard as G
from .. import hist as H
from .. import kernel as K

ID = "C09"
LEVEL = "exploration"
N = {"quick": 4600, "thorough": 80000}
RULE = "one run = one history of calls (evaluation, prox, proxdual, grad, copies, short solver runs) on a pool of operators sharing components, every call compared with the same call on a freshly built equal operator in another process; distinct = different sequence of (operator, method, step)"
MEASURE = "sequence of (instance, operator type, method, step) of the history"
MARKS_ARE_RUNS = True
REAL = "every operator and projection pyproximal exports, composites, bilinear operators, pylops operators, the solvers used inside histories"
STUB = "matrix-free linear operators, projections, denoisers and callables supplied by the user"
ASSUME = ["results agree to 1e-9 relative (1e-4 for single precision)", "documented per-call state (warm starts, iteration-dependent parameters) is excluded here and decided by C13/C14"]


def gen(rng, idx, tier):
    if rng.random() < 0.05:
        return gen_direct(rng)
    long = rng.random() < 0.12
    insts = H.gen_pool(rng, kmax=1 if long else 3)
    k = rng.randint(40, 150) if long else rng.randint(3, 18)
    return {"insts": insts, "ops": H.gen_ops(rng, insts, k, solve=0.05, copies=0.03, nat=0.02)}


def gen_direct(rng):
    """A history of direct calls on one projection, on inputs of every shape it takes."""
    sp = G.gen_proj(rng)
    ops = []
    pts = [C.gen_x(rng) for _ in range(2)]
    for p in pts:
        p["lay"] = rng.choice(["c", "c", "f32"])
    for _ in range(rng.randint(2, 8)):
        op = {"x": dict(rng.choice(pts))}
        d = sp.get("dims")
        if sp["p"] in ("L0Ball", "L10Ball", "L01Ball", "Hankel", "NuclearBall") and rng.random() < 0.5:
            d = d or [1, sp["n"]]
            shapes = [d[::-1], [d[0], d[1] + 1], [d[0] + 1, d[1]], [d[0] * 2, d[1]], [d[0], d[1] * 2], [d[0] * d[1] // 2, 2]]
            sh = rng.choice(shapes)
            if min(sh) >= 1 and (sp["p"] != "NuclearBall" or min(sh) == min(d)):
                op["sh"] = sh
        elif sp["p"] in ("HyperPlaneBox", "Simplex", "L1Ball") and rng.random() < 0.3:
            op["sh"] = rng.choice([[1, sp["n"]], [sp["n"], 1]]) if sp["p"] == "HyperPlaneBox" else [sp["n"]]
        ops.append(op)
    return {"proj": sp, "ops": ops}


def direct(case, j, fn):
    op = case["ops"][j]
    x = G.pinput(case["proj"], op["x"], tuple(op.get("sh") or fn[1]))
    return H.outcome_fault(None, lambda: H.norm(fn[0](x)))


def fresh_direct(case):
    H.base_env()
    K.Kernel(3_000_000).install()
    return [direct(case, j, G.proj(case["proj"], lambda *a: None)) for j in range(len(case["ops"]))]


def run_direct(case, ctx):
    H.base_env()
    ref = ctx.isolated(fresh_direct, case)
    k = K.Kernel(3_000_000).install()
    try:
        fn = G.proj(case["proj"], lambda *a: None)
        for j in range(len(case["ops"])):
            d = H.differ(direct(case, j, fn), ref[j])
            if d:
                raise K.Violation("history", "call %d of %sProj differs from the same call on a fresh equal projection: %s" % (j, case["proj"]["p"], d))
            ctx.n["direct projections compared"] += 1
    finally:
        ctx.absorb(k)
    ctx.nontrivial = len(case["ops"]) > 1
    ctx.marks.add("%s|%s" % (case["proj"]["p"], [(o.get("sh"), o["x"]["mode"], o["x"]["s"]) for o in case["ops"]]))


def run(case, ctx):
    if "proj" in case:
        return run_direct(case, ctx)
    H.base_env()
    ref = ctx.isolated(H.reference, case)
    k = K.Kernel(3_000_000).install()
    try:
        st = H.play(case, ref, k)
    finally:
        ctx.absorb(k)
    ctx.n["calls compared"] += st["ops"]
    ctx.nontrivial = st["ops"] > 1
    ctx.marks.add(H.case_marks(case))

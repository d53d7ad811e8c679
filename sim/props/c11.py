import json

from .. import catalog as C
from .. import hist as H
from .. import kernel as K

ID = "C11"
LEVEL = "exploration"
N = {"quick": 3200, "thorough": 100000}
RULE = "one run = one schedule of 2-4 threads using one pool of operators, every call compared with the same call alone on a freshly built operator; distinct = different interleaving (sequence of switch points and threads)"
MEASURE = "hash of the executed context switches: (code object, line, thread switched to) in order"
MARKS_ARE_RUNS = True
REAL = "every operator and projection pyproximal exports, composites, bilinear evaluations, pylops operators, all on real threads"
STUB = "the thread scheduler, locks created after start-up, matrix-free linear operators and user callables"
ASSUME = ["threads are switched between executed source lines of pyproximal, at component calls and at lock operations, not inside a line and not inside numpy/scipy/pylops", "operators with documented per-call state (warm start, counters, Nonlinear's work attributes) are not shared"]


def gen(rng, idx, tier):
    insts = H.gen_pool(rng, kmax=2, exclude=("Nonlinear",), bilinear=0.15)
    nt = rng.choice([2, 2, 3, 4])
    tasks = []
    pts = [C.gen_x(rng) for _ in range(2)]
    for _ in range(nt):
        ops = H.gen_ops(rng, insts, rng.randint(1, 4), copies=0.0, solve=0.08)
        for o in ops:
            if o["m"].startswith("update"):
                o["m"] = rng.choice(["call2", "gradx", "grady", "grad"])
            o.pop("reuse", None)
            if o["m"] != "solve" and insts[o["i"]]["t"] != "Bilinear" and rng.random() < 0.3:
                o["x"] = dict(rng.choice(pts))
                o["x"]["lay"] = rng.choice(["c", "c", "view"])
                o["shared"] = True
                o.pop("n", None)
        tasks.append(ops)
    return {"insts": insts, "tasks": tasks, "sched": H.gen_sched(rng)}


def run(case, ctx):
    H.base_env()
    flat = {"insts": case["insts"], "ops": [o for t in case["tasks"] for o in t]}
    if not flat["ops"]:
        raise K.Invalid("no calls")
    ref = ctx.isolated(H.reference, flat)
    k = K.Kernel(3_000_000).install()
    insts = case["insts"]
    pool = []
    for sp in insts:
        pool.append(C.build(sp, pool, insts))
    shared = {}
    outs = {}
    plan, j = [], 0
    for t in case["tasks"]:
        plan.append(list(range(j, j + len(t))))
        j += len(t)
    xs = {}
    for j, op in enumerate(flat["ops"]):
        sp = insts[op["i"]]
        if op["m"] == "solve":
            continue
        x = H.get_input(sp, op)
        if op.get("shared"):
            x = shared.setdefault(json.dumps([op["x"], list(x.shape), str(x.dtype)], sort_keys=True), x)
        xs[j] = x

    def body(ix):
        def fn(task):
            for j in ix:
                op = flat["ops"][j]
                sp = insts[op["i"]]
                if op["m"] == "solve":
                    outs[j] = H.solve(flat, j, pool)
                else:
                    outs[j] = H.outcome(lambda: H.invoke(pool[op["i"]], sp, op, xs[j]))

        return fn

    try:
        s = H.run_tasks(k, case, [body(p) for p in plan])
    finally:
        ctx.absorb(k)
    ctx.final = dict(case, sched={"switches": s.trace})
    ctx.n["context switches"] += len(s.trace)
    ctx.n["calls compared"] += len(outs)
    ctx.marks.add(s.hash)
    ctx.nontrivial = len(s.trace) > len(case["tasks"])
    for t in s.tasks:
        if t.exc is not None:
            if isinstance(t.exc, K.BudgetExceeded):
                raise K.Violation("hang", str(t.exc))
            raise K.Violation("threads", "a thread died of %s: %s" % (type(t.exc).__name__, t.exc))
    for j in sorted(outs):
        d = H.differ(outs[j], ref[j][0])
        if d:
            raise K.Violation("threads", "%s made while other threads used the same operators differs from the same call alone: %s" % (H.describe(flat, j), d))

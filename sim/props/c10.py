import copy

from .. import hist as H
from .. import kernel as K

ID = "C10"
LEVEL = "fault_enumeration"
N = {"quick": 3600, "thorough": 80000}
RULE = "one run = one history of calls in which some calls are aborted at a chosen executed line, component call or library call; every completed call is compared with a fresh operator; distinct = different (operator, method, step, fault) sequence"
MEASURE = "sequence of (instance, operator type, method, step, fault kind and exception)"
MARKS_ARE_RUNS = True
REAL = "every operator and projection pyproximal exports, composites, bilinear operators, pylops operators"
STUB = "matrix-free linear operators, projections, denoisers and callables supplied by the user; the fault sites"
ASSUME = ["faults are exceptions raised at an executed line of pyproximal, on entry of a component or on entry of a Python function of numpy/scipy/pylops; hard kills lose the operator and are covered by C08", "an aborted update of a bilinear operator is excluded"]


def gen(rng, idx, tier):
    insts = H.gen_pool(rng, kmax=2, bilinear=0.2)
    ops = H.gen_ops(rng, insts, rng.randint(3, 12), solve=0.04, nat=0.06)
    out = []
    for o in ops:
        o.pop("reuse", None)
        if rng.random() < 0.45 and not o["m"].startswith("update") and o["m"] != "copy":
            f = copy.deepcopy(o)
            f["fault"] = H.gen_fault(rng)
            out.append(f)
            if rng.random() < 0.3:  # same call, another method first
                g = copy.deepcopy(o)
                if insts[g["i"]]["t"] != "Bilinear" and g["m"] in ("call", "prox", "proxdual", "grad"):
                    g["m"] = rng.choice(["call", "prox", "proxdual", "grad"])
                out.append(g)
        out.append(o)
    return {"insts": insts, "ops": out}


def run(case, ctx):
    H.base_env()
    ref = ctx.isolated(H.reference, case, True)
    for j, o in enumerate(case["ops"]):
        if o.get("fault"):
            o["fault"] = H.locate(o["fault"], ref[j])
    ctx.final = case
    k = K.Kernel(3_000_000).install(entry=True)
    try:
        st = H.play(case, ref, k)
    finally:
        ctx.absorb(k)
    ctx.n["calls compared"] += st["ops"] - st["faulted"]
    ctx.n["calls aborted"] += st["faulted"]
    ctx.nontrivial = st["faulted"] > 0
    ctx.marks.add(H.case_marks(case))

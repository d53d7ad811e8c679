import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C17"
LEVEL = "exploration"
N = {"quick": 7000, "thorough": 150000}
RULE = "one run = one solver execution with nothing observed compared with the same execution displayed, with callbacks (some evaluating the operators), extra outputs and a jumping clock, followed by calls on the operators involved; distinct = different option/component/observer signature"
MEASURE = "signature of solver, options, component kinds, iteration count and observers"
MARKS_ARE_RUNS = False
REAL = "every solver of pyproximal.optimization; real operators with counters and warm starts as components in part of the runs"
STUB = "simulated clock and terminal, simulated proximal operators, matrix-free linear operators, callbacks"
ASSUME = ["callbacks call prox only of operators without per-call state", "runs are compared up to the iterate from which the reference recursion is not numerically determined"]


def gen(rng, idx, tier):
    spec = recur.put_stateful(rng, V.gen(rng, V2.EVERY), 0.35)
    obs = {"show": rng.random() < 0.7, "cb": rng.choice([None, "one", "two", "probe", "probe"]), "out": rng.random() < 0.4}
    if not obs["show"] and not obs["cb"]:
        obs["show"] = True
    if rng.random() < 0.5:
        obs["jumps"] = {str(rng.randint(1, 6)): rng.choice([-1e6, 3600.0, 1e9, -5.0]) for _ in range(rng.randint(1, 3))}
    tail = [[rng.choice(["prox", "prox", "proxdual", "grad", "call"]), S] for S in (C.S(rng), C.S(rng))]
    if rng.random() < 0.08 and spec["niter"] < 100 and spec["n"] <= 5:
        spec = recur.cut(spec, spec["niter"])
    return {"spec": spec, "obs": obs, "tail": tail}


def comps_of(spec, env):
    """(name, component spec, live operator)"""
    q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
    for k in ("f", "g"):
        if isinstance(q.get(k), dict) and env.get(k) is not None:
            yield k, q[k], env[k]
    for k in ("fs", "gs"):
        for i, c in enumerate(q.get(k, ())):
            yield "%s[%d]" % (k, i), c, env[k][i]


def stateless(c):
    if c["c"] == "sim":
        return not c.get("noise")
    return not any(isinstance(v, dict) and "form" in v or k == "warm" and v for s in C.walk(c["sp"]) for k, v in s.items())


def tail(case, env):
    """What the operators answer after the run."""
    out = []
    for nm, c, op in comps_of(case["spec"], env):
        if c["c"] == "sim":
            out.append(("ok", (op.k, op.kd)))
        for m, s in case["tail"]:
            x = C.arr(s, c["n"], case["spec"].get("cx", False))
            out.append(H.outcome(lambda: getattr(op, m)(x, 0.7) if m.startswith("prox") else op(x) if m == "call" else op.grad(x)))
    if env.get("H") is not None:
        out.append(("ok", (np.array(env["H"].x), np.array(env["H"].y))))
    return out


def run(case, ctx):
    spec, obs = case["spec"], case["obs"]
    name = spec["solver"]
    H.base_env()
    st = any(not stateless(c) and c["c"] == "cat" for _, c, _ in comps_of(spec, V.make_env(spec)))
    if st:
        ok, clean = 10**9, True
    else:
        ok, clean = recur.horizon(spec)
    k = K.Kernel(recur.BUDGET).install()
    env = V.make_env(spec)
    extra = {}
    if name == "PrimalDual":
        extra["returny"] = False
    if name == "TwIST":
        extra["returncost"] = False
    with K.call(k):
        base = H.outcome(lambda: tuple(V.flat(V.SOLVERS[name].real(spec, env, dict(extra, callback=None) if not getattr(V.SOLVERS[name], "nocb", False) else {}))))
    t0 = tail(case, env)

    env = V.make_env(spec)
    its = []
    for a, b in obs.get("jumps", {}).items():
        k.clock.jumps[int(a) + k.clock.reads] = b
    pr = []

    def cb(*a):
        its.append(tuple(np.array(v) for v in a))
        if obs["cb"] != "probe":
            return
        ctx.faults["callback:evaluates-operators"] += 1
        x = a[0]
        for nm, c, op in comps_of(spec, env):
            v = x if x.size == c["n"] and np.isrealobj(x) == (not spec.get("cx")) else C.arr(7, c["n"], spec.get("cx", False))
            pr.append(H.outcome(lambda: op(v)))
            if stateless(c):
                pr.append(H.outcome(lambda: op.grad(v)))  # may go through prox
                if c["c"] == "sim":
                    s = op.k, op.kd
                    op.prox(v, 0.4), op.proxdual(v, 0.4)
                    op.k, op.kd = s
                else:
                    pr.append(H.outcome(lambda: op.prox(v, 0.4)))
                    pr.append(H.outcome(lambda: op.proxdual(v, 0.4)))
        for q in ("A", "Op"):
            if env.get(q) is not None:
                env[q].rmatvec(env[q].matvec(np.ones(env[q].shape[1])))

    kw = {}
    if not getattr(V.SOLVERS[name], "nocb", False):
        if obs["show"] and name != "PlugAndPlay":
            kw["show"] = True
        elif obs["show"]:
            kw["show"] = True
        kw["callback"] = cb if obs["cb"] else None
        if obs["cb"] in ("two", "probe"):
            kw.update(V.cbargs(spec, True) if name != "Bregman" else {})
        if obs["out"] and name == "PrimalDual":
            kw["returny"] = True
        elif name == "PrimalDual":
            kw["returny"] = False
        if name == "TwIST":
            kw["returncost"] = bool(obs["out"])
    with K.call(k):
        seen = H.outcome(lambda: tuple(V.flat(V.SOLVERS[name].real(spec, env, kw))))
    t1 = tail(case, env)
    k.clock.jumps.clear()
    ctx.absorb(k)
    if k.clock.njumps:
        ctx.faults["clock:jump"] += k.clock.njumps
    ctx.n["runs of " + name] += 1
    ctx.n["lines displayed"] += k.stdout.text().count("\n")
    ctx.marks.add(recur.signature(spec) + repr(sorted(obs.items(), key=str)))
    if base[0] != seen[0]:
        if not clean:
            raise K.Invalid("numerical failure")
        if seen == ("exc", "NotImplementedError"):
            raise K.Invalid("an operator has no evaluation to display")
        raise K.Violation("observe", "%s %s when observed (%s), %s otherwise" % (name, H.brief(seen), obs, H.brief(base)))
    if base[0] == "exc" or not clean:
        raise K.Invalid("numerical failure")
    a, b = base[1], seen[1]
    m = 1 if name in ("PrimalDual", "TwIST") else len(a)
    if len(b) < m or (m > 1 and len(a) != len(b)):
        raise K.Violation("observe", "%s returns %d values observed, %d otherwise" % (name, len(b), len(a)))
    for p in range(m):
        d = H.vdiff(norm1(a[p]), norm1(b[p]), 1e-9)
        if d:
            raise K.Violation("observe", "%s: result %d differs when observed (%s): %s" % (name, p, obs, d))
    for u, v in zip(t0, t1):
        d = H.differ(u, v, 1e-9)
        if d:
            raise K.Violation("operators", "%s: operators are left in another state when observed (%s): %s" % (name, obs, d))
    ctx.n["operator calls compared after a run"] += len(t0)
    ctx.nontrivial = True


def norm1(v):
    return np.array(v) if isinstance(v, (list, np.ndarray)) else v

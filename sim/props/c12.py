import copy
import json

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C12"
LEVEL = "exploration"
N = {"quick": 3600, "thorough": 90000}
RULE = "one run = two or three solver executions interleaved in threads by a seeded schedule, or nested in one another's callbacks and user operators, sharing stateless operators, linear operators, arrays, some aborted; each compared with the same execution alone; distinct = different interleaving"
MEASURE = "hash of the executed context switches, or (solvers, nesting site) for nested executions"
MARKS_ARE_RUNS = True
REAL = "every solver of pyproximal.optimization on real threads, real operators as components"
STUB = "thread scheduler and locks created after start-up, simulated proximal operators, matrix-free linear operators, callbacks"
ASSUME = ["threads are switched between executed source lines of pyproximal, at component calls and at lock operations", "shared operators hold no documented per-call state; bilinear operators (which hold the blocks of their run) are not shared"]
SHARE = ("f", "g", "fs", "gs", "A", "Op", "x0", "z0", "y0", "z", "b", "eps", "tau", "mu", "w", "den", "y", "cl", "cls", "kws")


def quiet(spec):
    for c in recur.comps(spec):
        c.pop("noise", None)
    return spec


def gen(rng, idx, tier):
    specs = [quiet(V.gen(rng, V2.EVERY, niters=(1, 2, 3, 5, 8)))]
    for _ in range(rng.choice([1, 1, 1, 2])):
        a = specs[0]
        m = rng.random()
        if m < 0.35:  # the same problem, other options where that is harmless
            b = copy.deepcopy(a)
            if isinstance(b.get("gfirst"), bool) and rng.random() < 0.5:
                b["gfirst"] = not b["gfirst"]
            if isinstance(b.get("tau"), float) and b["solver"] in ("ProximalPoint", "HQS", "ADMM", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM"):
                b["tau"] = round(b["tau"] * rng.choice([1.0, 0.5, 1.3]), 5)
            if rng.random() < 0.4:
                b["x0"] = C.S(rng)
            if rng.random() < 0.4:  # a sibling: same shapes, other data
                for k in ("A", "Op"):
                    if isinstance(b.get(k), dict) and "s" in b[k]:
                        b[k]["s"] = C.S(rng)
                if b.get("b") is not None:
                    b["b"] = C.S(rng)
        else:
            b = quiet(V.gen(rng, V2.EVERY if rng.random() < 0.5 else [a["solver"]], niters=(1, 2, 3, 5, 8)))
            if m < 0.8 and not a.get("cx") and not b.get("cx") and (a.get("nr"), a.get("tauv")) == (b.get("nr"), b.get("tauv")):
                for k in ("f", "g"):  # same operators where they fit
                    if isinstance(a.get(k), dict) and isinstance(b.get(k), dict) and a[k]["n"] == b[k]["n"] and b["solver"] == a["solver"]:
                        b[k] = copy.deepcopy(a[k])
        specs.append(b)
    case = {"parts": specs, "show": rng.random() < 0.15}
    if rng.random() < 0.7:
        case["sched"] = H.gen_sched(rng, 800)
        if rng.random() < 0.4:
            case["fault"] = {"kind": rng.choice(["line", "seam", "cb"]), "exc": "interrupt", "frac": round(rng.random(), 4), "who": rng.randrange(len(specs))}
    else:
        case["nest"] = {"kind": rng.choice(["callback", "seam", "seam"]), "frac": round(rng.random(), 4), "abort": rng.random() < 0.25, "frac2": round(rng.random(), 4)}
    return case


def alone(spec):
    H.base_env()
    k = K.Kernel(recur.BUDGET).install()
    its, res, exc, c = recur.free_run(k, spec, two=False)
    n = len(its)
    return its, None if res is None else [np.array(r) for r in res], type(exc).__name__ if exc is not None else None, c.nlines, c.nseams, n


def envs(parts):
    """Environments that share every component and array they can."""
    out = []
    pool = {}
    for spec in parts:
        env = V.make_env(spec)
        q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
        for k in SHARE:
            if env.get(k) is None:
                continue
            src = q.get(k, spec.get(k))
            if isinstance(env[k], np.ndarray):
                key = (k, env[k].shape, str(env[k].dtype), env[k].tobytes())
            elif src is not None:
                key = (k, json.dumps(src, sort_keys=True))
            else:
                continue
            if key in pool:
                env[k] = pool[key]
            else:
                pool[key] = env[k]
        # the same component in two roles is one object too
        for k in ("f", "g"):
            if isinstance(q.get(k), dict) and env.get(k) is not None:
                env[k] = pool.setdefault(("comp", json.dumps(q[k], sort_keys=True)), env[k])
        out.append(env)
    return out


def judge(spec, its, res, exc, ref, ok, clean, aborted, how):
    rits, rres, rexc = ref[:3]
    if not clean and ok == 0:
        return
    if aborted and len(its) > len(rits):
        raise K.Violation("concurrent", "%s %s made %d iterations, alone %d" % (spec["solver"], how, len(its), len(rits)))
    d = recur.diff_its(its[:ok] if not clean else its, rits, 1e-9)
    if d:
        raise K.Violation("concurrent", "%s %s: %s from the same run alone" % (spec["solver"], how, d))
    if not clean or aborted:
        return
    if (type(exc).__name__ if exc is not None else None) != rexc:
        raise K.Violation("concurrent", "%s %s ended with %r, alone with %r" % (spec["solver"], how, exc, rexc))
    if len(its) != len(rits):
        raise K.Violation("concurrent", "%s %s made %d iterations, alone %d" % (spec["solver"], how, len(its), len(rits)))
    if rres is not None:
        d = recur.diff_its([res], [rres], 1e-9, "result")
        if d:
            raise K.Violation("concurrent", "%s %s: %s from the same run alone" % (spec["solver"], how, d))


def run(case, ctx):
    H.base_env()
    parts = case["parts"]
    if len(parts) < 2:
        raise K.Invalid("one run only")
    refs, hor = [], []
    for spec in parts:
        refs.append(ctx.isolated(alone, spec))
        hor.append(recur.horizon(spec))
    E = envs(parts)
    k = K.Kernel(recur.BUDGET).install()
    out = [None] * len(parts)
    exc = None
    f = case.get("fault")
    if f and "at" not in f:
        tot = {"line": sum(r[3] for r in refs), "seam": sum(r[4] for r in refs), "cb": max(1, refs[f["who"] % len(parts)][5])}[f["kind"]]
        f = case["fault"] = dict(f, at=1 + int(f["frac"] * tot))
    if f:
        exc = K.make_exc(f["exc"])

    def solve(i, cb=None):
        spec = parts[i]
        its = []

        def keep(_, a):
            its.append(tuple(np.array(v) for v in a))
            if f and f["kind"] == "cb" and f["who"] % len(parts) == i and len(its) == f["at"]:
                ctx.faults["callback:raises"] += 1
                raise exc
            if cb is not None:
                cb(len(its))

        out[i] = (its, None, None)
        try:
            _, res = V.run_real(spec, E[i], cb=keep, keep=False, two=False, show=case["show"])
            out[i] = (its, res, None)
        except (K.BudgetExceeded, K.Violation):
            raise
        except BaseException as e:
            out[i] = (its, None, e)

    if "sched" in case:
        kw = {f["kind"]: f["at"], "exc": exc} if f and f["kind"] != "cb" else {}
        s = H.run_tasks(k, case, [(lambda i: (lambda task: solve(i)))(i) for i in range(len(parts))], **kw)
        ctx.absorb(k)
        ctx.final = dict(case, sched={"switches": s.trace})
        ctx.marks.add(s.hash)
        ctx.n["context switches"] += len(s.trace)
        ctx.nontrivial = len(s.trace) > len(parts)
        for t in s.tasks:
            if t.exc is not None:
                if isinstance(t.exc, K.BudgetExceeded):
                    raise K.Violation("hang", str(t.exc))
                raise t.exc
        how = "in a thread next to %s" % "/".join(sorted({p["solver"] for p in parts}))
    else:
        nest = case["nest"]
        a, rest = 0, list(range(1, len(parts)))
        if "at" not in nest:
            tot = max(1, refs[0][5] if nest["kind"] == "callback" else refs[0][4])
            nest = case["nest"] = dict(nest, at=1 + int(nest["frac"] * tot))
        if refs[0][5] == 0 and nest["kind"] == "callback":
            raise K.Invalid("no callback")
        state = {"n": 0, "busy": False}

        def inner():
            state["busy"] = True
            try:
                for i in rest:
                    if nest["abort"] and i == rest[0]:
                        stop = K.make_exc("user", "nested run given up")
                        at = 1 + int(nest["frac2"] * max(1, refs[i][5]))

                        def cb(n):
                            if n == at:
                                ctx.faults["callback:raises"] += 1
                                raise stop

                        solve(i, cb)
                    else:
                        solve(i)
            finally:
                state["busy"] = False

        def hook(name):
            if state["busy"] or name == "callback":
                return
            state["n"] += 1
            if state["n"] == nest["at"]:
                inner()

        def cb0(n):
            if n == nest["at"]:
                inner()

        if nest["kind"] == "seam":
            k.seam_hook = hook
        try:
            with K.call(k):
                solve(0, cb0 if nest["kind"] == "callback" else None)
        except K.BudgetExceeded as e:
            raise K.Violation("hang", str(e))
        finally:
            k.seam_hook = None
            ctx.absorb(k)
        if out[1] is None:
            raise K.Invalid("nesting site not reached")
        ctx.faults["run nested in a " + ("callback" if nest["kind"] == "callback" else "user operator")] += 1
        ctx.final = case
        ctx.marks.add((tuple(p["solver"] for p in parts), nest["kind"], nest["at"]))
        ctx.nontrivial = True
        how = "nested with %s" % "/".join(sorted({p["solver"] for p in parts}))
    for i, spec in enumerate(parts):
        its, res, e = out[i]
        aborted = e is not None and (e is exc or isinstance(e, K.SimUserError))
        ctx.n["iterates compared"] += len(its)
        judge(spec, its, res, e, refs[i], hor[i][0], hor[i][1], aborted, how)

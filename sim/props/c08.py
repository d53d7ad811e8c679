import copy
import json

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C08"
LEVEL = "fault_enumeration"
N = {"quick": 3600, "thorough": 80000}
RULE = "one run = one solver execution killed up to three times at chosen executed lines, component calls or while its callback saves, restarted in a new process (or with re-used or copied operators) from the last durable values, compared with the uninterrupted execution; distinct = different (option/component signature, crash kinds and places)"
MEASURE = "signature of solver, options, component kinds, iteration count, crash kinds and the iterations they hit"
MARKS_ARE_RUNS = False
REAL = "ProximalPoint, ProximalGradient (memoryless and on a bilinear function), HQS, DouglasRachfordSplitting, PrimalDual, PALM, PlugAndPlay around them"
STUB = "simulated checkpoint storage (atomic, torn and lost saves), process death, simulated proximal operators, matrix-free linear operators"
ASSUME = ["operators of the run answer the same question equally before and after the crash", "per-iteration sequences are resumed at the iteration of the restart"]
NAMES = ("ProximalPoint", "ProximalGradient", "ProximalGradient", "HQS", "HQS", "DouglasRachfordSplitting", "DouglasRachfordSplitting", "PrimalDual", "PrimalDual", "PALM", "PALM", "PGBilinear", "PlugAndPlay")


def memoryless(rng, q):
    nm = q["solver"]
    if nm in ("ProximalGradient", "PGBilinear"):
        if q.get("bt"):
            q["tau"] = V.R(rng, 0.02, 0.15) if nm == "PGBilinear" else V.R(rng, 0.2, 0.9)
        q.update(acc=None, bt=None)
        q.pop("wrapper", None)
    if nm == "PrimalDual" and q["gfirst"]:
        q["theta"] = 0.0
    for c in recur.comps(q):
        if isinstance(c, dict):
            c.pop("noise", None)


def gen(rng, idx, tier):
    while True:
        spec = V.gen(rng, NAMES, niters=(2, 3, 4, 5, 7, 10, 15), memoryless=True)
        q = spec["inner"] if spec["solver"] == "PlugAndPlay" else spec
        if q["solver"] in ("ADMM", "LinearizedADMM"):
            continue
        break
    spec["niter"] = min(spec["niter"], 40)
    q["niter"] = spec["niter"]
    spec["default"] = False
    memoryless(rng, q)
    q["tol"] = None
    if q["solver"] == "PrimalDual":
        q["ry"] = True
    crashes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["line", "line", "seam", "save"])
        crashes.append({"kind": kind, "frac": round(rng.random(), 4), "lose": rng.choice([0, 0, 0, 1, 2]), "life": rng.choice(["process", "process", "reuse", "copy"])})
    return {"spec": spec, "args": crashes}


def resume(spec, k, vals):
    """The run that continues after k iterations, and its starting values."""
    s = json.loads(json.dumps(spec))
    s["niter"] = spec["niter"] - k
    q = s["inner"] if s["solver"] == "PlugAndPlay" else s
    q["niter"] = s["niter"]
    if k:
        for a in ("eps", "tau", "mu"):
            if isinstance(q.get(a), list):
                q[a] = q[a][k:]
    return s


def env_for(spec, s, vals, old=None):
    e = V.make_env(s)
    if old is not None:
        for a in ("f", "g", "A", "H", "den"):
            if a in old:
                e[a] = old[a]
    if vals is None:
        return e
    nm = (s["inner"] if s["solver"] == "PlugAndPlay" else s)["solver"]
    if nm == "HQS":
        e["x0"], e["z0"] = vals[0], vals[1]
    elif nm == "DouglasRachfordSplitting":
        e["x0"] = vals[1]
    elif nm in ("PrimalDual", "PALM"):
        e["x0"], e["y0"] = vals
    else:
        e["x0"] = vals[0]
    return e


def life(spec, start, store, crash, count=None, old=None, k=None):
    """One life of the process: run until done or dead; saves go to store."""
    H.base_env()
    if k is None:
        k = K.Kernel(recur.BUDGET).install()
    vals = store[-1][1] if store else None
    s = resume(spec, start, vals)
    env = env_for(spec, s, None if vals is None else [np.array(v) for v in vals], old)
    saves = []
    n = [0]

    def cb(i, a):
        n[0] += 1
        if crash and crash["kind"] == "save" and n[0] == crash["at"]:
            raise dead  # torn: the slot being written is worthless
        saves.append((start + n[0], [np.array(v) for v in a]))

    dead = K.make_exc("crash")
    kw = {}
    if crash and crash["kind"] != "save":
        kw = {crash["kind"]: crash["at"], "exc": dead}
    out = "done"
    with K.call(k, **kw) as c:
        try:
            _, res = V.run_real(s, env, cb=cb, keep=False, two=True, **(V.cbargs(s["inner"], True) if s["solver"] == "PlugAndPlay" else {}))
        except K.BudgetExceeded as e:
            raise K.Violation("hang", str(e))
        except K.SimCrash:
            out, res = "dead", None
        except K.Violation:
            raise
        except Exception as e:
            out, res = "exc", None
            if isinstance(e, (TypeError, ValueError, AttributeError)) and start:
                raise K.Violation("restart", "%s restarted after %d iterations raised %s: %s" % (spec["solver"], start, type(e).__name__, e))
    return out, saves, None if res is None else [np.array(r) for r in res], (c.nlines, c.nseams), k, env


def life_iso(spec, start, store, crash):
    out = life(spec, start, store, crash)
    k = out[4]
    return out[:4] + ((k.lines, k.total_steps, dict(k.fired)),)


class Meas:
    pass


def run(case, ctx):
    spec = case["spec"]
    H.base_env()
    ok, clean = recur.horizon(spec)
    out, its, res, cnt, m = ctx.isolated(life_iso, spec, 0, [], None)
    if out != "done" or not clean or len(its) != spec["niter"]:
        raise K.Invalid("numerical failure")
    nl, ns = cnt
    full = [v for _, v in its]
    N = spec["niter"]
    store, start = [], 0
    hit = []
    todo = list(case["args"])
    old = k = None
    lives = 0
    while True:
        crash = todo.pop(0) if todo else None
        if crash and "at" not in crash:
            tot = {"line": nl, "seam": ns, "save": N}[crash["kind"]]
            tot = max(1, int(tot * (N - start) / N))
            crash["at"] = 1 + int(crash["frac"] * tot)
        how = crash["life"] if crash else "process"
        lives += 1
        if old is None:
            if k is None and how == "process":
                out, saves, res2, _, m = ctx.isolated(life_iso, spec, start, store, crash)
                a = Meas()
                ctx.lines |= m[0]
                ctx.steps += m[1]
                for f, v in m[2].items():
                    ctx.faults["crash at " + f.split(":")[0]] += v
                env = None
            else:
                out, saves, res2, _, k, env = life(spec, start, store, crash, None, None, k)
        else:
            out, saves, res2, _, k, env = life(spec, start, store, crash, None, old, k)
        store = store + saves
        if out == "dead":
            if crash["kind"] == "save":
                ctx.faults["crash with a torn save"] += 1
            keep = max(0, len(store) - crash["lose"])
            if crash["lose"] and keep < len(store):
                ctx.faults["crash losing the last saves"] += 1
            hit.append((crash["kind"], crash["lose"], crash["life"], len(store)))
            # what was reported before the crash must be right too
            for c, v in store:
                d = recur.diff_its([v], [full[c - 1]], 1e-9)
                if d:
                    raise K.Violation("restart", "%s after %d restarts, iteration %d: %s from the uninterrupted run" % (spec["solver"], lives - 1, c, d))
            store = store[:keep]
            start = store[-1][0] if store else 0
            if start >= N:  # everything had been reported and saved
                res2 = None
                break
            old = None
            if how == "reuse" and env is not None:
                old = env
                ctx.faults["restart with the operators in use at the crash"] += 1
            elif how == "copy" and env is not None:
                old = {}
                for a in ("f", "g", "A", "H", "den"):
                    if a in env:
                        try:
                            old[a] = copy.deepcopy(env[a])
                        except TypeError:
                            old[a] = env[a]
                ctx.faults["restart with copies of the operators in use"] += 1
            continue
        if out == "exc":
            raise K.Violation("restart", "%s restarted after %d iterations failed, uninterrupted it did not" % (spec["solver"], start))
        break
    case["args"] = [c for c in case["args"] if "at" in c]
    ctx.final = case
    ctx.marks.add(recur.signature(spec) + repr(hit))
    if k is not None:
        ctx.absorb(k)
    ctx.n["crashes"] += len(hit)
    ctx.n["iterates compared"] += len(store)
    for c, v in store:
        d = recur.diff_its([v], [full[c - 1]], 1e-9)
        if d:
            raise K.Violation("restart", "%s after %d restarts, iteration %d: %s from the uninterrupted run" % (spec["solver"], lives - 1, c, d))
    if len({c for c, _ in store}) != N:
        raise K.Violation("restart", "%s after %d restarts reported %d of %d iterations" % (spec["solver"], lives - 1, len(store), N))
    d = recur.diff_its([res2], [res], 1e-9, "result") if res2 is not None else None
    if d:
        raise K.Violation("restart", "%s after %d restarts: %s from the uninterrupted run" % (spec["solver"], lives - 1, d))
    ctx.nontrivial = bool(hit)

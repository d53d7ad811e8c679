"""Refinement of solver runs against the reference recursions."""
import json

import numpy as np

from . import hist as H
from . import kernel as K
from . import solvers as V
from . import solvers2 as V2

BUDGET = 6_000_000


def signature(spec):
    """Structure of a run: solver, options and component kinds, without values."""

    def kind(v):
        if isinstance(v, dict):
            if v.get("c") == "sim":
                return (v["kind"], bool(v.get("noise") or v.get("bias")))
            if v.get("c") == "cat":
                return v["sp"]["t"]
            if "solver" in v:
                return signature(v)
            return v.get("t")
        if isinstance(v, list):
            return tuple(kind(a) for a in v) if v and isinstance(v[0], dict) else "seq%d" % min(len(v), 3)
        if isinstance(v, float):
            return "1" if v == 1.0 else "0" if v == 0.0 else "v"
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        return "i"

    d = {}
    for k, v in spec.items():
        if k in ("niter", "n"):
            d[k] = v if v < 8 else 8 + v // 16
        elif k in ("x0", "s", "b"):
            continue
        else:
            d[k] = kind(v)
    return json.dumps(d, sort_keys=True, default=str)


def comps(spec):
    for k in ("f", "g"):
        if isinstance(spec.get(k), dict):
            yield spec[k]
    for k in ("fs", "gs"):
        yield from spec.get(k, ())
    if isinstance(spec.get("inner"), dict):
        yield from comps(spec["inner"])


def count_answers(spec, its, ctx):
    """What the simulated components did to this run, as injected conditions."""
    n = max(1, its)
    for c in comps(spec):
        if c.get("c") != "sim":
            continue
        if c.get("noise"):
            ctx.faults["component:inexact-answer"] += n
        if c.get("bias"):
            ctx.faults["component:biased-gradient"] += n
        if c["kind"] == "ident":
            ctx.faults["component:hands-back-its-input"] += n
        if c["kind"] == "hard":
            ctx.faults["component:non-convex-answer"] += n
    if isinstance(spec.get("A"), dict):
        if spec["A"].get("adjs"):
            ctx.faults["linop:inexact-adjoint"] += n
        if spec["A"]["t"] == "alias":
            ctx.faults["linop:hands-back-its-input"] += n
    if spec.get("den") == "alias":
        ctx.faults["component:hands-back-its-input"] += n


def rtol_of(spec):
    return getattr(V.SOLVERS[spec["solver"]], "rtol", 1e-7)


def diff_its(a, b, rtol, what="iterate"):
    for k, (u, v) in enumerate(zip(a, b)):
        if len(u) != len(v):
            return "%s %d has %d parts, expected %d" % (what, k + 1, len(u), len(v))
        for p, (s, t) in enumerate(zip(u, v)):
            d = H.vdiff(np.asarray(s), np.asarray(t), rtol)
            if d:
                return "%s %d%s: %s" % (what, k + 1, "" if len(u) == 1 else " (part %d)" % p, d)
    return None


def two_of(its, model):
    """Model iterates reduced to what the callback was asked to hand out."""
    if its and model and len(its[0]) < len(model[0]):
        return [m[: len(its[0])] for m in model]
    return model


def real(k, spec, env, **kw):
    """One real run in a counted region -> (status, its, res)."""
    its, res, exc = [], None, None
    cb = kw.pop("cb", None)

    def keep(i, a):
        its.append(tuple(np.array(v) for v in a))
        if cb is not None:
            cb(len(its), a)

    try:
        with K.call(k):
            _, res = V.run_real(spec, env, cb=keep, keep=False, **kw)
    except K.BudgetExceeded as e:
        raise K.Violation("hang", "%s did not finish: %s" % (spec["solver"], e))
    except (K.Violation, K.Invalid):
        raise
    except Exception as e:
        exc = e
    return its, res, exc


def run(spec, ctx, two=True, cb_for=None, after=None):
    H.base_env()
    mi, mend, note = V.run_model(spec, V.make_env(spec))
    k = K.Kernel(BUDGET).install()
    env = V.make_env(spec)
    cb = cb_for(env) if cb_for else None
    its, res, exc = real(k, spec, env, two=two, cb=cb)
    ctx.absorb(k)
    name = spec["solver"]
    count_answers(spec, len(its), ctx)
    ctx.n["iterates compared"] += min(len(its), len(mi))
    ctx.n["runs of " + name] += 1
    ctx.marks.add(signature(spec))
    if mi or mend:
        ctx.nontrivial = True
    if note:
        ctx.n["runs compared up to a tie, divergence or ill-conditioning"] += 1
    rt = rtol_of(spec)
    d = diff_its(its, two_of(its, mi), rt)
    if d:
        raise K.Violation("iterate", "%s: %s from the documented recursion" % (name, d))
    if exc is not None:
        if note is not None and len(its) >= len(mi):
            return None  # numerically out of hand beyond the compared part
        raise K.Violation("raises", "%s raised %s: %s after %d iterations" % (name, type(exc).__name__, exc, len(its)))
    if note is None:
        if len(its) != len(mi) and not getattr(V.SOLVERS[name], "nocb", False):
            raise K.Violation("count", "%s reported %d iterations, the documented recursion makes %d" % (name, len(its), len(mi)))
        if len(res) != len(mend):
            raise K.Violation("result", "%s returned %d values, expected %d" % (name, len(res), len(mend)))
        d = diff_its([res], [mend], rt, "returned value")
        if d:
            raise K.Violation("result", "%s: %s from the documented recursion" % (name, d))
    if after is not None:
        after(env, its, res)
    return its


# -- variations of a spec --------------------------------------------------------
def cut(spec, k):
    """The same run with a budget of k iterations (sequences truncated)."""
    s = json.loads(json.dumps(spec))
    s["niter"] = k
    for q in (s, s.get("inner") if s["solver"] == "PlugAndPlay" else None):
        if q is None:
            continue
        q["niter"] = k
        for a in ("eps", "tau", "mu"):
            if isinstance(q.get(a), list) and q["solver"] != "GeneralizedProximalGradient":
                q[a] = q[a][:k]
    return s


def plain(its):
    return [tuple(np.array(v) for v in a) for a in its]


def free_run(k, spec, env=None, fault=None, cb=None, two=True, **kw):
    """A real run that may be hit by a fault -> (its, res or None, exception or None)."""
    env = V.make_env(spec) if env is None else env
    its, res, exc = [], None, None

    def keep(i, a):
        its.append(tuple(np.array(v) for v in a))
        if cb is not None:
            cb(len(its), a)

    kws = {}
    if fault:
        kws = {fault["kind"]: fault["at"], "exc": fault["obj"]}
    with K.call(k, **kws) as c:
        try:
            _, res = V.run_real(spec, env, cb=keep, keep=False, two=two, **kw)
        except K.BudgetExceeded as e:
            raise K.Violation("hang", "%s did not finish: %s" % (spec["solver"], e))
        except (K.Violation, K.Invalid):
            raise
        except BaseException as e:
            exc = e
    return its, res, exc, c


def horizon(spec):
    """(iterates that are numerically well determined, whether all of the run is)."""
    mi, mend, note = V.run_model(spec, V.make_env(spec))
    return len(mi), note is None and mend is not None


# -- stateful components ----------------------------------------------------------
SCHED = ("L1", "L0", "L0Ball", "RelaxedMumfordShah", "L2", "L2", "TV", "Quadratic")


def stateful(rng, n):
    """A real operator with a documented per-call state (counter or warm start)."""
    from . import catalog as C

    while True:
        t = rng.choice(SCHED)
        if t == "TV" and n < 2:
            continue
        sp = C.gen(rng, n, 1, only=(t, "L1"), cx=False)
        if sp["t"] != t:
            continue
        if t == "L1":
            sp["sigma"], sp["g"] = C.gen_schedule(rng), sp["g"]
        elif t == "L0":
            sp["sigma"] = C.gen_schedule(rng)
        elif t == "L0Ball":
            sp["r"] = C.gen_schedule(rng, True, 1, max(1, n))
        elif t == "RelaxedMumfordShah":
            sp["sigma"], sp["kappa"] = C.gen_schedule(rng), C.gen_schedule(rng)
        elif t == "TV":
            sp["niter"] = C.gen_schedule(rng, True)
        elif t == "L2":
            if sp["mode"] != "free":
                continue
            sp["warm"] = True
            sp["niter"] = C.gen_schedule(rng, True) if rng.random() < 0.5 else 3
        elif t == "Quadratic":
            if sp["mode"] not in ("free",):
                continue
            sp["warm"] = True
            sp["niter"] = 3
        return {"c": "cat", "sp": sp, "n": n}


def put_stateful(rng, spec, p=0.5):
    """Replace some prox components of a run by stateful real operators."""
    q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
    if spec["solver"] in ("PALM", "iPALM", "Segment", "SR3", "Bregman") or spec.get("cx") or q.get("bt") or q.get("nr") or q.get("tauv") or q.get("one"):
        return spec
    for k in ("f", "g"):
        c = q.get(k)
        if isinstance(c, dict) and c.get("c") == "sim" and c["kind"] not in ("quad",) and "bias" not in c and rng.random() < p:
            if k == "f" and q["solver"] in ("ProximalGradient", "AndersonProximalGradient", "GeneralizedProximalGradient"):
                continue
            q[k] = stateful(rng, c["n"])
    if "fs" in q and q["solver"] in ("PPXA", "ConsensusADMM"):
        for i, c in enumerate(q["fs"]):
            if rng.random() < p:
                q["fs"][i] = stateful(rng, c["n"])
    return spec

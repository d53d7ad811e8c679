import copy

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2
from . import c06 as Q

ID = "C28"
LEVEL = "exploration"
N = {"quick": 4000, "thorough": 150000}
RULE = "one run = a descent method on a convex or non-convex problem, after earlier attempts with the same operators were aborted or from an intermediate iterate; every step is compared with competitors for the model the step is documented to minimise, and every objective with the one before"
MEASURE = "signature of solver, variant, components and fault history"
MARKS_ARE_RUNS = False
REAL = "ProximalPoint, ProximalGradient (plain, backtracking), HQS, PALM; non-convex penalties (ETP, Geman, Log, SCAD, L0, L0Ball, relaxed Mumford-Shah, quadratic envelopes, singular value penalties), convex ones, composites over both; L2, Quadratic, bilinear functions"
STUB = "linear operators, simulated quadratics, aborting faults"
ASSUME = [
    "objectives are those the documentation defines, evaluated in plain numpy by sim/props/c28.py",
    "competitors of a step: all earlier iterates, the point stepped from, zero, points around the iterate, single entries and groups exchanged, chosen from the case's seed",
    "steps are kept where the documented prox is exact: SCAD below a-1, quadratic envelopes below 1",
]
TOL = 1e-7


# -- components with their objective --------------------------------------------------
def sv(sp, u):
    return np.linalg.svd(u.reshape(sp["dims"]), compute_uv=False)


def mk(sp):
    import pylops
    import pyproximal as P

    k, a, n = sp["k"], sp["a"], sp["n"]
    if k == "quad":
        return Q.mk_quad(sp["q"])
    if k == "ETP":
        return P.ETP(a, sp["c"])
    if k == "Geman":
        return P.Geman(a, sp["c"])
    if k == "Log":
        return P.Log(a, sp["c"])
    if k == "SCAD":
        return P.SCAD(a, 2.0 + sp["c"])
    if k == "Card":
        return P.QuadraticEnvelopeCard(a)
    if k == "CardI":
        return P.QuadraticEnvelopeCardIndicator(sp["r"])
    if k == "L0":
        return P.L0(a)
    if k == "L0Ball":
        return P.L0Ball(sp["r"])
    if k == "RMS":
        return P.RelaxedMumfordShah(sp["c"], a)
    if k == "SVP":
        return P.SingularValuePenalty(tuple(sp["dims"]), mk(sp["f"]))
    if k == "L1":
        return P.L1(a)
    if k == "L1w":
        return P.L1(Q.l1w(sp))
    if k == "Box":
        return P.Box(-a, 0.6 * a)
    if k == "Ball":
        return P.EuclideanBall(np.zeros(n), a)
    if k == "Half":
        return P.HalfSpace(Q.vec(sp), a - 0.8)
    if k == "Euclidean":
        return P.Euclidean(a)
    if k == "Huber":
        return P.Huber(a)
    if k == "HuberC":
        return P.HuberCircular(a)
    if k == "L21":
        return P.L21(sp["nd"], a)
    if k == "Nuc":
        return P.Nuclear(tuple(sp["dims"]), a)
    if k == "VStk":
        return P.VStack([mk(f) for f in sp["f"]], nn=[f["n"] for f in sp["f"]])
    f = mk(sp["f"])
    if k == "Aff":
        return f + Q.vec(sp) * 0.5
    if k == "Post":
        return a * f
    if k == "Pre":
        return f.precomposition(a + 0.3, Q.vec(sp) if sp["off"] else 0.2)
    if k == "Orth":
        return P.Orthogonal(f, Q.mop(Q.orth(sp)))
    raise ValueError(k)


V.EXTRA["c28"] = mk


def ksup2(u, k):
    """Squared k-support norm: twice the convex envelope of |u|^2 / 2 over at most k entries."""
    a = np.sort(np.abs(u))[::-1]
    if a.size <= k:
        return float((a**2).sum())
    best = None
    for r in range(k):
        top, rest = a[: k - r - 1], a[k - r - 1 :]
        m = rest.sum() / (r + 1)
        hi = top[-1] if top.size else np.inf
        if hi >= m - 1e-12 and m >= rest[0] - 1e-12:
            v = float((top**2).sum() + rest.sum() ** 2 / (r + 1))
            best = v if best is None else min(best, v)
    return best if best is not None else float((a**2).sum())


def obj(sp, t, loose=0.0):
    """u -> value of the documented function (inf: infeasible by more than loose)."""
    k, a, n = sp["k"], sp["a"], sp["n"]
    c = sp.get("c")
    if k == "quad":
        B, b = Q.quad_mats(sp["q"])
        return lambda u: 0.5 * float(np.linalg.norm(B @ u - b) ** 2)
    el = elementwise(sp, t)
    if el is not None:
        return lambda u: float(np.sum(el(np.abs(u))))
    ind = lambda bad: np.inf if bad else 0.0
    if k == "CardI":
        return lambda u: 0.5 * (ksup2(u, sp["r"]) - float((np.abs(u) ** 2).sum()))
    if k == "L0Ball":
        return lambda u: ind((np.abs(u) > loose).sum() > sp["r"])
    if k == "SVP":
        f = obj(sp["f"], t, loose)
        return lambda u: f(sv(sp, u))
    if k == "L1w":
        w = Q.l1w(sp)
        return lambda u: float((w * np.abs(u)).sum())
    if k == "Box":
        return lambda u: ind(np.any(u < -a - loose) or np.any(u > 0.6 * a + loose))
    if k == "Ball":
        return lambda u: ind(np.linalg.norm(u) > a + loose)
    if k == "Half":
        w = Q.vec(sp)
        return lambda u: ind(w @ u > a - 0.8 + loose * np.linalg.norm(w))
    if k == "Euclidean":
        return lambda u: a * float(np.linalg.norm(u))
    if k == "HuberC":
        return lambda u: float(np.linalg.norm(u) ** 2 / (2 * a) if np.linalg.norm(u) <= a else np.linalg.norm(u) - a / 2)
    if k == "L21":
        return lambda u: a * float(np.sqrt((u.reshape(sp["nd"], -1) ** 2).sum(axis=0)).sum())
    if k == "Nuc":
        return lambda u: a * float(sv(sp, u).sum())
    if k == "VStk":
        fs = [obj(f, t, loose) for f in sp["f"]]
        cs = np.cumsum([f["n"] for f in sp["f"]])[:-1]
        return lambda u: sum(f(v) for f, v in zip(fs, np.split(u, cs)))
    if k == "Post":
        f = obj(sp["f"], a * t, loose)
        return lambda u: a * f(u) if np.isfinite(f(u)) else np.inf
    if k == "Aff":
        f, o = obj(sp["f"], t, loose), 0.5 * Q.vec(sp)
        return lambda u: f(u) + float(o @ u)
    if k == "Pre":
        s = a + 0.3
        f, o = obj(sp["f"], s * s * t, loose), Q.vec(sp) if sp["off"] else 0.2
        return lambda u: f(s * u + o)
    if k == "Orth":
        f, q = obj(sp["f"], t, loose), Q.orth(sp)
        return lambda u: f(q @ u)
    raise ValueError(k)


def elementwise(sp, t):
    k, a, c = sp["k"], sp["a"], sp.get("c")
    if k == "ETP":
        return lambda r: a / (1 - np.exp(-c)) * (1 - np.exp(-c * r))
    if k == "Geman":
        return lambda r: a * r / (r + c)
    if k == "Log":
        return lambda r: a / np.log(c + 1) * np.log(c * r + 1)
    if k == "SCAD":
        A = 2.0 + c
        return lambda r: np.where(r <= a, a * r, np.where(r <= A * a, (-(r**2) + 2 * A * a * r - a * a) / (2 * (A - 1)), 0.5 * (A + 1) * a * a))
    if k == "Card":
        return lambda r: a - 0.5 * np.maximum(0.0, np.sqrt(2 * a) - r) ** 2
    if k == "L0":
        return lambda r: 0.5 * t * a * a * (r > 1e-10)  # its prox keeps what exceeds t a
    if k == "RMS":
        return lambda r: np.minimum(c * r * r, a)
    if k == "L1":
        return lambda r: a * r
    if k == "Huber":
        return lambda r: np.where(r <= a, r * r / (2 * a), r - a / 2)
    return None


def tmax(sp):
    """Largest step for which the documented prox is exact."""
    k, a = sp["k"], sp["a"]
    if k == "SCAD":
        return 0.9 * (1.0 + sp["c"])
    if k in ("Card", "CardI"):
        return 0.95
    if k == "VStk":
        return min(tmax(f) for f in sp["f"])
    if "f" in sp:
        return tmax(sp["f"]) / {"Post": a, "Pre": (a + 0.3) ** 2}.get(k, 1.0)
    return np.inf


def steady(sp):
    """Whether the function does not depend on the step."""
    return sp["k"] != "L0" and all(steady(f) for f in ([sp["f"]] if isinstance(sp.get("f"), dict) else sp.get("f", ())))


NONCVX = ("ETP", "Geman", "Log", "SCAD", "Card", "CardI", "L0", "L0Ball", "RMS", "SVP", "SVP")
CONVEX = ("L1", "L1w", "Box", "Ball", "Half", "Euclidean", "Huber", "HuberC", "L21", "Nuc")
COMP = ("VStk", "Aff", "Post", "Pre", "Orth")


def gen_f(rng, n, depth=0, kinds=None):
    while True:
        u = rng.random()
        k = rng.choice(kinds or (NONCVX if u < 0.6 else CONVEX if u < 0.75 or depth else COMP))
        sp = {"c": rng.choice([0.5, 1.0, C.R(rng, 0.3, 3.0)]), "k": k, "n": n, "a": C.R(rng, 0.15, 1.5), "s": C.S(rng)}
        if k in ("SVP", "L21", "Nuc"):
            if n not in (4, 6, 8, 9, 12):
                continue
            d = rng.choice({4: (2,), 6: (2, 3), 8: (2, 4), 9: (3,), 12: (2, 3, 4, 6)}[n])
            sp["nd"], sp["dims"] = d, [d, n // d]
        if k == "SVP":
            sp["f"] = gen_f(rng, min(sp["dims"]), 1, ("ETP", "Geman", "Log", "SCAD", "Card", "L1", "L0Ball", "L0"))
        if k in ("L0Ball", "CardI"):
            if n < 2:
                continue
            sp["r"] = rng.randint(1 if k == "L0Ball" else 2, n)
        if k in COMP:
            if k == "VStk":
                if n < 2:
                    continue
                m = rng.randint(1, n - 1)
                sp["f"] = [gen_f(rng, m, 1), gen_f(rng, n - m, 1)]
            else:
                sp["f"] = gen_f(rng, n, 1)
                if k != "VStk" and "L0" == sp["f"]["k"]:
                    continue
            sp["off"] = rng.random() < 0.4
        return sp


def slot(sp):
    """A component spec as sim.solvers builds it (its 'c' names the builder)."""
    return {"c": "c28w", "sp": sp, "n": sp["n"]}


V.EXTRA["c28w"] = lambda w: mk(w["sp"])


def qslot(rng, n, **kw):
    q = Q.gen_quad(rng, n, **kw)
    return {"c": "c28w", "n": n, "sp": {"k": "quad", "q": q, "n": n, "a": 1.0}}


NAMES = ("ProximalPoint", "ProximalGradient", "ProximalGradient", "ProximalGradient", "HQS", "HQS", "PALM")


def gen(rng, idx, tier):
    name = rng.choice(NAMES)
    n = rng.choice([1, 2, 3, 4, 4, 6, 6, 8, 9, 12])
    spec = {"solver": name, "n": n, "niter": rng.choice([1, 3, 6, 12, 25, 40]), "cx": False, "x0": C.S(rng), "x0mode": rng.choice(["normal", "normal", "zeros", "large", "sparse"])}
    V.SOLVERS[name].gen(rng, spec, {"plain": True})
    spec["cx"] = False
    globals()["gen_" + name](rng, spec, n)
    case = {"spec": spec, "faults": [], "cs": C.S(rng)}
    for _ in range(rng.choice([0, 1, 1, 2])):
        case["faults"].append({"kind": rng.choice(["line", "seam"]), "exc": rng.choice(["interrupt", "memory", "user"]), "frac": round(rng.random(), 4), "niter": min(spec["niter"], rng.choice([1, 2, 5]))})
    if rng.random() < 0.3:
        case["restart"] = min(spec["niter"], rng.choice([1, 2, 5]))
    return case


def step(rng, sp, lo, hi):
    hi = min(hi, tmax(sp))
    lo = min(lo, 0.3 * hi)
    return round(rng.uniform(lo, hi), 8)


def gen_ProximalPoint(rng, s, n):
    f = gen_f(rng, n)
    s["f"] = slot(f)
    s["tau"] = step(rng, f, 0.1, 3.0)
    s["tol"] = None


def gen_ProximalGradient(rng, s, n):
    g = gen_f(rng, n)
    L = C.R(rng, 0.4, 4.0)
    s["f"] = qslot(rng, n, L=L)
    s["g"] = slot(g)
    s["eps"] = C.R(rng, 0.3, 1.5)
    s["acc"], s["eta"], s["tol"] = None, 1.0, None
    if not steady(g):
        s["bt"] = None
    s["niterback"] = 100
    if s["bt"]:
        s["tau"] = min(C.R(rng, 0.5, 10.0), 0.99 * tmax(g) / s["eps"])
        if s["bt"] == "notau" and tmax(g) < s["eps"]:
            s["bt"] = "tau"
    else:
        s["tau"] = step(rng, g, 0.2 / L, 1.0 / L)
        if steady(g) and rng.random() < 0.3:
            s["eps"] = [C.R(rng, 0.3, 1.5) for _ in range(s["niter"])]
        if s["tau"] * np.max(s["eps"]) > tmax(g):
            s["eps"] = 1.0
    s.pop("wrapper", None)


def gen_HQS(rng, s, n):
    f, g = gen_f(rng, n), gen_f(rng, n)
    sf, sg = slot(f), slot(g)
    if rng.random() < 0.6:
        q = qslot(rng, n)
        if rng.random() < 0.5:
            sf, f = q, q["sp"]
        else:
            sg, g = q, q["sp"]
    s["f"], s["g"] = sf, sg
    top = min(tmax(f), tmax(g), 3.0)
    if steady(f) and steady(g) and rng.random() < 0.3:
        s["tau"] = [round(rng.uniform(0.2 * top, top), 8) for _ in range(s["niter"])]
    else:
        s["tau"] = round(rng.uniform(0.1 * top, top), 8)
    s["nox0"] = False


def gen_PALM(rng, s, n):
    h = s["H"]
    nx, ny = h["nn"] * h["k"], h["mm"] * h["k"]
    h["cx"] = s["cx"] = False
    s["n"] = nx
    for key, m in (("f", nx), ("g", ny)):
        if s[key] is not None:
            f = gen_f(rng, m)
            while tmax(f) < np.inf or not steady(f) or f["k"] == "Aff":  # the steps adapt to the blocks; bounded below
                f = gen_f(rng, m)
            s[key] = slot(f)
    s["niterback"] = 100


# -- checks ------------------------------------------------------------------------------
def competitors(g, p, v, past):
    n = p.size
    out = list(past) + [v, np.zeros(n)]
    out += [p + c * (v - p) for c in (0.5, 0.1, 0.01, -0.1)]
    out += [p * c for c in (0.9, 0.99, 1.01, 1.1)]
    for e in (1e-3, 1e-2, 0.1, 1.0):
        out += [p + e * g.normal(size=n) for _ in range(3)]
    for i in range(n):
        for val in (0.0, v[i], v[i] * g.uniform(0, 1)):
            u = p.copy()
            u[i] = val
            out.append(u)
    z = [i for i in range(n) if p[i] == 0]
    nz = [i for i in range(n) if p[i] != 0]
    for i in nz[:6]:
        for j in z[:6]:
            u = p.copy()
            u[i], u[j] = 0.0, v[j]
            out.append(u)
    return out


def check_step(what, h, hl, p, v, t, past, g):
    """p must minimise h(u) + |u - v|^2 / (2 t)."""
    fp = hl(p)
    if not np.isfinite(fp):
        raise K.Violation("infeasible", "%s: the new iterate leaves the set its operator projects on" % what)
    qp = fp + float(np.linalg.norm(p - v) ** 2) / (2 * t)
    best, who = np.inf, None
    for i, u in enumerate(competitors(g, p, v, past)):
        hu = h(u)
        if not np.isfinite(hu):
            continue
        q = hu + float(np.linalg.norm(u - v) ** 2) / (2 * t)
        if q < best:
            best, who = q, u
    if qp > best + TOL * (1 + abs(best) + float(v @ v) / t):
        raise K.Violation("model", "%s: the new iterate has value %.12g, another point %.12g, for the model the step is documented to minimise (step %.6g)" % (what, qp, best, t))


def descent(what, vals, scale):
    for i in range(1, len(vals)):
        if vals[i] > vals[i - 1] + 1e-8 * scale:
            raise K.Violation("ascent", "%s: the objective rose from %.12g to %.12g" % (what, vals[i - 1], vals[i]))


def pair(slot_, t):
    """(exact objective, objective with a tolerance for feasibility)"""
    if slot_ is None:
        return (lambda u: 0.0,) * 2
    return obj(slot_["sp"], t), obj(slot_["sp"], t, 1e-5)


def count_sites(spec):
    H.base_env()
    k = K.Kernel(recur.BUDGET * 50).install()
    _, _, exc, c = recur.free_run(k, spec, two=spec["solver"] == "HQS")
    return c.nlines, c.nseams


def vanished(name, exc):
    if isinstance(exc, ZeroDivisionError) and name == "PALM":
        raise K.Invalid("a block vanished")  # its step is then undefined


def run(case, ctx):
    H.base_env()
    spec = case["spec"]
    name = spec["solver"]
    for f in case["faults"]:
        if "at" not in f:
            a = ctx.isolated(count_sites, recur.cut(spec, f["niter"]))
            m = a[0] if f["kind"] == "line" else a[1]
            f["at"] = 1 + int(f["frac"] * m) if m else 0
    ctx.final = case
    k = K.Kernel(recur.BUDGET * 50).install()
    env = V.make_env(spec)
    for f in case["faults"]:
        if f["at"]:
            recur.free_run(k, recur.cut(spec, f["niter"]), env, fault=dict(f, obj=K.make_exc(f["exc"])), two=spec["solver"] == "HQS")
    if case.get("restart"):
        its, res, exc, _ = recur.free_run(k, recur.cut(spec, case["restart"]), env, two=spec["solver"] == "HQS")
        vanished(name, exc)
        if exc is not None:
            raise K.Violation("raises", "%s raised %s: %s" % (name, type(exc).__name__, exc))
        Q.restart(name, spec, env, res)
    start = [None if env.get(q) is None else np.array(env[q]) for q in ("x0", "z0", "y0")]
    its, res, exc, c = recur.free_run(k, spec, env, two=spec["solver"] == "HQS")
    vanished(name, exc)
    if exc is not None:
        raise K.Violation("raises", "%s raised %s: %s" % (name, type(exc).__name__, exc))
    if any(not np.all(np.isfinite(a)) for it in its for a in it):
        raise K.Violation("finite", "%s left the finite numbers" % name)
    globals()["check_" + name](spec, its, start, np.random.default_rng(case["cs"]), ctx)
    ctx.absorb(k)
    if case.get("restart"):
        ctx.faults["restart-from-intermediate-iterate"] += 1
    ctx.n["steps checked in " + name] += len(its)
    ctx.nontrivial = len(its) > 0
    ctx.marks.add(repr((recur.signature(spec), kinds(spec), len(case["faults"]), case.get("restart"))))


def kinds(spec):
    def kd(sp):
        f = sp.get("f")
        return (sp["k"],) + tuple(kd(x) for x in (f if isinstance(f, list) else [f] if f else []))

    return [kd(spec[q]["sp"]) for q in ("f", "g") if isinstance(spec.get(q), dict) and "sp" in spec[q]]


def scale_of(*vals):
    return 1.0 + max([abs(v) for v in vals if np.isfinite(v)] + [0.0])


def check_ProximalPoint(s, its, start, g, ctx):
    x, t = start[0], s["tau"]
    h, hl = pair(s["f"], t)
    past = [x]
    for i, (p,) in enumerate(its):
        check_step("ProximalPoint, iteration %d" % (i + 1), h, hl, p, x, t, past[-5:], g)
        past.append(p)
        x = p
    vals = [hl(p) for (p,) in its]
    descent("ProximalPoint", vals, scale_of(*vals))


def check_ProximalGradient(s, its, start, g, ctx):
    B, b = Q.quad_mats(s["f"]["sp"]["q"])
    x, t = start[0], s["tau"]
    past = [x]
    for i, (p,) in enumerate(its):
        e = V.at(s["eps"], i)
        h, hl = pair(s["g"], t * e)
        if not s["bt"]:
            v = x - t * B.T @ (B @ x - b)
            check_step("ProximalGradient, iteration %d" % (i + 1), h, hl, p, v, t * e, past[-5:], g)
        if i:
            F = lambda u: 0.5 * float(np.linalg.norm(B @ u - b) ** 2) + e * hl(u)
            a, c = F(x), F(p)
            descent("ProximalGradient, iteration %d" % (i + 1), [a, c], scale_of(a, c))
        past.append(p)
        x = p


def check_HQS(s, its, start, g, ctx):
    x, z = start[0], start[1]
    x = z if x is None else x
    z = x if z is None else z
    past, vals = [x, z], []
    for i, (xn, zn) in enumerate(its):
        t = V.at(s["tau"], i)
        what = "HQS, iteration %d" % (i + 1)
        (hf, hfl), (hg, hgl) = pair(s["f"], t), pair(s["g"], t)
        if s["gfirst"]:
            check_step(what + ", second variable", hg, hgl, zn, x, t, past[-6:], g)
            check_step(what + ", first variable", hf, hfl, xn, zn, t, past[-6:], g)
        else:
            check_step(what + ", first variable", hf, hfl, xn, z, t, past[-6:], g)
            check_step(what + ", second variable", hg, hgl, zn, xn, t, past[-6:], g)
        past += [xn, zn]
        x, z = xn, zn
        if not isinstance(s["tau"], list):
            vals.append(hfl(x) + hgl(z) + float(np.linalg.norm(x - z) ** 2) / (2 * t))
    descent("HQS", vals, scale_of(*vals))


def check_PALM(s, its, start, g, ctx):
    m = V2.MH(s["H"])
    (hf, hfl), (hg, hgl) = pair(s["f"], 1.0), pair(s["g"], 1.0)
    x, y = start[0], start[2]
    px, py, vals = [x], [y], []
    for i, (xn, yn) in enumerate(its):
        what = "PALM, iteration %d" % (i + 1)
        if s["gammaf"] is not None:
            c = s["gammaf"] * m.ly(y)
            if c < 1e-9:
                raise K.Invalid("a block vanished")
            check_step(what + ", first block", hf, hfl, xn, x - m.gx(x, y) / c, 1.0 / c, px[-5:], g)
        if s["gammag"] is not None:
            c = s["gammag"] * m.lx(xn)
            if c < 1e-9:
                raise K.Invalid("a block vanished")
            check_step(what + ", second block", hg, hgl, yn, y - m.gy(xn, y) / c, 1.0 / c, py[-5:], g)
        px.append(xn)
        py.append(yn)
        x, y = xn, yn
        vals.append(m.val(x, y) + hfl(x) + hgl(y))
    descent("PALM", vals, scale_of(*vals))

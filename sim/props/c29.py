import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from . import c06 as Q

ID = "C29"
LEVEL = "exploration"
N = {"quick": 4000, "thorough": 150000}
RULE = "one run = a solver run twice on one convex problem, with the same operators, the second time from a displaced starting point and with soft errors added to answers of its components; the distance between both is checked at every iteration"
MEASURE = "signature of solver, variant, components and fault history"
MARKS_ARE_RUNS = False
REAL = "ProximalPoint, ProximalGradient, GeneralizedProximalGradient, HQS, ADMM, ADMML2, DouglasRachfordSplitting, PPXA, ConsensusADMM, PrimalDual; all convex operators with an exact prox, composites, L2, Quadratic"
STUB = "linear operators, simulated quadratics, soft errors, aborting faults"
ASSUME = [
    "steps are admissible, relaxation within the range where the iteration is known to be nonexpansive, no acceleration",
    "the weight of a soft error in the bound is the largest its solver's iteration allows",
]
NAMES = ("ProximalPoint", "ProximalGradient", "ProximalGradient", "GeneralizedProximalGradient", "HQS", "HQS", "ADMM", "ADMM", "ADMML2", "DouglasRachfordSplitting", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM", "PrimalDual", "PrimalDual")
SLACK = 2e-5


def noisy():
    import pyproximal

    class Noisy(pyproximal.ProxOperator):
        """An operator some answers of which are off by a known vector."""

        def __init__(self, base, sp):
            super().__init__(None, base.hasgrad)
            self.base, self.sp, self.k, self.log, self.rec = base, sp, 0, None, {}

        def _out(self, y, kind, x, t):
            if kind != "grad" and x.ndim == 1 and np.shape(y) == x.shape and np.ndim(t) == 0:
                self.rec.setdefault((kind, float(t)), []).append((x.copy(), np.array(y)))
            if self.log is None:
                return y
            self.k += 1
            e = self.sp["at"].get(str(self.k))
            if e is None:
                return y
            v = e * np.cos(1.3 * self.k + np.arange(y.size)).reshape(y.shape)
            self.log.append((kind, float(np.linalg.norm(v))))
            return y + v

        def __call__(self, x):
            return self.base(x)

        def prox(self, x, tau, **kw):
            K.seam("prox")
            return self._out(self.base.prox(x, tau), "prox", x, tau)

        def proxdual(self, x, tau, **kw):
            K.seam("proxdual")
            return self._out(self.base.proxdual(x, tau), "dual", x, tau)

        def grad(self, x):
            K.seam("grad")
            return self._out(self.base.grad(x), "grad", x, 0.0)

    return Noisy


_c = {}


def mk(sp):
    if "n" not in _c:
        _c["n"] = noisy()
    o = _c["n"](V.mk(sp["of"]), sp)
    _c.setdefault("made", []).append(o)
    return o


V.EXTRA["c29n"] = mk


def gen(rng, idx, tier):
    name = rng.choice(NAMES)
    n = rng.choice([1, 2, 3, 4, 4, 6, 6, 8, 9, 12])
    spec = {"solver": name, "n": n, "niter": rng.choice([1, 2, 5, 10, 20, 40, 80]), "cx": False, "x0": C.S(rng), "x0mode": rng.choice(["normal", "normal", "zeros", "large", "sparse"])}
    V.SOLVERS[name].gen(rng, spec, {"plain": True})
    Q._cx[0] = spec["cx"] = name != "PPXA" and name in Q.CXN and rng.random() < 0.15
    try:
        fill(name, rng, spec, n)
    finally:
        Q._cx[0] = False
    spec["tol"] = None
    for q in ("f", "g"):
        if isinstance(spec.get(q), dict):
            spec[q] = wrap(rng, spec, spec[q])
    for q in ("fs", "gs"):
        if q in spec:
            spec[q] = [wrap(rng, spec, c) for c in spec[q]]
    case = {"spec": spec, "faults": [], "ds": C.S(rng), "d": rng.choice([0.0, round(10 ** rng.uniform(-2.5, 1.2), 6), round(10 ** rng.uniform(-1, 0.7), 6), round(10 ** rng.uniform(0.5, 2), 6)]), "one": rng.random() < 0.3, "fresh": rng.random() < 0.3}
    for _ in range(rng.choice([0, 0, 1, 2])):
        case["faults"].append({"kind": rng.choice(["line", "seam"]), "exc": rng.choice(["interrupt", "memory", "user"]), "frac": round(rng.random(), 4), "niter": min(spec["niter"], rng.choice([1, 2, 5]))})
    return case


def wrap(rng, spec, c):
    at = {}
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 4])):
            at[str(rng.randint(1, max(1, spec["niter"])))] = round(10 ** rng.uniform(-2, 0.7), 6) * rng.choice([1, -1])
    return {"c": "c29n", "of": c, "at": at, "n": c["n"]}


def convex(rng, n, kinds=None):
    if rng.random() < 0.3:
        return Q.gen_quad(rng, n)
    return Q.gen_g(rng, n, kinds or Q.ONE)


def fill(name, rng, s, n):
    s["z0"], s["nox0"] = (C.S(rng) if rng.random() < 0.3 else None), False
    if name == "ProximalPoint":
        s["f"], s["tau"] = convex(rng, n), C.R(rng, 0.1, 3.0)
    elif name in ("HQS", "ADMM", "DouglasRachfordSplitting"):
        s["f"], s["g"] = convex(rng, n), convex(rng, n)
        s["tau"] = C.R(rng, 0.1, 3.0)
        if name == "HQS" and rng.random() < 0.3:
            s["tau"] = [C.R(rng, 0.1, 3.0) for _ in range(s["niter"])]
        if name == "DouglasRachfordSplitting":
            s["eta"] = rng.choice([1.0, C.R(rng, 0.2, 2.0)])
    elif name == "ProximalGradient":
        s["f"], s["g"] = Q.gen_quad(rng, n), Q.gen_g(rng, n, Q.ONE)
        s["acc"], s["bt"] = None, None
        s["eta"] = rng.choice([1.0, C.R(rng, 0.2, 1.0)])
        s["tau"] = round(rng.uniform(0.2, 1.95) / s["f"]["L"], 8)
        s["eps"] = [C.R(rng, 0.3, 1.5) for _ in range(s["niter"])] if rng.random() < 0.3 else C.R(rng, 0.3, 1.5)
        s.pop("wrapper", None)
    elif name == "GeneralizedProximalGradient":
        gpg(rng, s, n)
    elif name in ("PPXA", "ConsensusADMM"):
        m = rng.randint(1, 4)
        s["fs"] = [convex(rng, n) for _ in range(m)]
        if s.get("w") is not None:
            w = [C.R(rng, 0.3, 1.0) for _ in range(m)]
            s["w"] = [a / sum(w) for a in w]
        if s.get("x0s") is not None:
            s["x0s"] = [C.S(rng) for _ in range(m)]
        s["tau"] = C.R(rng, 0.1, 3.0)
        s["eta"] = rng.choice([1.0, C.R(rng, 0.3, 1.9)])
    elif name == "PrimalDual":
        s["A"] = Q.gen_A(rng, n)
        s["f"], s["g"] = convex(rng, n), Q.gen_g(rng, s["A"]["m"], Q.ONE)
        L = np.sqrt(max(0.2, V.sqnorm(s["A"])))
        r, t = rng.uniform(0.5, 2.0), rng.uniform(0.3, 0.95) / L
        s["tau"], s["mu"], s["theta"] = round(t * r, 8), round(t / r, 8), 1.0
    elif name == "ADMML2":
        s["A"] = Q.gen_A(rng, n)
        s["Op"] = {"t": rng.choice(["matrix", "free"]), "m": n + 3, "n": n, "s": C.S(rng), "cx": s["cx"]}
        s["g"] = Q.gen_g(rng, s["A"]["m"], Q.ONE)
        s["tau"], s["iter_lim"] = C.R(rng, 0.3, 2.0), 60


def gpg(rng, s, n):
    m = rng.randint(1, 3)
    s["fs"] = [Q.gen_quad(rng, n) for _ in range(rng.randint(1, 2))]
    s["gs"] = [Q.gen_g(rng, n, Q.ONE) for _ in range(m)]
    if s["w"] is not None:
        w = [C.R(rng, 0.3, 1.0) for _ in range(m)]
        s["w"] = [a / sum(w) for a in w]
    s["eps"] = [C.R(rng, 0.2, 1.2) for _ in range(m)] if isinstance(s["eps"], list) else s["eps"]
    s["tau"] = round(C.R(rng, 0.2, 0.98) / sum(f["L"] for f in s["fs"]), 8)
    s["eta"], s["acc"] = rng.choice([1.0, C.R(rng, 0.2, 1.0)]), None


def env_of(spec):
    _c["made"] = []
    env = V.make_env(spec)
    return env, _c["made"]


def count_sites(spec):
    H.base_env()
    k = K.Kernel(recur.BUDGET * 50).install()
    _, _, exc, c = recur.free_run(k, spec, env_of(spec)[0])
    return c.nlines, c.nseams


def shift(x, g, d, one):
    if isinstance(x, list):
        return [shift(v, g, d, one) for v in x]
    v = g.normal(size=x.shape)
    if np.iscomplexobj(x):
        v = v + 1j * g.normal(size=x.shape)
    if one:
        w = np.zeros(x.size, v.dtype)
        w[g.integers(x.size)] = 1.0
        v = w.reshape(x.shape)
    return x + (d / max(np.linalg.norm(v), 1e-300) * v).astype(x.dtype)


def run(case, ctx):
    H.base_env()
    spec = case["spec"]
    name = spec["solver"]
    for f in case["faults"]:
        if "at" not in f:
            a = ctx.isolated(count_sites, recur.cut(spec, f["niter"]))
            m = a[0] if f["kind"] == "line" else a[1]
            f["at"] = 1 + int(f["frac"] * m) if m else 0
    ctx.final = case
    k = K.Kernel(recur.BUDGET * 50).install()
    env, made = env_of(spec)
    for f in case["faults"]:
        if f["at"]:
            recur.free_run(k, recur.cut(spec, f["niter"]), env, fault=dict(f, obj=K.make_exc(f["exc"])))
    A, _ = once(k, spec, env)
    x0 = env["x0"]
    if case["fresh"]:
        env, made = env_of(spec)
    log, seen = [], []
    for o in made:
        o.log, o.k = log, 0
    xb = shift(x0, np.random.default_rng(case["ds"]), case["d"], case["one"])
    env["x0"] = xb
    B, _ = once(k, spec, env, cb=lambda i, a: seen.append(len(log)))
    if len(A) != len(B):
        raise K.Violation("iterations", "%s reported %d and %d iterations for equal budgets" % (name, len(A), len(B)))
    bound(spec, x0, xb, A, B, log, seen)
    ctx.n["pairs of answers compared"] += sum(monotone(name, o, made) for o in made)
    ctx.absorb(k)
    ctx.faults["component:soft-error"] += len(log)
    ctx.faults["displaced starting point"] += case["d"] > 0
    ctx.n["iterations compared in " + name] += len(A)
    ctx.nontrivial = bool(A) and (case["d"] > 0 or bool(log))
    ctx.marks.add(repr((recur.signature(spec), len(case["faults"]), len(log), case["d"] > 0, case["one"])))


def once(k, spec, env, cb=None):
    its, res, exc, _ = recur.free_run(k, spec, env, cb=cb)
    if exc is not None:
        raise K.Violation("raises", "%s raised %s: %s" % (spec["solver"], type(exc).__name__, exc))
    return its, res


def monotone(name, o, made):
    """Answers at equal steps: <p - q, v - w> >= |p - q|^2."""
    done = 0
    for (kind, t), rec in o.rec.items():
        V_ = np.array([v for v, _ in rec])
        P_ = np.array([p for _, p in rec])
        if V_.dtype.kind == "c" or P_.dtype.kind == "c":
            V_, P_ = (np.hstack([np.real(a), np.imag(a)]) for a in (V_, P_))
        if not (np.all(np.isfinite(V_)) and np.all(np.isfinite(P_))):
            raise K.Violation("finite", "%s: a component answered or was asked with something that is not finite" % name)
        dv, dp = V_[:, None] - V_[None], P_[:, None] - P_[None]
        gap = (dp * (dv - dp)).sum(axis=2)
        size = np.sqrt((dv**2).sum(axis=2))
        lim = -1e-4 * (1.0 + np.abs(V_).max() + np.abs(P_).max()) * size - 1e-9
        bad = gap < lim
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            raise K.Violation("answers", "%s: component %d answered %s and %s to %s and %s at step %.6g, which no convex function allows" % (name, made.index(o), P_[i], P_[j], V_[i], V_[j], t))
        done += len(rec) * (len(rec) - 1) // 2
    return done


def nrm(v):
    return float(np.linalg.norm(v))


def bound(s, x0, xb, A, B, log, seen):
    name = s["solver"]
    dx = nrm(np.asarray(xb) - np.asarray(x0)) if not isinstance(x0, list) else nrm(np.array(xb) - np.array(x0))
    eta = s.get("eta", 1.0) or 1.0
    cost = {"prox": 1.0, "dual": 1.0, "grad": 0.0}
    names, scale = ("iterate",), (1.0, 1.0)
    D0 = dx
    if name == "ProximalGradient":
        cost["grad"] = s["tau"]
    elif name == "GeneralizedProximalGradient":
        cost["grad"] = s["tau"] * 2
    elif name == "HQS":
        names = ("first variable", "second variable")
        if s["z0"] is not None and not s["gfirst"]:
            D0 = 0.0
    elif name == "ADMM":
        names = ("first variable", "second variable")
        cost["prox"] = 3.0
        if s["z0"] is not None and not s["gfirst"]:
            D0 = 0.0
    elif name == "DouglasRachfordSplitting":
        names = ("iterate", "auxiliary variable")
        cost["prox"] = 3.0 * max(1.0, eta)
    elif name == "ConsensusADMM":
        cost["prox"] = 3.0
    elif name == "PPXA":
        cost["prox"] = 3.0 * max(1.0, eta)
    elif name == "ADMML2":
        M = C.linop_mat(s["A"])
        A, B = [(M @ a[0],) for a in A], [(M @ b[0],) for b in B]
        names, cost["prox"] = ("image of the iterate",), 3.0
        D0 = nrm(M @ (xb - x0))
        if s["z0"] is not None and not s["gfirst"]:
            D0 = 0.0
    elif name == "PrimalDual":
        M = C.linop_mat(s["A"])
        L = np.linalg.norm(M, 2)
        t, u = s["tau"], s["mu"]
        q = np.sqrt(t * u) * L
        names = ("primal iterate", "dual iterate")
        cost["prox"], cost["dual"] = 3.0 / np.sqrt(t), 3.0 / np.sqrt(u)
        dy = u * L * dx if s["gfirst"] else 0.0
        D0 = np.sqrt(dx**2 / t + 2 * L * dx * dy + dy**2 / u)
        scale = (np.sqrt(t / (1 - q)), np.sqrt(u / (1 - q)))
    for i, (a, b) in enumerate(zip(A, B)):
        err = sum(cost[kd] * e for kd, e in log[: seen[i]])
        for j, what in enumerate(names[: len(a)]):
            allowed = scale[j] * (D0 + err)
            d = nrm(np.asarray(a[j]) - np.asarray(b[j]))
            if not np.isfinite(d):
                raise K.Violation("finite", "%s left the finite numbers at iteration %d" % (name, i + 1))
            slack = SLACK * (1.0 + nrm(a[j]) + nrm(b[j]) + allowed)
            if d > allowed + slack:
                raise K.Violation("grows", "%s, iteration %d: %s of the disturbed run is %.9g away, more than the disturbance allows (%.9g)" % (name, i + 1, what, d, allowed))


def kinds(spec):
    def kd(sp):
        sp = sp.get("of", sp)
        return sp.get("k", sp["c"])

    return [[kd(f) for f in (spec[q] if isinstance(spec[q], list) else [spec[q]])] for q in ("f", "g", "fs", "gs") if q in spec]

"""Solver runs as JSON specs: real execution, and an independent reference
recursion written from the documentation (numpy only, own component copies).

A *component* is an operator handed to a solver: either a simulated one
(SimProx/SimSmooth: plain numpy, possibly inexact, call-count dependent,
non-convex or handing back its own input) or a real catalogue operator.
"""
import numpy as np

from . import catalog as C
from . import kernel as K

S, R = C.S, C.R

# --------------------------------------------------------------------------
# simulated components
_cls = {}


def _simprox_cls():
    if "p" in _cls:
        return _cls["p"]
    import pyproximal

    class SimProx(pyproximal.ProxOperator):
        def __init__(self, sp):
            super().__init__(None, True)
            self.sp = sp
            n = sp["n"]
            self.kind = sp["kind"]
            if self.kind in ("ridge", "quad", "point", "linear"):
                self.c = C.arr(sp["s"], n, sp.get("cx", False))
                if sp.get("nr"):
                    self.c = self.c.reshape(-1, sp["nr"])
            if self.kind == "lin":
                q, _ = np.linalg.qr(np.random.default_rng(sp["s"]).normal(size=(n, n)))
                self.M = q * 0.9
            if self.kind in ("quad",):
                m = sp.get("m", n)
                g = np.random.default_rng(sp["s"] + 1)
                self.B = g.normal(size=(m, n)) / np.sqrt(2.0 * max(m, n))
                if sp.get("cxB"):
                    self.B = (self.B + 1j * g.normal(size=(m, n)) / np.sqrt(2.0 * max(m, n))) / np.sqrt(2.0)
                self.c = C.arr(sp["s"], m, sp.get("cx", False))
            if sp.get("scale") and hasattr(self, "c"):
                self.c = self.c * sp["scale"]
            self.k = 0  # prox calls so far
            self.kd = 0

        # value, deterministic in x
        def __call__(self, x):
            K.seam("call")
            sp, kind = self.sp, self.kind
            if sp.get("ind"):
                v = bool(np.max(np.abs(x)) <= sp["ind"])
                return v if sp["s"] % 2 else np.bool_(v)
            return self._value(x) + sp["off"] if "off" in sp else self._value(x)

        def _value(self, x):
            sp, kind = self.sp, self.kind
            if kind == "linear":
                return float(np.dot(self.c, x).real)
            if kind == "soft":
                return float(sp["a"] * np.sum(np.abs(x)))
            if kind == "hard":
                return float(sp["a"] * np.sum(np.abs(x) > 0))
            if kind == "ridge":
                return float(0.5 * sp["a"] * np.linalg.norm(x - self.c) ** 2)
            if kind == "quad":
                return float(0.5 * np.linalg.norm(self.B @ x - self.c) ** 2)
            if kind == "smooth":
                return float(sp["a"] * np.sum(np.sqrt(1.0 + np.abs(x) ** 2)))
            if kind == "zero":
                return 0.0
            return float(0.5 * sp.get("a", 1.0) * np.linalg.norm(x) ** 2)

        def _raw(self, x, tau):
            sp, kind = self.sp, self.kind
            if kind in ("soft", "zero"):
                a = sp.get("a", 0.0)
                if np.iscomplexobj(x):
                    ab = np.abs(x)
                    return x * (np.maximum(ab - a * tau, 0.0) / np.where(ab > 0, ab, 1.0))
                return np.sign(x) * np.maximum(np.abs(x) - a * tau, 0.0)
            if kind == "hard":
                return x * (np.abs(x) > sp["a"] * np.sqrt(tau))
            if kind == "ridge":
                return (x + tau * sp["a"] * self.c) / (1.0 + tau * sp["a"])
            if kind == "point":  # indicator of one point, kept by the operator
                return self.c
            if kind == "linear":
                return x - tau * self.c
            if kind == "box":
                return np.clip(x, -sp["a"], sp["a"] * 0.7)
            if kind == "lin":
                return (self.M @ x) / (1.0 + tau * sp["a"])
            if kind == "quad":
                return np.linalg.solve(np.eye(x.size) + tau * self.B.conj().T @ self.B, x + tau * self.B.conj().T @ self.c)
            if kind == "smooth":
                return x / (1.0 + tau * sp["a"] / np.sqrt(1.0 + np.abs(x) ** 2))
            return x  # ident: the very same array

        def _noise(self, y, k):
            e = self.sp.get("noise", 0.0) * self.sp.get("scale", 1.0)
            if not e:
                return y
            return y + e * np.cos(1.7 * k + 0.9 * np.arange(y.size)).reshape(y.shape)

        def prox(self, x, tau, **kw):
            K.seam("prox")
            self.k += 1
            return self._noise(self._raw(x, tau), self.k)

        def proxdual(self, x, tau, **kw):
            K.seam("proxdual")
            self.kd += 1
            if self.kind == "ident":
                return x
            return self._noise(x - tau * self._raw(x / tau, 1.0 / tau), self.kd)

        def grad(self, x):
            K.seam("grad")
            sp, kind = self.sp, self.kind
            if kind == "quad":
                g = self.B.conj().T @ (self.B @ x - self.c)
            elif kind == "ridge":
                g = sp["a"] * (x - self.c)
            elif kind == "smooth":
                g = sp["a"] * x / np.sqrt(1.0 + np.abs(x) ** 2)
            elif kind == "ident":
                return x
            elif kind == "linear":
                return self.c
            else:
                g = 0.3 * x
            b = sp.get("bias", 0.0)
            return g + b * np.sin(x) if b else g

    _cls["p"] = SimProx
    return SimProx


# catalogue operators whose prox is total and continuous (up to measure zero)
CATSAFE = ("Box", "L1", "L2", "EuclideanBall", "Euclidean", "L1Ball", "HalfSpace", "Huber", "HuberCircular", "Affine", "Post", "Pre", "Quadratic", "TV", "VStack", "Orthogonal", "Sum", "GenericIntersectionProx", "Adjoint", "RelaxedMumfordShah", "L2Convolve")


def gen_prox(rng, n, cx=False, kinds=None, noise=True, value=False):
    """A component used through prox/proxdual."""
    if kinds is None:
        kinds = ["soft", "hard", "ridge", "box", "lin", "ident", "soft", "ridge", "smooth"]
    if cx:
        kinds = [k for k in kinds if k in ("soft", "ridge", "ident")] or ["soft"]
    if not cx and rng.random() < 0.25 and not value:
        while True:
            sp = C.gen(rng, n, 1, only=CATSAFE, cx=False)
            if all(q["t"] in CATSAFE for q in C.walk(sp)):
                break
        return {"c": "cat", "sp": sp, "n": n}
    k = rng.choice(kinds)
    sp = {"c": "sim", "kind": k, "n": n, "a": R(rng, 0.2, 1.2), "s": S(rng), "cx": cx}
    if noise and k != "ident" and rng.random() < 0.4:
        sp["noise"] = R(rng, 0.01, 0.15)
    return sp


def gen_smooth(rng, n, cx=False, bias=True):
    """A component used through grad (Lipschitz constant below about 1.3)."""
    kinds = ["quad", "ridge", "smooth"] if not cx else ["quad", "ridge"]
    k = rng.choice(kinds)
    sp = {"c": "sim", "kind": k, "n": n, "a": R(rng, 0.3, 1.0), "s": S(rng), "cx": cx}
    if k == "quad":
        sp["m"] = rng.choice([n, n + 2, max(1, n - 1)])
        sp["cxB"] = cx
    if bias and rng.random() < 0.4:
        sp["bias"] = R(rng, 0.02, 0.2)
    return sp


EXTRA = {}  # further kinds of component: name -> builder


def mk(sp):
    if sp["c"] in EXTRA:
        return EXTRA[sp["c"]](sp)
    if sp["c"] == "sim":
        return _simprox_cls()(sp)
    return C.build(sp["sp"]).op


# --------------------------------------------------------------------------
def x0arr(spec, key="x0", n=None):
    s = spec[key]
    if s is None:
        return None
    n = spec["n"] if n is None else n
    x = C.arr(s, n, spec.get("cx", False))
    z = spec.get("x0mode")
    if key == "x0" and z == "zeros":
        x = x * 0.0
    if key == "x0" and z == "large":
        x = x * 6.0
    return x * spec.get("scale", 1.0)


SOLVERS = {}


class Amb(Exception):
    """The reference cannot decide (near tie); comparison stops here."""


def tie(a, b, rel=1e-8):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


class Sol:
    name = None
    ncb = 1

    def gen(self, rng, spec, opts):
        raise NotImplementedError

    def real(self, spec, env, kw):
        raise NotImplementedError

    def model(self, spec, env):
        """Yields ('it', (arrays...)) per iteration and ('end', (arrays...))."""
        raise NotImplementedError


def reg(cls):
    SOLVERS[cls.name] = cls()
    return cls


def eparam(rng, niter, lo, hi, p=0.3):
    """Scalar or per-iteration sequence."""
    if rng.random() < p:
        return [R(rng, lo, hi) for _ in range(niter)]
    return R(rng, lo, hi)


def at(v, k):
    return v[k] if isinstance(v, list) else v


def asnp(v):
    return np.array(v, dtype=float) if isinstance(v, list) else v


def relstop(old, new, tol):
    """|1 - new/old| < tol, refusing near ties."""
    if not np.isfinite(old):
        return False
    d = abs(old - new)
    if old == 0 or not np.isfinite(new):
        raise Amb("objective %r -> %r" % (old, new))
    if tie(d, tol * abs(old), 1e-6) or abs(d - tol * abs(old)) < 1e-13 * abs(old):
        raise Amb("tolerance tie")
    return d < tol * abs(old)


def absstop(d, tol, scale=1.0):
    if tie(d, tol, 1e-6) or abs(d - tol) < 1e-13 * max(scale, 1e-300):
        raise Amb("tolerance tie")
    return d < tol


@reg
class PP(Sol):
    name = "ProximalPoint"

    def gen(self, rng, spec, o):
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"], value=o.get("tol"))
        spec["tau"] = R(rng, 0.1, 1.5)
        spec["tol"] = R(rng, 0.001, 0.3) if o.get("tol") else None

    def real(self, spec, env, kw):
        from pyproximal.optimization.primal import ProximalPoint

        return ProximalPoint(env["f"], env["x0"], spec["tau"], niter=spec["niter"], tol=spec["tol"], **kw)

    def model(self, spec, env):
        x, f = env["x0"].copy(), env["f"]
        old = np.inf
        for k in range(spec["niter"]):
            x = f.prox(x, spec["tau"])
            yield "it", (x,)
            if spec["tol"] is not None:
                new = float(f(x))
                stop = relstop(old, new, spec["tol"])
                old = new
                if stop:
                    break
        yield "end", (x,)


def momentum(acc, k, st):
    if acc == "vandenberghe":
        return k / (k + 3.0)
    if acc == "fista":
        t0 = st[0]
        st[0] = 0.5 * (1.0 + np.sqrt(1.0 + 4.0 * t0 * t0))
        return (t0 - 1.0) / st[0]
    return 0.0


def multi(rng, spec, vec, keys):
    """Sometimes several right-hand sides (a matrix of unknowns), each with its own step."""
    if rng.random() > 0.2 or spec["n"] < 2:
        return
    comps = [c for k in keys for c in (spec[k] if isinstance(spec[k], list) else [spec[k]])]
    for i, c in enumerate(comps):
        smooth = keys[0] in ("f", "fs") and (i == 0 if keys[0] == "f" else c in spec["fs"])
        if c["c"] != "sim" or c["kind"] not in ("soft", "ridge", "box", "ident", "hard", "smooth", "zero"):
            c.clear()
            c.update({"c": "sim", "kind": "ridge" if smooth else rng.choice(["soft", "box"]), "n": spec["n"], "a": R(rng, 0.2, 1.0), "s": S(rng), "cx": False})
            if spec["cx"] and c["kind"] == "box":
                c["kind"] = "soft"
            c["cx"] = spec["cx"]
    nr = rng.choice([k for k in (1, 2, 3, spec["n"]) if spec["n"] % k == 0])
    spec["nr"] = nr if rng.random() < 0.7 else None
    for c in comps:
        c["nr"] = spec["nr"]
    if vec and rng.random() < 0.7:
        spec["tauv"] = [R(rng, 0.2, 0.9) for _ in range(spec["nr"] or spec["n"])]


@reg
class PG(Sol):
    name = "ProximalGradient"

    def gen(self, rng, spec, o):
        bt = rng.random() < 0.35
        spec["f"] = gen_smooth(rng, spec["n"], spec["cx"], bias=not bt or rng.random() < 0.3)
        spec["g"] = gen_prox(rng, spec["n"], spec["cx"], noise=not bt, value=o.get("tol"))
        spec["bt"] = rng.choice(["tau", "notau"]) if bt else None
        spec["tau"] = R(rng, 0.2, 0.9) if not bt else R(rng, 0.5, 20.0)
        spec["beta"] = R(rng, 0.3, 0.8)
        spec["niterback"] = rng.choice([1, 2, 5, 100])
        spec["eta"] = rng.choice([1.0, 1.0, R(rng, 0.4, 0.95)])
        spec["acc"] = rng.choice([None, "vandenberghe", "fista"])
        if o.get("memoryless"):
            spec["acc"], spec["bt"], spec["tau"] = None, None, R(rng, 0.2, 0.9)
        spec["eps"] = eparam(rng, spec["niter"], 0.3, 1.5)
        spec["tol"] = R(rng, 0.001, 0.3) if o.get("tol") else None
        if not o.get("plain"):
            multi(rng, spec, not bt and not o.get("memoryless"), ("f", "g"))
        if rng.random() < 0.12 and spec["acc"] and spec["bt"] == "notau" and spec["eta"] == 1.0 and not isinstance(spec["eps"], list):
            spec["wrapper"] = True

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        if spec.get("wrapper"):
            return P.AcceleratedProximalGradient(env["f"], env["g"], env["x0"], tau=None, beta=spec["beta"], epsg=spec["eps"], niter=spec["niter"], niterback=spec["niterback"], acceleration=spec["acc"], tol=spec["tol"], **kw)
        return P.ProximalGradient(
            env["f"],
            env["g"],
            env["x0"],
            epsg=env["eps"],
            tau=None if spec["bt"] == "notau" else env["tau"],
            backtracking=spec["bt"] == "tau",
            beta=spec["beta"],
            eta=spec["eta"],
            niter=spec["niter"],
            niterback=spec["niterback"],
            acceleration=spec["acc"],
            tol=spec["tol"],
            **kw,
        )

    def model(self, spec, env):
        f, g = env["f"], env["g"]
        x = env["x0"].copy()
        y = x.copy()
        tau = 1.0 if spec["bt"] == "notau" else np.array(spec.get("tauv") or spec["tau"])
        st = [1.0]
        old = np.inf
        for k in range(spec["niter"]):
            prev = x
            e = at(spec["eps"], k)
            if spec["bt"]:
                gr = f.grad(y)
                fy = f(y)
                for _ in range(spec["niterback"]):
                    z = g.prox(y - tau * gr, e * tau)
                    d = z - y
                    model_value = fy + float(np.vdot(gr, d).real) + float(np.vdot(d, d).real) / (2.0 * tau)
                    fz = f(z)
                    if abs(fz - model_value) < 1e-10 * max(abs(fz), abs(fy), 1e-300):
                        raise Amb("backtracking tie")
                    if fz <= model_value:
                        break
                    tau = tau * spec["beta"]
            else:
                z = g.prox(y - tau * f.grad(y), e * tau)
            x = y + spec["eta"] * (z - y) if spec["eta"] != 1.0 else z
            om = momentum(spec["acc"], k, st)
            y = x + om * (x - prev)
            yield "it", (x,)
            if spec["tol"] is not None:
                new = float(f(x) + e * g(x))
                stop = relstop(old, new, spec["tol"])
                old = new
                if stop:
                    break
        yield "end", (x,)


@reg
class AA(Sol):
    name = "AndersonProximalGradient"

    def gen(self, rng, spec, o):
        spec["niter"] = min(spec["niter"], rng.choice([4, 8, 8, 20]))
        spec["n"] = max(spec["n"], 4)
        spec["f"] = gen_smooth(rng, spec["n"], False)
        spec["g"] = gen_prox(rng, spec["n"], False, kinds=["soft", "ridge", "box", "lin", "hard"], value=o.get("tol"))
        spec["cx"] = False
        spec["tau"] = R(rng, 0.2, 0.9)
        if not o.get("plain") and rng.random() < 0.2:
            spec["tau"] = rng.choice([0.0007, 0.001, 0.002, 0.003, 0.01, 0.05])
        if not o.get("plain") and rng.random() < 0.1 and spec["g"].get("kind") in ("soft", "box", "ridge"):
            spec["tauv"] = [R(rng, 0.2, 0.9) for _ in range(spec["n"])]
        spec["nh"] = rng.choice([2, 3, 4, 10])
        spec["epsr"] = rng.choice([1e-10, 1e-3, 0.1])
        spec["safe"] = rng.random() < 0.4 and not spec.get("tauv")
        spec["eps"] = eparam(rng, spec["niter"], 0.3, 1.5)
        spec["tol"] = R(rng, 0.001, 0.3) if o.get("tol") else None

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.AndersonProximalGradient(env["f"], env["g"], env["x0"], epsg=env["eps"], tau=env["tau"], niter=spec["niter"], nhistory=spec["nh"], epsr=spec["epsr"], safeguard=spec["safe"], tol=spec["tol"], **kw)

    def model(self, spec, env):
        f, g, tau = env["f"], env["g"], np.array(spec.get("tauv") or spec["tau"])
        x0 = env["x0"]
        y = x0 - tau * f.grad(x0)
        x = g.prox(y, at(spec["eps"], 0) * tau)
        G, Rs = [y], [y - x0]
        pf = f(x)
        old = np.inf
        err = 0.0
        for k in range(spec["niter"]):
            gk = x - tau * f.grad(x)
            G = ([gk] + G)[: spec["nh"]] if k >= spec["nh"] - 1 else [gk] + G
            Rs = ([gk - y] + Rs)[: len(G)]
            M = np.array(Rs)
            T = M @ M.T
            T = T + spec["epsr"] * np.linalg.norm(M) ** 2
            if not np.linalg.cond(T) <= 4e7:
                raise Amb("ill conditioned")
            w = np.linalg.solve(T, np.ones(len(Rs)))
            if abs(w.sum()) < 1e-6 * np.abs(w).sum():
                raise Amb("ill conditioned")
            w = w / w.sum()
            err = np.abs(w).sum() * err + 2e-16 * np.linalg.cond(T)
            if err > 1e-8:
                raise Amb("ill conditioned")
            cand = sum(a * b for a, b in zip(w, G))
            e = at(spec["eps"], k)
            if not spec["safe"]:
                y = cand
                x = g.prox(y, e * tau)
            else:
                xt = g.prox(cand, e * tau)
                pold, pf = pf, f(xt)
                thr = pold - tau * np.linalg.norm(f.grad(x)) ** 2 / 2
                if abs(pf - thr) < 1e-7 * max(abs(pf), abs(pold)):
                    raise Amb("safeguard tie")
                if pf <= thr:
                    y, x = cand, xt
                else:
                    x = g.prox(gk, e * tau)
                    y = gk
                    pf = f(x)
            yield "it", (x,)
            if spec["tol"] is not None:
                pf = f(x)
                new = float(pf + e * g(x))
                stop = relstop(old, new, spec["tol"])
                old = new
                if stop:
                    break
        yield "end", (x,)


@reg
class GPG(Sol):
    name = "GeneralizedProximalGradient"

    def gen(self, rng, spec, o):
        m = rng.choice([1, 2, 3, 6, 7])
        spec["fs"] = [gen_smooth(rng, spec["n"], spec["cx"]) for _ in range(rng.randint(1, 3))]
        spec["gs"] = [gen_prox(rng, spec["n"], spec["cx"], noise=True) for _ in range(m)]
        spec["w"] = None
        if rng.random() < 0.5:
            w = [R(rng, 0.3, 1.0) for _ in range(m)]
            t = sum(w)
            spec["w"] = [a / t for a in w]
        spec["tau"] = R(rng, 0.1, 0.6) if rng.random() < 0.85 else None
        spec["eps"] = [R(rng, 0.2, 1.2) for _ in range(m)] if rng.random() < 0.5 else R(rng, 0.2, 1.2)
        spec["eta"] = rng.choice([1.0, R(rng, 0.4, 1.3)])
        spec["acc"] = rng.choice([None, "vandenberghe", "fista"])
        o.get("plain") or multi(rng, spec, False, ("fs", "gs"))

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.GeneralizedProximalGradient(env["fs"], env["gs"], env["x0"], spec["tau"], epsg=env["eps"], weights=env["w"], eta=spec["eta"], niter=spec["niter"], acceleration=spec["acc"], **kw)

    def model(self, spec, env):
        fs, gs = env["fs"], env["gs"]
        m = len(gs)
        w = spec["w"] or [1.0 / m] * m
        tau = 1.0 if spec["tau"] is None else spec["tau"]
        x = env["x0"].copy()
        y = x
        zs = [x] * m
        st = [1.0]
        eta = 1.0 if spec["acc"] else spec["eta"]  # relaxation only without acceleration
        for k in range(spec["niter"]):
            prev = x
            gr = sum(f.grad(x) for f in fs)
            new = []
            for j in range(m):
                t = gs[j].prox(2 * y - zs[j] - tau * gr, tau * at(spec["eps"], j) / w[j])
                new.append(zs[j] + eta * (t - y))
            zs = new
            x = sum(a * b for a, b in zip(w, zs))
            y = x + momentum(spec["acc"], k, st) * (x - prev)
            yield "it", (x,)
        yield "end", (x,)


@reg
class HQSs(Sol):
    name = "HQS"
    two = True

    def gen(self, rng, spec, o):
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["tau"] = eparam(rng, spec["niter"], 0.1, 1.5)
        spec["gfirst"] = rng.random() < 0.5
        gen_z0(rng, spec)

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.HQS(env["f"], env["g"], env["x0"], env["tau"], niter=spec["niter"], z0=env["z0"], gfirst=spec["gfirst"], **kw)

    def model(self, spec, env):
        f, g = env["f"], env["g"]
        x, z = start_xz(env)
        for k in range(spec["niter"]):
            t = at(spec["tau"], k)
            if spec["gfirst"]:
                z = g.prox(x, t)
                x = f.prox(z, t)
            else:
                x = f.prox(z, t)
                z = g.prox(x, t)
            yield "it", (x, z)
        yield "end", (x, z)


def gen_z0(rng, spec):
    spec["z0"] = S(rng) if rng.random() < 0.4 else None
    spec["nox0"] = bool(spec["z0"] is not None and rng.random() < 0.3)


def start_xz(env):
    x, z = env["x0"], env["z0"]
    if x is None:
        x = z
    if z is None:
        z = x
    return x.copy(), z.copy()


@reg
class ADMMs(Sol):
    name = "ADMM"
    two = True

    def gen(self, rng, spec, o):
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["tau"] = R(rng, 0.1, 1.5)
        spec["gfirst"] = rng.random() < 0.5
        gen_z0(rng, spec)

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.ADMM(env["f"], env["g"], env["x0"], spec["tau"], niter=spec["niter"], z0=env["z0"], gfirst=spec["gfirst"], **kw)

    def model(self, spec, env):
        f, g, t = env["f"], env["g"], spec["tau"]
        x, z = start_xz(env)
        u = np.zeros_like(x)
        for k in range(spec["niter"]):
            if spec["gfirst"]:
                z = g.prox(x + u, t)
                x = f.prox(z - u, t)
            else:
                x = f.prox(z - u, t)
                z = g.prox(x + u, t)
            u = u + x - z
            yield "it", (x, z)
        yield "end", (x, z)


def gen_A(rng, spec, big=True):
    n = spec["n"]
    a = C.gen_linop(rng, n, None, spec["cx"])
    spec["A"] = a


def sqnorm(a):
    M = C.linop_mat(a)
    return float(np.linalg.norm(M, 2)) ** 2


@reg
class ADMML2s(Sol):
    name = "ADMML2"

    def gen(self, rng, spec, o):
        gen_A(rng, spec)
        p = spec["A"]["m"]
        spec["Op"] = C.gen_linop(rng, spec["n"], None, spec["cx"], kinds=("matrix", "free", "identity", "diag"))
        spec["b"] = S(rng)
        spec["g"] = gen_prox(rng, p, spec["cx"])
        spec["tau"] = R(rng, 0.2, 1.0)
        spec["gfirst"] = rng.random() < 0.5
        spec["z0"] = S(rng) if rng.random() < 0.4 else None
        spec["iter_lim"] = rng.choice([2, 5, 60])

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.ADMML2(env["g"], env["Op"], env["b"], env["A"], env["x0"], spec["tau"], niter=spec["niter"], z0=env["z0"], gfirst=spec["gfirst"], iter_lim=spec["iter_lim"], atol=1e-14, btol=1e-14, **kw)

    def model(self, spec, env):
        from scipy.sparse.linalg import lsqr

        g, tau = env["g"], spec["tau"]
        A, Op, b = C.linop_mat(spec["A"]), C.linop_mat(spec["Op"]), env["b"]
        x = env["x0"].copy()
        z = A @ x if env["z0"] is None else env["z0"].copy()
        u = np.zeros_like(z)
        M = np.vstack([Op, A / np.sqrt(tau)])
        if np.linalg.cond(M) > 1e6:
            raise Amb("ill conditioned inner problem")

        def xup(x, z, u):
            d = np.concatenate([b, (z - u) / np.sqrt(tau)])
            return x + lsqr(M, d - M @ x, iter_lim=spec["iter_lim"], atol=1e-14, btol=1e-14)[0]

        for k in range(spec["niter"]):
            if spec["gfirst"]:
                z = g.prox(A @ x + u, tau)
                x = xup(x, z, u)
            else:
                x = xup(x, z, u)
                z = g.prox(A @ x + u, tau)
            u = u + A @ x - z
            yield "it", (x,)
        yield "end", (x, z)


@reg
class LADMM(Sol):
    name = "LinearizedADMM"

    def gen(self, rng, spec, o):
        gen_A(rng, spec)
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, spec["A"]["m"], spec["cx"])
        spec["tau"] = R(rng, 0.3, 1.5)
        spec["mu"] = round(spec["tau"] * R(rng, 0.3, 0.95) / max(0.2, sqnorm(spec["A"])), 6)
        spec["z0"] = S(rng) if rng.random() < 0.4 else None

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.LinearizedADMM(env["f"], env["g"], env["A"], env["x0"], spec["tau"], spec["mu"], niter=spec["niter"], z0=env["z0"], **kw)

    def model(self, spec, env):
        f, g, A = env["f"], env["g"], C.linop_mat(spec["A"])
        x = env["x0"].copy()
        Ax = A @ x
        z = Ax if env["z0"] is None else env["z0"].copy()
        u = np.zeros_like(z)
        for k in range(spec["niter"]):
            x = f.prox(x - spec["mu"] / spec["tau"] * (A.conj().T @ (Ax - z + u)), spec["mu"])
            Ax = A @ x
            z = g.prox(Ax + u, spec["tau"])
            u = u + Ax - z
            yield "it", (x,)
        yield "end", (x, z)


@reg
class TwISTs(Sol):
    name = "TwIST"

    def gen(self, rng, spec, o):
        n = spec["n"]
        spec["A"] = {"t": rng.choice(["matrix", "free"]), "m": rng.choice([n, n + 2]), "n": n, "s": S(rng), "scale": 0.7, "cx": spec["cx"]}
        spec["b"] = S(rng)
        spec["g"] = gen_prox(rng, n, spec["cx"])
        if spec["n"] >= 4 and not o.get("plain") and rng.random() < 0.35:
            # everything left to TwIST, which computes the eigenvalues (ARPACK)
            spec["alpha"] = spec["beta"] = spec["eigs"] = None
        elif rng.random() < 0.5:
            spec["alpha"], spec["beta"], spec["eigs"] = R(rng, 0.8, 1.4), R(rng, 0.5, 1.5), None
        else:
            spec["alpha"] = spec["beta"] = None
            spec["eigs"] = [R(rng, 0.6, 1.5), R(rng, 0.01, 0.6)]
        spec["rc"] = rng.random() < 0.4

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.TwIST(env["g"], env["A"], env["b"], env["x0"], alpha=spec["alpha"], beta=spec["beta"], eigs=tuple(spec["eigs"]) if spec["eigs"] else None, niter=spec["niter"], returncost=kw.pop("returncost", spec["rc"]), **kw)

    def model(self, spec, env):
        g, A, b = env["g"], C.linop_mat(spec["A"]), env["b"]
        al, be = spec["alpha"], spec["beta"]
        if al is None:
            if spec["eigs"]:
                big, small = max(1.0, spec["eigs"][0]), spec["eigs"][1]
            else:
                ev = np.linalg.eigvalsh(A.conj().T @ A)
                big, small = max(1.0, ev[-1]), ev[0]
                if small < 1e-7 * big:
                    raise Amb("singular")  # sqrt amplifies the rounding of the smallest eigenvalue
            k = small / big
            rho = (1 - np.sqrt(k)) / (1 + np.sqrt(k))
            al = 1 + rho * rho
            be = 2 * al / (big + small)
        prev = env["x0"].copy()

        def step(v):
            return g.prox(v + A.conj().T @ (b - A @ v), 1.0)

        x = step(prev)
        js = []
        for k in range(spec["niter"]):
            nxt = (1 - al) * prev + (al - be) * x + be * step(x)
            prev, x = x, nxt
            if spec["rc"]:
                js.append(0.5 * np.linalg.norm(A @ x - b) ** 2 + float(g(x)))
            yield "it", (x,)
        yield "end", ((x, np.array(js)) if spec["rc"] else (x,))


@reg
class DRSs(Sol):
    name = "DouglasRachfordSplitting"
    two = True

    def gen(self, rng, spec, o):
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["tau"] = R(rng, 0.1, 1.5)
        spec["eta"] = rng.choice([1.0, R(rng, 0.3, 1.8)])
        spec["gfirst"] = rng.random() < 0.5

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.DouglasRachfordSplitting(env["f"], env["g"], env["x0"], spec["tau"], eta=spec["eta"], niter=spec["niter"], gfirst=spec["gfirst"], **kw)

    def model(self, spec, env):
        f, g, t = env["f"], env["g"], spec["tau"]
        a, b = (g, f) if spec["gfirst"] else (f, g)
        y = env["x0"].copy()
        for k in range(spec["niter"]):
            x = a.prox(y, t)
            y = y + spec["eta"] * (b.prox(2 * x - y, t) - x)
            yield "it", (x, y)
        yield "end", (x, y)


@reg
class PPXAs(Sol):
    name = "PPXA"

    def gen(self, rng, spec, o):
        m = rng.choice([1, 2, 3, 5])
        spec["fs"] = [gen_prox(rng, spec["n"], spec["cx"]) for _ in range(m)]
        spec["tau"] = R(rng, 0.1, 1.2)
        spec["eta"] = rng.choice([1.0, R(rng, 0.4, 1.6)])
        spec["w"] = None
        if rng.random() < 0.5 and m > 1:
            w = [R(rng, 0.3, 1.0) for _ in range(m)]
            t = sum(w)
            spec["w"] = [a / t for a in w]
        spec["warr"] = rng.random() < 0.5
        spec["x0s"] = [S(rng) for _ in range(m)] if rng.random() < 0.4 else None
        spec["x0form"] = rng.choice(["list", "array"])
        spec["tol"] = R(rng, 0.001, 0.3) if o.get("tol") else (None if rng.random() < 0.5 else 0.0)

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.PPXA(env["fs"], env["x0"], spec["tau"], eta=spec["eta"], weights=env["w"], niter=spec["niter"], tol=spec["tol"], **kw)

    def model(self, spec, env):
        fs, tau = env["fs"], spec["tau"]
        m = len(fs)
        w = spec["w"] or [1.0 / m] * m
        if spec["x0s"] is None:
            ys = [env["x0"].copy() for _ in range(m)]
        else:
            ys = [np.array(v) for v in env["x0"]]
        x = sum(a * b for a, b in zip(w, ys))
        for k in range(spec["niter"]):
            ps = [fs[i].prox(ys[i], tau / w[i]) for i in range(m)]
            p = sum(a * b for a, b in zip(w, ps))
            ys = [ys[i] + spec["eta"] * (2 * p - x - ps[i]) for i in range(m)]
            new = x + spec["eta"] * (p - x)
            d = float(np.max(np.abs(new - x)))
            x = new
            yield "it", (x,)
            if spec["tol"] and absstop(d, spec["tol"], float(np.max(np.abs(x)))):
                break
            if spec["tol"] == 0.0 and d < 1e-13:
                raise Amb("stationary")
        yield "end", (x,)


@reg
class CADMM(Sol):
    name = "ConsensusADMM"

    def gen(self, rng, spec, o):
        m = rng.choice([1, 2, 3, 5])
        spec["fs"] = [gen_prox(rng, spec["n"], spec["cx"]) for _ in range(m)]
        spec["tau"] = R(rng, 0.1, 1.2)
        spec["tol"] = R(rng, 0.001, 0.3) if o.get("tol") else (None if rng.random() < 0.5 else 0.0)

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.ConsensusADMM(env["fs"], env["x0"], spec["tau"], niter=spec["niter"], tol=spec["tol"], **kw)

    def model(self, spec, env):
        fs, tau = env["fs"], spec["tau"]
        m = len(fs)
        xb = env["x0"].copy()
        ys = [np.zeros_like(xb) for _ in range(m)]
        for k in range(spec["niter"]):
            xs = [fs[i].prox(xb - ys[i], tau) for i in range(m)]
            new = sum(xs) / m
            ys = [ys[i] + xs[i] - new for i in range(m)]
            d = float(np.max(np.abs(new - xb)))
            xb = new
            yield "it", (xb,)
            if spec["tol"] and absstop(d, spec["tol"], float(np.max(np.abs(xb)))):
                break
            if spec["tol"] == 0.0 and d < 1e-13:
                raise Amb("stationary")
        yield "end", (xb,)


@reg
class PDs(Sol):
    name = "PrimalDual"
    two = True

    def gen(self, rng, spec, o):
        gen_A(rng, spec)
        m = spec["A"]["m"]
        if spec["A"]["t"] == "free" and rng.random() < 0.3:
            spec["A"]["adjs"] = S(rng)
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, m, spec["cx"])
        L = np.sqrt(max(0.2, sqnorm(spec["A"])))
        t = round(R(rng, 0.3, 0.95) / L, 6)
        spec["tau"] = [round(t * R(rng, 0.5, 1.0), 6) for _ in range(spec["niter"])] if rng.random() < 0.35 else t
        spec["mu"] = [round(t * R(rng, 0.5, 1.0), 6) for _ in range(spec["niter"])] if rng.random() < 0.35 else t
        spec["theta"] = rng.choice([1.0, 0.0, R(rng, 0.2, 1.0)])
        spec["gfirst"] = rng.random() < 0.5
        spec["y0"] = S(rng) if rng.random() < 0.4 else None
        spec["z"] = S(rng) if rng.random() < 0.4 else None
        spec["ry"] = rng.random() < 0.5

    def real(self, spec, env, kw):
        from pyproximal.optimization import primaldual as P

        return P.PrimalDual(env["f"], env["g"], env["A"], env["x0"], env["tau"], env["mu"], y0=env["y0"], z=env["z"], theta=spec["theta"], niter=spec["niter"], gfirst=spec["gfirst"], returny=kw.pop("returny", spec["ry"]), **kw)

    def model(self, spec, env):
        f, g = env["f"], env["g"]
        A, AH = matpair(spec["A"])
        x = env["x0"].copy()
        y = np.zeros(A.shape[0], x.dtype) if env["y0"] is None else env["y0"].copy()
        z = 0.0 if env["z"] is None else env["z"]
        xh = x
        for k in range(spec["niter"]):
            t, mu = at(spec["tau"], k), at(spec["mu"], k)
            if spec["gfirst"]:
                y = g.proxdual(y + mu * (A @ xh), mu)
                new = f.prox(x - t * (AH @ y + z), t)
                xh = new + spec["theta"] * (new - x)
                x = new
            else:
                new = f.prox(x - t * (AH @ y + z), t)
                xh = new + spec["theta"] * (new - x)
                x = new
                y = g.proxdual(y + mu * (A @ xh), mu)
            yield "it", (x, y)
        yield "end", ((x, y) if spec["ry"] else (x,))


def matpair(a):
    M = C.linop_mat(a)
    H = M.conj().T
    if a.get("adjs"):
        H = H + 0.05 * np.random.default_rng(a["adjs"]).normal(size=H.shape)
    return M, H


@reg
class APDs(Sol):
    name = "AdaptivePrimalDual"

    def gen(self, rng, spec, o):
        gen_A(rng, spec)
        spec["f"] = gen_prox(rng, spec["n"], spec["cx"])
        spec["g"] = gen_prox(rng, spec["A"]["m"], spec["cx"])
        spec["tau"] = R(rng, 0.1, 2.0)
        spec["mu"] = R(rng, 0.1, 2.0)
        spec["alpha"] = R(rng, 0.2, 0.7)
        spec["eta"] = R(rng, 0.6, 0.98)
        spec["s"] = R(rng, 0.4, 2.0)
        spec["delta"] = R(rng, 1.05, 2.0)
        spec["z"] = S(rng) if rng.random() < 0.5 else None
        spec["tol"] = R(rng, 0.02, 0.6) if o.get("tol") else rng.choice([1e-10, 0.0])

    def real(self, spec, env, kw):
        from pyproximal.optimization import primaldual as P

        return P.AdaptivePrimalDual(env["f"], env["g"], env["A"], env["x0"], spec["tau"], spec["mu"], alpha=spec["alpha"], eta=spec["eta"], s=spec["s"], delta=spec["delta"], z=env["z"], niter=spec["niter"], tol=spec["tol"], **kw)

    def model(self, spec, env):
        f, g, A = env["f"], env["g"], C.linop_mat(spec["A"])
        x = env["x0"].copy()
        y = np.zeros(A.shape[0], x.dtype)
        Ax = np.zeros(A.shape[0], x.dtype)
        ATy = np.zeros(A.shape[1], x.dtype)
        z = 0.0 if env["z"] is None else env["z"]
        tau, mu, al = spec["tau"], spec["mu"], spec["alpha"]
        hist = [(tau, mu, al)]
        for k in range(spec["niter"]):
            xn = f.prox(x - tau * (ATy + z), tau)
            Axn = A @ xn
            yn = g.proxdual(y + mu * (2 * Axn - Ax), mu)
            ATyn = A.conj().T @ yn
            p = float(np.linalg.norm((x - xn) / tau - (ATy - ATyn)))
            d = float(np.linalg.norm((y - yn) / mu - (Ax - Axn)))
            hi, lo = spec["s"] * d * spec["delta"], spec["s"] * d / spec["delta"]
            if tie(p, hi, 1e-7) or tie(p, lo, 1e-7) or max(p, d) < 1e-9:
                raise Amb("residual tie")
            if p > hi:
                tau, mu, al = tau / (1 - al), mu * (1 - al), al * spec["eta"]
            elif p < lo:
                tau, mu, al = tau * (1 - al), mu / (1 - al), al * spec["eta"]
            x, y, Ax, ATy = xn, yn, Axn, ATyn
            hist.append((tau, mu, al))
            yield "it", (x,)
            if k + 1 < spec["niter"]:
                if spec["tol"] and (tie(p, spec["tol"], 1e-6) or tie(d, spec["tol"], 1e-6)):
                    raise Amb("tolerance tie")
                if not (p > spec["tol"] and d > spec["tol"]):
                    break
        h = np.array(hist)
        yield "end", (x, h[:, 0], h[:, 1], h[:, 2])


PRIMAL = ("ProximalPoint", "ProximalGradient", "ProximalGradient", "ProximalGradient", "AndersonProximalGradient", "GeneralizedProximalGradient", "HQS", "ADMM", "ADMML2", "LinearizedADMM", "TwIST", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM")
DUAL = ("PrimalDual", "AdaptivePrimalDual")
CXOK = ("ProximalPoint", "ProximalGradient", "GeneralizedProximalGradient", "HQS", "ADMM", "ADMML2", "LinearizedADMM", "TwIST", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM", "PrimalDual", "AdaptivePrimalDual")
TOLS = ("ProximalPoint", "ProximalGradient", "AndersonProximalGradient", "PPXA", "ConsensusADMM", "AdaptivePrimalDual")
FAR = (1e-3, 1e-2, 0.1, 5.0, 30.0, 300.0)
MILD = (0.1, 5.0, 20.0)
STEPS = {"ProximalPoint": FAR, "HQS": FAR, "ADMM": FAR, "DouglasRachfordSplitting": FAR, "PPXA": FAR, "ConsensusADMM": FAR, "LinearizedADMM": MILD, "ADMML2": MILD, "AdaptivePrimalDual": MILD}


def gen(rng, names, niters=(1, 2, 3, 4, 5, 7, 10, 15), cx=True, **o):
    name = rng.choice(names)
    n = rng.choice([1, 2, 3, 5, 8]) if rng.random() < 0.9 else rng.randint(9, 20)
    nit = rng.choice(niters)
    if max(niters) >= 10 and rng.random() < 0.08:
        nit = rng.randint(16, 120) if rng.random() < 0.85 else rng.randint(121, 400)
        n = min(n, 5)
    spec = {"solver": name, "n": n, "niter": nit, "cx": bool(cx and name in CXOK and rng.random() < 0.15), "x0": S(rng), "x0mode": rng.choice(["normal", "normal", "zeros", "large"])}
    SOLVERS[name].gen(rng, spec, o)
    k = {"ProximalGradient": "eps", "AndersonProximalGradient": "eps", "GeneralizedProximalGradient": "eps", "HQS": "tau"}.get(name)
    if k and not isinstance(spec[k], list) and not spec.get("wrapper") and not o.get("plain") and rng.random() < 0.1:
        spec["one"] = [k]  # the scalar as an array with one entry
    if not o.get("plain") and name not in ("PALM", "iPALM", "PGBilinear") and rng.random() < (0.3 if o.get("tol") else 0.12):
        rescale(rng, spec)
    if not o.get("plain") and name in STEPS and isinstance(spec.get("tau"), float) and rng.random() < 0.12:
        f = rng.choice(STEPS[name])  # a step size far from the usual
        spec["tau"] = spec["tau"] * f
        if name == "LinearizedADMM":
            spec["mu"] = spec["mu"] * f
    if not o.get("plain") and (spec.get("y0") is not None or spec.get("z0") is not None) and rng.random() < 0.15:
        spec["start0"] = True  # dual or auxiliary start exactly zero
    if not o.get("plain") and rng.random() < (0.2 if o.get("tol") else 0.05):
        for c in sims(spec):
            if rng.random() < 0.6 and not c.get("ind"):
                c["off"] = R(rng, -6.0, 6.0)  # objectives need not be positive
    return spec


def sims(spec):
    q = spec["inner"] if isinstance(spec.get("inner"), dict) else spec
    for k in ("f", "g"):
        if isinstance(q.get(k), dict) and q[k].get("c") == "sim":
            yield q[k]
    for k in ("fs", "gs"):
        for c in q.get(k) or ():
            if c.get("c") == "sim":
                yield c


def rescale(rng, spec):
    """The same kind of run with unknowns of an unusual magnitude."""
    s = rng.choice([1e-5, 1e-3, 1e3, 1e4, 1e6])
    spec["scale"] = s
    for c in sims(spec):
        c["scale"] = s
        if c["kind"] in ("soft", "hard", "box", "zero") and "a" in c:
            c["a"] = round(c["a"] * s, 12)
    f = s * rng.choice([1.0, 1.0, 0.1, 0.01])
    if spec["solver"] in ("PPXA", "ConsensusADMM", "AdaptivePrimalDual") and spec.get("tol"):
        spec["tol"] = spec["tol"] * f
    if spec["solver"] == "Bregman":
        spec["tolx"] = spec["tolx"] * f
        spec["tolf"] = spec["tolf"] * f * f


class _PairLinOp:
    pass


def mklinop(a):
    if a.get("adjs"):
        base = C._linop_class()[0]
        M, H = matpair(a)

        class Inexact(base):
            def _rmatvec(self, x):
                K.seam("rmatvec")
                return H @ x

        return Inexact(M, str(M.dtype))
    return C.linop(a)


def make_env(spec):
    """Live arguments of a run. Everything here belongs to the caller."""
    env = {}
    n = spec["n"]
    cx = spec.get("cx", False)
    sc = spec.get("scale", 1.0)
    for k in ("f", "g"):
        if isinstance(spec.get(k), dict):
            env[k] = mk(spec[k])
    for k in ("fs", "gs"):
        if k in spec:
            env[k] = [mk(s) for s in spec[k]]
    for k in ("A", "Op"):
        if k in spec:
            env[k] = mklinop(spec[k])
    env["x0"] = x0arr(spec)
    if spec.get("nr"):
        env["x0"] = env["x0"].reshape(-1, spec["nr"])
    if spec.get("x0s") is not None:
        v = [C.arr(s, n, cx) * sc for s in spec["x0s"]]
        env["x0"] = v if spec["x0form"] == "list" else np.array(v)
    env["z0"] = None
    if spec.get("z0") is not None:
        env["z0"] = C.arr(spec["z0"], spec["A"]["m"] if "A" in spec else n, cx) * sc
    if spec.get("start0") and env["z0"] is not None:
        env["z0"] = env["z0"] * 0.0
    if spec.get("nox0"):
        env["x0"] = None
    if "b" in spec:
        env["b"] = C.arr(spec["b"], (spec["Op"] if "Op" in spec else spec["A"])["m"], cx) * sc
    env["y0"] = C.arr(spec["y0"], spec["A"]["m"], cx) * sc if spec.get("y0") is not None and "A" in spec else None
    if spec.get("start0") and env["y0"] is not None:
        env["y0"] = env["y0"] * 0.0
    env["z"] = C.arr(spec["z"], n, cx) * 0.3 * sc if spec.get("z") is not None else None
    for k in ("eps", "tau", "mu"):
        if k in spec:
            env[k] = asnp(spec[k])
            if k in spec.get("one", ()):
                env[k] = np.array([env[k]])
    if spec.get("tauv"):
        env["tau"] = np.array(spec["tauv"])
    if hasattr(SOLVERS[spec["solver"]], "env"):
        SOLVERS[spec["solver"]].env(spec, env)
    if "w" in spec:
        env["w"] = (np.array(spec["w"]) if spec.get("warr", True) else list(spec["w"])) if spec["w"] else None
    return env


def flat(res):
    """Result of a solver as a flat tuple of arrays."""
    out = []
    for r in res if isinstance(res, tuple) else (res,):
        if isinstance(r, tuple):
            out.extend(flat(r))
        else:
            out.append(r)
    return tuple(out)


def cbargs(spec, two):
    s = SOLVERS[spec["solver"]]
    if not getattr(s, "two", False) or not two or spec["solver"] in ("PALM", "iPALM"):
        return {}
    return {"callbackz": True} if spec["solver"] in ("HQS", "ADMM") else {"callbacky": True}


def run_real(spec, env, two=False, cb=None, keep=True, show=False, **extra):
    """-> (iterates, result, exception)."""
    its = []

    def callback(*a):
        K.seam("callback")
        if keep:
            its.append(tuple(np.array(v) for v in a))
        if cb is not None:
            cb(len(its) if keep else 0, a)

    kw = dict(callback=callback, show=show)
    if getattr(SOLVERS[spec["solver"]], "nocb", False):
        kw = {}
    kw.update(cbargs(spec, two))
    kw.update(extra)
    res = SOLVERS[spec["solver"]].real(spec, env, kw)
    return its, flat(res)


class Shaken:
    """A component whose answers carry a relative error of 1e-12."""

    def __init__(self, of):
        self.of = of
        self.k = 0

    def __getattr__(self, name):
        return getattr(self.of, name)

    def __call__(self, x):
        return self.of(x)

    def _shake(self, v):
        self.k += 1
        if not isinstance(v, np.ndarray) or v.dtype.kind not in "fc":
            return v
        return v * (1.0 + 1e-12 * np.cos(2.3 * self.k + 1.1 * np.arange(v.size))).reshape(v.shape)

    def prox(self, x, tau, **kw):
        return self._shake(self.of.prox(x, tau, **kw))

    def proxdual(self, x, tau, **kw):
        return self._shake(self.of.proxdual(x, tau, **kw))

    def grad(self, x):
        return self._shake(self.of.grad(x))


def shaken(spec):
    env = make_env(spec)
    for k in ("f", "g"):
        if env.get(k) is not None:
            env[k] = Shaken(env[k])
    for k in ("fs", "gs"):
        if k in env:
            env[k] = [Shaken(c) for c in env[k]]
    for k in ("x0", "y0"):
        v = env.get(k)
        if isinstance(v, np.ndarray) and v.dtype.kind in "fc":
            env[k] = v + (1e-12 * max(spec.get("scale", 1.0), float(np.max(np.abs(v), initial=0.0))) * np.cos(1.3 * np.arange(v.size))).reshape(v.shape)
    return env


def run_model(spec, env):
    """-> (iterates, result or None, note); the iterates end where round-off would show."""
    its, end, note = _run_model(spec, env)
    if len(its) < 8:
        return its, end, note
    alt, aend, anote = _run_model(spec, shaken(spec))
    for k, (u, v) in enumerate(zip(its, alt)):
        for a, b in zip(u, v):
            if a.shape != b.shape or not float(np.max(np.abs(a - b), initial=0.0)) <= 1e-9 * max(1e-3, float(np.max(np.abs(a), initial=0.0))):
                return its[:k], None, "sensitive to round-off"
    if len(alt) < len(its):
        return its[: len(alt)], None, "sensitive to round-off"
    if len(alt) > len(its) and note is None and len(its) < spec["niter"] and not getattr(SOLVERS[spec["solver"]], "nocb", False):
        note = "sensitive to round-off"
    return its, end, note


def _run_model(spec, env):
    its, end, note = [], None, None
    with np.errstate(all="ignore"):
        try:
            for kind, v in SOLVERS[spec["solver"]].model(spec, env):
                if kind == "it":
                    its.append(v)
                    big = max((float(np.max(np.abs(a))) if a.size else 0.0) for a in v)
                    if not np.isfinite(big) or big > 1e7 * max(1.0, spec.get("scale", 1.0)):
                        note = "diverging"
                        break
                else:
                    end = v
        except Amb as e:
            note = str(e)
    return its, end, note

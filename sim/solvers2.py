"""PALM family and the solvers that drive another solver."""
import numpy as np

from . import catalog as C
from . import kernel as K
from . import solvers as V
from .solvers import Amb, R, S, Sol, gen_prox, gen_smooth, mk, reg

# -- bilinear operators ------------------------------------------------------
_b = {}


def simbilinear_class():
    """User supplied bilinear function 1/2 |d - vec(XY)|^2 + c/2 (|X|^2 + |Y|^2).

    Everything but its values (held blocks, updates) is the library's base
    class.  Notes which blocks are held whenever it is evaluated.
    """
    if "c" in _b:
        return _b["c"]
    from pyproximal.utils.bilinear import BilinearOperator

    class SimBilinear(BilinearOperator):
        def __init__(self, sp):
            super().__init__()
            self.sp = sp
            self.nn, self.mm, self.k = sp["nn"], sp["mm"], sp["k"]
            self.sizex, self.sizey = self.nn * self.k, self.mm * self.k
            self.d = C.arr(sp["d"], self.nn * self.mm).reshape(self.nn, self.mm)
            self.c = sp["c"]
            self.x = C.arr(sp["X"], self.sizex)
            self.y = C.arr(sp["Y"], self.sizey)

        def _X(self, x):
            return x.reshape(self.nn, self.k)

        def _Y(self, y):
            return y.reshape(self.k, self.mm)

        def __call__(self, x, y=None):
            K.seam("H")
            if y is None:
                x, y = x[: self.sizex], x[self.sizex :]
            r = self.d - self._X(x) @ self._Y(y)
            return float(0.5 * np.linalg.norm(r) ** 2 + 0.5 * self.c * (np.linalg.norm(x) ** 2 + np.linalg.norm(y) ** 2))

        def gradx(self, x):
            K.seam("gradx")
            Y = self._Y(np.asarray(self.y))
            return (-(self.d - self._X(x) @ Y) @ Y.T).ravel() + self.c * x

        def grady(self, y):
            K.seam("grady")
            X = self._X(np.asarray(self.x))
            return (-X.T @ (self.d - X @ self._Y(y))).ravel() + self.c * y

        def grad(self, v):
            return np.hstack([self.gradx(v[: self.sizex]), self.grady(v[self.sizex :])])

        def lx(self, x):
            K.seam("lx")
            X = self._X(x)
            return float(np.linalg.norm(X.T @ X)) + self.c

        def ly(self, y):
            K.seam("ly")
            Y = self._Y(y)
            return float(np.linalg.norm(Y @ Y.T)) + self.c

    _b["c"] = SimBilinear
    return SimBilinear


def gen_H(rng, backtrack_only=False, cx=False):
    if rng.random() < 0.4 and not cx:
        sp = C.gen_bilinear(rng, op=False, cx=False)
        sp.update(t="SimBilinear", c=R(rng, 0.05, 0.5))
        return sp
    sp = C.gen_bilinear(rng, op=backtrack_only, cx=cx)
    return sp


def mkH(sp):
    if sp["t"] == "SimBilinear":
        return simbilinear_class()(sp)
    return C.build(sp).op


class MH:
    """Numpy model of the bilinear functions above (explicit blocks)."""

    def __init__(self, sp):
        self.sp = sp
        self.nn, self.mm, self.k = sp["nn"], sp["mm"], sp["k"]
        cx = sp["cx"]
        op = sp["op"]
        self.M = C.linop_mat(op) if op else None
        self.d = C.arr(sp["d"], op["m"] if op else self.nn * self.mm, cx)
        self.c = sp.get("c", 0.0)

    def res(self, x, y):
        v = (x.reshape(self.nn, self.k) @ y.reshape(self.k, self.mm)).ravel()
        return self.d - (self.M @ v if self.M is not None else v)

    def val(self, x, y):
        return float(0.5 * np.linalg.norm(self.res(x, y)) ** 2 + 0.5 * self.c * (np.linalg.norm(x) ** 2 + np.linalg.norm(y) ** 2))

    def _R(self, x, y):
        r = self.res(x, y)
        if self.M is not None:
            r = self.M.conj().T @ r
        return r.reshape(self.nn, self.mm)

    def gx(self, x, y):
        return (-self._R(x, y) @ np.conj(y.reshape(self.k, self.mm)).T).ravel() + self.c * x

    def gy(self, x, y):
        return (-np.conj(x.reshape(self.nn, self.k)).T @ self._R(x, y)).ravel() + self.c * y

    def lx(self, x):
        X = x.reshape(self.nn, self.k)
        return float(np.linalg.norm(np.conj(X).T @ X)) + self.c

    def ly(self, y):
        Y = y.reshape(self.k, self.mm)
        return float(np.linalg.norm(Y @ np.conj(Y).T)) + self.c


def backtrack(val, grad, p, tau, beta, nback, prox):
    """Largest tau * beta^j with the descent condition at p; persistent step."""
    v0 = val(p)
    z = p
    for _ in range(nback):
        z = p - tau * grad
        if prox is not None:
            z = prox(z, tau)
        d = z - p
        m = v0 + float(np.vdot(grad, d).real) + float(np.vdot(d, d).real) / (2 * tau)
        vz = val(z)
        if abs(vz - m) < 1e-10 * max(abs(vz), abs(v0), 1e-300):
            raise Amb("backtracking tie")
        if vz <= m or tau < 1e-12:
            break
        tau = tau * beta
    return z, tau


class _Palm(Sol):
    two = True
    inertial = False

    def gen(self, rng, spec, o):
        bt = (rng.random() < 0.35, rng.random() < 0.35) if not o.get("memoryless") else (False, False)
        cx = rng.random() < 0.15
        spec["cx"] = cx
        spec["H"] = gen_H(rng, all(bt), cx)
        H = spec["H"]
        nx, ny = H["nn"] * H["k"], H["mm"] * H["k"]
        spec["n"] = nx
        noise = not any(bt)
        kinds = ["soft", "box", "ridge", "ident", "hard", "lin"]
        spec["f"] = gen_prox(rng, nx, cx, kinds=kinds, noise=noise) if rng.random() < 0.75 else None
        spec["g"] = gen_prox(rng, ny, cx, kinds=kinds, noise=noise) if rng.random() < 0.75 else None
        spec["gammaf"] = None if bt[0] else R(rng, 1.0, 3.0)
        spec["gammag"] = None if bt[1] else R(rng, 1.0, 3.0)
        spec["beta"] = R(rng, 0.3, 0.8)
        spec["niterback"] = rng.choice([1, 2, 5, 100])
        spec["y0"] = S(rng)
        if self.inertial:
            spec["a"] = [rng.choice([1.0, 0.0, R(rng, 0.1, 0.9)]), rng.choice([1.0, 0.0, R(rng, 0.1, 0.9)])]

    def env(self, spec, env):
        H = spec["H"]
        env["H"] = mkH(H)
        env["y0"] = C.arr(spec["y0"], H["mm"] * H["k"], spec["cx"])

    def real(self, spec, env, kw):
        from pyproximal.optimization import palm as P

        kw.update(gammaf=spec["gammaf"], gammag=spec["gammag"], beta=spec["beta"], niter=spec["niter"], niterback=spec["niterback"])
        if self.inertial:
            return P.iPALM(env["H"], env.get("f"), env.get("g"), env["x0"], env["y0"], a=tuple(spec["a"]), **kw)
        return P.PALM(env["H"], env.get("f"), env.get("g"), env["x0"], env["y0"], **kw)

    def model(self, spec, env):
        h = MH(spec["H"])
        f, g = env.get("f"), env.get("g")
        x, y = env["x0"].copy(), env["y0"].copy()
        xo, yo = x, y
        ax, ay = spec["a"] if self.inertial else (0.0, 0.0)
        tf = tg = 1.0
        pf = f.prox if f is not None else None
        pg = g.prox if g is not None else None
        for k in range(spec["niter"]):
            z = x + ax * (x - xo)
            xo = x
            if spec["gammaf"] is not None:
                c = spec["gammaf"] * h.ly(y)
                if c < 1e-9:
                    raise Amb("zero block")
                x = z - h.gx(z, y) / c
                if pf:
                    x = pf(x, 1.0 / c)
            else:
                x, tf = backtrack(lambda v: h.val(v, y), h.gx(z, y), z, tf, spec["beta"], spec["niterback"], pf)
            z = y + ay * (y - yo)
            yo = y
            if spec["gammag"] is not None:
                c = spec["gammag"] * h.lx(x)
                if c < 1e-9:
                    raise Amb("zero block")
                y = z - h.gy(x, z) / c
                if pg:
                    y = pg(y, 1.0 / c)
            else:
                y, tg = backtrack(lambda v: h.val(x, v), h.gy(x, z), z, tg, spec["beta"], spec["niterback"], pg)
            yield "it", (x, y)
        yield "end", (x, y)


@reg
class PALMs(_Palm):
    name = "PALM"


@reg
class IPALMs(_Palm):
    name = "iPALM"
    inertial = True


@reg
class PGB(Sol):
    """ProximalGradient driving a bilinear function through its stacked gradient."""

    name = "PGBilinear"

    def gen(self, rng, spec, o):
        spec["cx"] = False
        spec["H"] = gen_H(rng, rng.random() < 0.3)
        H = spec["H"]
        n = (H["nn"] + H["mm"]) * H["k"]
        spec["n"] = n
        spec["x0mode"] = rng.choice(["normal", "zeros"])
        spec["bt"] = rng.choice([None, None, "tau", "notau"])
        spec["tau"] = R(rng, 0.02, 0.15) if not spec["bt"] else R(rng, 0.3, 3.0)
        spec["g"] = gen_prox(rng, n, False, kinds=["soft", "box", "ridge", "ident", "hard"], noise=not spec["bt"])
        spec["beta"] = R(rng, 0.3, 0.8)
        spec["niterback"] = rng.choice([2, 5, 100])
        spec["eta"] = rng.choice([1.0, 1.0, R(rng, 0.4, 0.95)])
        spec["acc"] = rng.choice([None, "vandenberghe", "fista"])
        spec["eps"] = V.eparam(rng, spec["niter"], 0.3, 1.5)
        spec["tol"] = None

    def env(self, spec, env):
        env["H"] = mkH(spec["H"])

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P

        return P.ProximalGradient(
            env["H"],
            env["g"],
            env["x0"],
            epsg=env["eps"],
            tau=None if spec["bt"] == "notau" else spec["tau"],
            backtracking=spec["bt"] == "tau",
            beta=spec["beta"],
            eta=spec["eta"],
            niter=spec["niter"],
            niterback=spec["niterback"],
            acceleration=spec["acc"],
            **kw,
        )

    def model(self, spec, env):
        h, g = MH(spec["H"]), env["g"]
        nx = h.nn * h.k
        x = env["x0"].copy()
        y = x
        tau = 1.0 if spec["bt"] == "notau" else spec["tau"]
        st = [1.0]
        val = lambda v: h.val(v[:nx], v[nx:])
        for k in range(spec["niter"]):
            prev = x
            e = V.at(spec["eps"], k)
            gr = np.hstack([h.gx(y[:nx], x[nx:]), h.gy(x[:nx], y[nx:])])
            if spec["bt"]:
                z, tau = backtrack(val, gr, y, tau, spec["beta"], spec["niterback"], lambda v, t: g.prox(v, e * t))
            else:
                z = g.prox(y - tau * gr, e * tau)
            x = y + spec["eta"] * (z - y) if spec["eta"] != 1.0 else z
            y = x + V.momentum(spec["acc"], k, st) * (x - prev)
            yield "it", (x,)
        yield "end", (x,)


# -- solvers driving another solver -------------------------------------------
class Tilt:
    """f(x) - <v, x>."""

    def __init__(self, f, v):
        self.f, self.v = f, v

    def __call__(self, x):
        return self.f(x) - float(self.v @ x)

    def prox(self, x, t):
        return self.f.prox(x + t * self.v, t)

    def grad(self, x):
        return self.f.grad(x) - self.v


class Scaled:
    def __init__(self, g, a):
        self.g, self.a = g, a

    def __call__(self, x):
        return self.a * self.g(x)

    def prox(self, x, t):
        return self.g.prox(x, self.a * t)


INNER = ("ProximalGradient", "ADMM", "HQS", "DouglasRachfordSplitting", "LinearizedADMM")


@reg
class Breg(Sol):
    name = "Bregman"

    def gen(self, rng, spec, o):
        spec["cx"] = False
        inner = rng.choice(INNER)
        sub = {"solver": inner, "n": spec["n"], "niter": rng.choice([1, 2, 3, 6]), "cx": False, "x0": 1}
        V.SOLVERS[inner].gen(rng, sub, {"plain": True})
        sub["f"] = gen_smooth(rng, spec["n"], False, bias=inner == "ProximalGradient")
        if inner == "ProximalGradient":
            sub.update(bt=None, tau=R(rng, 0.2, 0.8), tol=None)
            sub.pop("wrapper", None)
            sub.pop("nr", None)
        sub["z0"] = sub.get("z0") if inner in ("ADMM", "HQS") else None
        sub["nox0"] = False
        p = sub["A"]["m"] if "A" in sub else spec["n"]
        sub["g"] = gen_prox(rng, p, False, kinds=["soft", "box", "ridge", "hard", "ident", "lin", "smooth"])
        spec["inner"] = sub
        spec["alpha"] = R(rng, 0.3, 2.0)
        spec["warm"] = rng.random() < 0.5
        spec["niter"] = min(spec["niter"], 10)
        spec["tolx"] = rng.choice([1e-10, R(rng, 0.01, 1.0), R(rng, 1.0, 6.0)])
        spec["tolf"] = rng.choice([1e-10, R(rng, 0.05, 2.0), R(rng, 2.0, 20.0)])
        spec["icb"] = rng.random() < 0.6

    def env(self, spec, env):
        e = V.make_env(spec["inner"])
        for k in e:
            if k not in ("x0",):
                env[k] = e[k]
        # parameters of the inner solver keep their own names
        env["inner"] = e

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P
        from pyproximal.optimization.bregman import Bregman

        sub = spec["inner"]
        cb = kw.pop("callback")
        kw["bregcallback"] = cb
        if spec["icb"]:
            kw["callback"] = cb
        nm = sub["solver"]
        kw["niter"] = sub["niter"]
        if nm == "ProximalGradient":
            kw.update(epsg=env["eps"], tau=sub["tau"], eta=sub["eta"], acceleration=sub["acc"])
        elif nm == "ADMM":
            kw.update(tau=sub["tau"], gfirst=sub["gfirst"], z0=env["z0"])
        elif nm == "HQS":
            kw.update(tau=env["tau"], gfirst=sub["gfirst"], z0=env["z0"])
        elif nm == "DouglasRachfordSplitting":
            kw.update(tau=sub["tau"], eta=sub["eta"], gfirst=sub["gfirst"])
        else:
            kw.update(tau=sub["tau"], mu=sub["mu"], z0=env["z0"])
        return Bregman(
            env["f"],
            env["g"],
            env["x0"],
            getattr(P, nm),
            A=env.get("A"),
            alpha=spec["alpha"],
            niterouter=spec["niter"],
            warm=spec["warm"],
            tolx=spec["tolx"],
            tolf=spec["tolf"],
            **kw,
        )

    def model(self, spec, env):
        sub, f, al = spec["inner"], env["f"], spec["alpha"]
        g = Scaled(env["g"], al)
        x = env["x0"].copy()
        q = np.zeros_like(x)
        for k in range(spec["niter"]):
            old = x
            ie = dict(env)
            ie["f"] = Tilt(f, al * q) if k else f
            ie["g"] = g
            ie["x0"] = x if spec["warm"] else env["x0"]
            for kind, v in V.SOLVERS[sub["solver"]].model(sub, ie):
                if kind == "it":
                    if spec["icb"]:
                        yield "it", (v[0],)
                else:
                    x = v[0]
            q = q - f.grad(x) / al
            yield "it", (x,)
            d = float(np.linalg.norm(x - old))
            pf = float(f(x))
            if V.absstop(d, spec["tolx"], float(np.max(np.abs(x)))) | V.absstop(pf, spec["tolf"]):
                break
        yield "end", (x,)


class DenProx:
    def __init__(self, den, dims):
        self.den, self.dims = den, dims

    def __call__(self, x):
        return 0.0

    def prox(self, x, t):
        return self.den(x.reshape(self.dims), t).ravel()

    def proxdual(self, x, t):
        return x - t * self.prox(x / t, 1.0 / t)


@reg
class PnPs(Sol):
    name = "PlugAndPlay"

    def gen(self, rng, spec, o):
        spec["cx"] = False
        inner = rng.choice(["ADMM", "ADMM", "HQS", "ProximalGradient", "DouglasRachfordSplitting", "PrimalDual", "LinearizedADMM"])
        dims = rng.choice([[2, 3], [1, 4], [3, 3], [5], [2, 2, 2]])
        n = int(np.prod(dims))
        spec["n"] = n
        spec["dims"] = dims
        sub = {"solver": inner, "n": n, "niter": spec["niter"], "cx": False, "x0": spec["x0"]}
        V.SOLVERS[inner].gen(rng, sub, {"plain": True})
        if "A" in sub:
            sub["A"] = C.gen_linop(rng, n, n, False)
            L = max(0.2, V.sqnorm(sub["A"]))
            if inner == "LinearizedADMM":
                sub["mu"] = round(0.7 * sub["tau"] / L, 6)
            else:
                sub["tau"] = sub["mu"] = round(0.8 / np.sqrt(L), 6)
                sub["y0"] = S(rng) if rng.random() < 0.3 else None
        if inner == "ProximalGradient":
            sub.update(bt=None, tau=R(rng, 0.2, 0.8), tol=None)
            sub.pop("wrapper", None)
        if inner == "LinearizedADMM":
            sub["z0"] = None
        sub["nox0"] = False
        sub["g"] = None
        spec["inner"] = sub
        spec["den"] = rng.choice(["shrink", "soft", "alias", "smooth"])
        spec["default"] = inner == "ADMM" and rng.random() < 0.5

    def env(self, spec, env):
        e = V.make_env(spec["inner"])
        for k in e:
            if k != "x0":
                env[k] = e[k]
        env["den"] = C.SimDenoiser(spec["den"])

    def real(self, spec, env, kw):
        from pyproximal.optimization import primal as P
        from pyproximal.optimization import primaldual as PDm
        from pyproximal.optimization.pnp import PlugAndPlay

        sub = spec["inner"]
        nm = sub["solver"]
        if not spec["default"]:
            kw["solver"] = getattr(PDm if nm == "PrimalDual" else P, nm)
        kw["niter"] = sub["niter"]
        if nm == "ProximalGradient":
            kw.update(epsg=env["eps"], tau=sub["tau"], eta=sub["eta"], acceleration=sub["acc"])
        elif nm == "ADMM":
            kw.update(tau=sub["tau"], gfirst=sub["gfirst"], z0=env["z0"])
        elif nm == "HQS":
            kw.update(tau=env["tau"], gfirst=sub["gfirst"], z0=env["z0"])
        elif nm == "DouglasRachfordSplitting":
            kw.update(tau=sub["tau"], eta=sub["eta"], gfirst=sub["gfirst"])
        elif nm == "PrimalDual":
            kw.update(A=env["A"], tau=env["tau"], mu=env["mu"], theta=sub["theta"], gfirst=sub["gfirst"], y0=env["y0"], z=env["z"], returny=sub["ry"])
        else:
            kw.update(A=env["A"], tau=sub["tau"], mu=sub["mu"])
        return PlugAndPlay(env["f"], env["den"], tuple(spec["dims"]), env["x0"], **kw)

    def model(self, spec, env):
        e = dict(env)
        e["g"] = DenProx(env["den"], tuple(spec["dims"]))
        for kind, v in V.SOLVERS[spec["inner"]["solver"]].model(spec["inner"], e):
            yield kind, ((v[0],) if kind == "it" else v)


def simplex_cols(X):
    """Projection of every column on the unit simplex (sorting)."""
    U = -np.sort(-X, axis=0)
    c = np.cumsum(U, axis=0) - 1.0
    j = np.arange(1, X.shape[0] + 1)[:, None]
    r = (U - c / j > 0).sum(axis=0)
    th = c[r - 1, np.arange(X.shape[1])] / r
    return np.maximum(X - th, 0.0)


def gradmat(dims):
    """Forward differences along each axis (zero in the last sample), stacked."""
    out = []
    n = int(np.prod(dims))
    idx = np.arange(n).reshape(dims)
    for ax in range(len(dims)):
        D = np.zeros((n, n))
        a = np.take(idx, range(dims[ax] - 1), axis=ax).ravel()
        b = np.take(idx, range(1, dims[ax]), axis=ax).ravel()
        D[a, a] = -1.0
        D[a, b] = 1.0
        out.append(D)
    return np.vstack(out)


@reg
class Seg(Sol):
    name = "Segment"
    rtol = 1e-5

    def gen(self, rng, spec, o):
        spec["cx"] = False
        dims = rng.choice([[2, 3], [3, 4], [4, 2], [3, 3]])
        ncl = rng.randint(2, 3)
        spec["dims"], spec["ncl"] = dims, ncl
        spec["n"] = int(np.prod(dims)) * ncl
        spec["y"] = S(rng)
        spec["cl"] = sorted(R(rng, -2, 2) for _ in range(ncl))
        spec["sigma"] = R(rng, 0.3, 2)
        spec["alpha"] = R(rng, 0.1, 2)
        spec["cls"] = [R(rng, 0.5, 2) for _ in range(ncl)] if rng.random() < 0.4 else None
        spec["z"] = S(rng) if rng.random() < 0.3 else None
        spec["hasx0"] = rng.random() < 0.4
        spec["niter"] = min(spec["niter"], 10)
        spec["kws"] = rng.choice([None, {"engine": "numba"}, {"maxiter": 200, "xtol": 1e-12}])

    def env(self, spec, env):
        env["y"] = C.arr(spec["y"], int(np.prod(spec["dims"]))).reshape(spec["dims"])
        env["cl"] = np.array(spec["cl"])
        env["cls"] = np.array(spec["cls"]) if spec["cls"] else None
        env["kws"] = dict(spec["kws"]) if spec["kws"] else None
        if not spec["hasx0"]:
            env["x0"] = None

    def real(self, spec, env, kw):
        from pyproximal.optimization.segmentation import Segment

        x, cl = Segment(env["y"], env["cl"], spec["sigma"], spec["alpha"], clsigmas=env["cls"], z=env["z"], niter=spec["niter"], x0=env["x0"], kwargs_simplex=env["kws"], **kw)
        s = np.sort(x, axis=1)
        if cl.shape != tuple(spec["dims"]):
            raise K.Violation("segment-shape", "class map has shape %s, image %s" % (cl.shape, spec["dims"]))
        gap = (s[:, -1] - s[:, -2]).reshape(spec["dims"])
        if np.any((np.argmax(x, axis=1).reshape(spec["dims"]) != cl) & (gap > 1e-9)):
            raise K.Violation("segment-class", "class map is not the most probable class of the returned probabilities")
        return (x,)

    def model(self, spec, env):
        dims, ncl = spec["dims"], spec["ncl"]
        n = int(np.prod(dims))
        D = gradmat(dims)
        nd = len(dims)
        cost = np.array([0.5 * spec["sigma"] * (env["y"].ravel() - c) ** 2 for c in spec["cl"]])
        if spec["cls"]:
            cost = cost / np.array(spec["cls"])[:, None]
        if env["z"] is not None:
            cost = cost + env["z"].reshape(ncl, n)
        x = np.zeros((ncl, n)) if env["x0"] is None else env["x0"].reshape(ncl, n).copy()
        y = np.zeros((ncl, nd * n))
        xh = x
        rad = 0.5 * spec["alpha"]
        for k in range(spec["niter"]):
            v = (y + 0.125 * (xh @ D.T)).reshape(ncl, nd, n)
            nr = np.sqrt((v**2).sum(axis=1, keepdims=True))
            y = (v / np.maximum(1.0, nr / rad)).reshape(ncl, nd * n)
            new = simplex_cols(x - (y @ D + cost))
            xh = 2 * new - x
            x = new
            yield "it", (x.ravel(),)
        yield "end", (x.T,)


@reg
class SR3s(Sol):
    name = "SR3"
    nocb = True
    rtol = 1e-5

    def gen(self, rng, spec, o):
        spec["cx"] = False
        n = spec["n"] = rng.randint(3, 8)
        spec["Op"] = {"t": rng.choice(["matrix", "free"]), "m": rng.choice([n, n + 2]), "n": n, "s": S(rng)}
        spec["A"] = C.gen_linop(rng, n, None, False, kinds=("identity", "free", "matrix", "deriv", "diag"))
        spec["b"] = S(rng)
        spec["kappa"] = R(rng, 0.3, 2)
        spec["eps"] = R(rng, 0.05, 0.8)
        spec["adaptive"] = rng.random() < 0.5
        spec["hasx0"] = rng.random() < 0.5
        spec["inner_n"] = rng.choice([1, 2]) if spec["adaptive"] else rng.choice([2, 100])
        spec["niter"] = rng.choice([1, 2, 5, 20, 60, 400])
        if rng.random() < 0.4:  # convergence test reached with different weights
            spec["eps"], spec["kappa"] = rng.choice([0.002, 0.02, 3.0]), rng.choice([0.3, 2.0, 10.0])

    def env(self, spec, env):
        if not spec["hasx0"]:
            env["x0"] = None

    def real(self, spec, env, kw):
        from pyproximal.optimization.sr3 import SR3

        return SR3(env["Op"], env["A"], env["b"], spec["kappa"], spec["eps"], x0=env["x0"], adaptive=spec["adaptive"], iter_lim_outer=spec["niter"], iter_lim_inner=spec["inner_n"])

    def model(self, spec, env):
        x = self.once(spec, env, env["b"])
        # how far the last digits of the data reach (truncated inner solver)
        dev = 0.0
        for s in (1, 2, 3):
            p = 1.0 + 1e-13 * np.random.default_rng(s).normal(size=env["b"].shape)
            dev = max(dev, float(np.max(np.abs(self.once(spec, env, env["b"] * p) - x))) / max(1e-3, float(np.max(np.abs(x)))))
        if dev > 1e-8:
            raise Amb("ill conditioned")
        self.rtol = max(1e-9, 1e3 * dev)
        yield "end", (x,)

    def once(self, spec, env, b):
        from scipy.sparse.linalg import lsqr

        A, L = C.linop_mat(spec["Op"]), C.linop_mat(spec["A"])
        kap, lam = spec["kappa"], spec["eps"]
        soft = lambda v: np.sign(v) * np.maximum(np.abs(v) - lam / kap, 0.0)
        M = np.vstack([A, np.sqrt(kap) * L])
        if np.linalg.cond(M) > 1e5:
            raise Amb("ill conditioned")
        x = np.zeros(M.shape[1]) if env["x0"] is None else env["x0"].copy()
        v = w = np.zeros(L.shape[0])
        th = 1.0
        for _ in range(spec["niter"]):
            d = np.concatenate([b, np.sqrt(kap) * v])
            if not spec["adaptive"]:
                x = lsqr(M, d, iter_lim=spec["inner_n"], x0=x)[0]
            else:
                x = self.lsqr_sr3(M, d, x, v, soft, L, spec["inner_n"])
            wo, w = w, soft(L @ x)
            err = np.linalg.norm(v - w) / max(1.0, np.linalg.norm(w))
            if 0.5e-6 < err < 2e-6:
                raise Amb("tolerance tie")
            if err < 1e-6:
                break
            th = 2 / (1 + np.sqrt(1 + 4 / th**2))
            v = w + (1 - th) * (w - wo)
        return x

    @staticmethod
    def lsqr_sr3(M, d, x, zold, soft, L, n):
        """Golub-Kahan (textbook LSQR) with the z criterion of adaptive SR3."""
        r = d - M @ x
        be = np.linalg.norm(r)
        if be < 1e-8 * max(1.0, np.linalg.norm(d)):
            raise Amb("breakdown")
        u = r / be
        v = M.T @ u
        al = np.linalg.norm(v)
        if al < 1e-8:
            raise Amb("breakdown")
        v = v / al
        w, pb, rb = v, be, al
        x = x.copy()
        for _ in range(n):
            u = M @ v - al * u
            be = np.linalg.norm(u)
            if be < 1e-8:
                raise Amb("breakdown")
            u = u / be
            v2 = M.T @ u - be * v
            al = np.linalg.norm(v2)
            if al < 1e-8:
                raise Amb("breakdown")
            v = v2 / al
            rho = np.hypot(rb, be)
            c, s = rb / rho, be / rho
            t = s * al
            rb = -c * al
            x = x + (c * pb / rho) * w
            pb = s * pb
            z = soft(L @ x)
            dz, nz = np.linalg.norm(z - zold), np.linalg.norm(zold)
            if V.tie(dz, 1e-6 * nz, 0.5) and nz > 0:
                raise Amb("tolerance tie")
            if dz < 1e-6 * nz:
                return x
            w = v - (t / rho) * w
            zold = z
        return x


BILIN = ("PALM", "iPALM", "PGBilinear")
OUTER = ("Bregman", "Bregman", "PlugAndPlay", "PlugAndPlay", "Segment", "SR3")
EVERY = V.PRIMAL + V.DUAL + BILIN + OUTER

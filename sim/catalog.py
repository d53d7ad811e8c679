"""Catalogue of every operator pyproximal exports, as JSON specs.

gen(rng, ...) draws a spec (plain data); build(spec) turns a spec into a live
operator together with the caller-owned arrays it was constructed from.  Two
builds of one spec are equal but share nothing.
"""
import numpy as np

from . import kernel as K


def arr(seed, n, cx=False, scale=1.0):
    g = np.random.default_rng(seed)
    x = g.normal(0.0, 1.0, n) * scale
    if cx:
        x = x + 1j * g.normal(0.0, 1.0, n) * scale
    return x


def S(rng):
    return rng.randrange(1 << 30)


# -- linear operators --------------------------------------------------------
_linop_cls = None


def _linop_class():
    global _linop_cls
    if _linop_cls is None:
        import pylops

        class SimLinOp(pylops.LinearOperator):
            """Matrix-free operator whose every application is a seam."""

            def __init__(self, mat, dtype):
                self.mat = mat
                super().__init__(dtype=np.dtype(dtype), shape=mat.shape)

            def _matvec(self, x):
                K.seam("matvec")
                return self.mat @ x

            def _rmatvec(self, x):
                K.seam("rmatvec")
                return np.conj(self.mat.T) @ x

        class SimIdentity(pylops.LinearOperator):
            """Hands back the very array it was given (as pylops' Identity in place)."""

            def __init__(self, n, dtype):
                super().__init__(dtype=np.dtype(dtype), shape=(n, n))

            def _matvec(self, x):
                K.seam("matvec")
                return x

            def _rmatvec(self, x):
                K.seam("rmatvec")
                return x

        _linop_cls = (SimLinOp, SimIdentity)
    return _linop_cls


def linop_mat(sp):
    """Dense matrix of a linop spec (independent of pylops)."""
    t, m, n = sp["t"], sp["m"], sp["n"]
    cx = sp.get("cx", False)
    if t in ("matrix", "free"):
        g = np.random.default_rng(sp["s"])
        a = g.normal(size=(m, n))
        if cx:
            a = a + 1j * g.normal(size=(m, n))
        a = a / np.sqrt(max(m, n))
        if sp.get("sq"):  # symmetric positive definite
            a = np.conj(a.T) @ a + 0.3 * np.eye(n)
        return a * sp.get("scale", 1.0)
    if t in ("identity", "alias"):
        return np.eye(n)
    if t == "diag":
        return np.diag(0.5 + np.random.default_rng(sp["s"]).random(n))
    if t == "deriv":
        d = np.zeros((n, n))
        for i in range(n - 1):
            d[i, i] = -1.0
            d[i, i + 1] = 1.0
        return d
    if t == "orth":
        q, _ = np.linalg.qr(np.random.default_rng(sp["s"]).normal(size=(n, n)))
        return q
    raise KeyError(t)


def linop(sp):
    import pylops

    t, m, n = sp["t"], sp["m"], sp["n"]
    cx = sp.get("cx", False)
    dt = "complex128" if cx else "float64"
    SimLinOp, SimIdentity = _linop_class()
    if t == "matrix":
        return pylops.MatrixMult(linop_mat(sp), dtype=dt)
    if t == "free":
        return SimLinOp(linop_mat(sp), dt)
    if t == "identity":
        return pylops.Identity(n, dtype=dt)
    if t == "alias":
        return SimIdentity(n, dt)
    if t == "diag":
        return pylops.Diagonal(np.diag(linop_mat(sp)).copy(), dtype=dt)
    if t == "deriv":
        return pylops.FirstDerivative(n, edge=False, kind="forward", dtype=dt)
    if t == "orth":
        return SimLinOp(linop_mat(sp), dt)
    raise KeyError(t)


def gen_linop(rng, n, m=None, cx=False, kinds=("matrix", "free", "identity", "alias", "diag", "deriv")):
    t = rng.choice(kinds)
    if t in ("matrix", "free"):
        mm = m if m is not None else rng.choice([n, n + 2, max(1, n - 1)])
        return {"t": t, "m": mm, "n": n, "s": S(rng), "cx": cx}
    return {"t": t, "m": n, "n": n, "s": S(rng), "cx": cx}


# -- user callables (seams) ----------------------------------------------------
class SimSchedule:
    """User's iteration dependent parameter; deterministic in the counter."""

    def __init__(self, sp):
        self.sp = sp
        self.calls = []

    def value(self, k):
        sp = self.sp
        k = int(k)
        if sp["form"] == "table":
            tab = sp["tab"]
            v = tab[k % len(tab)]
        elif sp["form"] == "decay":
            v = sp["a"] * sp["r"] ** k
        else:
            v = sp["a"] + sp["r"] * k
        if sp.get("int"):
            return int(v)
        return float(v)

    def __call__(self, k):
        K.seam("schedule")
        self.calls.append(k)
        return self.value(k)


def gen_schedule(rng, integer=False, lo=1, hi=6):
    if integer:
        return {"form": "table", "tab": [rng.randint(lo, hi) for _ in range(rng.randint(3, 7))], "int": True}
    f = rng.choice(["table", "decay", "lin"])
    if f == "table":
        return {"form": "table", "tab": [round(rng.uniform(0.05, 1.5), 4) for _ in range(rng.randint(3, 7))]}
    if f == "decay":
        return {"form": "decay", "a": round(rng.uniform(0.5, 2.0), 4), "r": round(rng.uniform(0.7, 0.97), 4)}
    return {"form": "lin", "a": round(rng.uniform(0.1, 0.5), 4), "r": round(rng.uniform(0.01, 0.2), 4)}


class SimDenoiser:
    def __init__(self, mode):
        self.mode = mode

    def __call__(self, x, tau):
        K.seam("denoiser")
        if self.mode == "shrink":
            return x / (1.0 + tau)
        if self.mode == "soft":
            return np.sign(x) * np.maximum(np.abs(x) - tau, 0.0)
        if self.mode == "alias":
            return x
        y = x.copy()
        y[..., 1:] = 0.5 * (x[..., 1:] + x[..., :-1])
        return y


class SimProj:
    """A user supplied projection (box or half space), in plain numpy."""

    def __init__(self, sp):
        self.sp = sp
        if sp["t"] == "half":
            self.w = arr(sp["s"], sp["n"])
            self.b = sp["b"]

    def __call__(self, x):
        K.seam("projection")
        sp = self.sp
        if sp["t"] == "box":
            return np.minimum(np.maximum(x, sp["lo"]), sp["hi"])
        if sp["t"] == "ball":
            c = sp["c"]
            d = x - c
            return c + d * (sp["r"] / max(float(np.linalg.norm(d)), sp["r"]))
        wx = float(np.dot(self.w, x))
        if wx <= self.b:
            return x if sp.get("alias") else x.copy()
        return x - (wx - self.b) / float(np.dot(self.w, self.w)) * self.w


def gen_proj(rng, n):
    t = rng.choice(["box", "ball", "half"])
    if t == "box":
        a = rng.uniform(-1, 0.2)
        return {"t": t, "lo": a, "hi": a + rng.uniform(0.5, 1.5)}
    if t == "ball":
        return {"t": t, "c": rng.uniform(-0.3, 0.3), "r": rng.uniform(0.5, 2.0)}
    return {"t": t, "s": S(rng), "n": n, "b": rng.uniform(0.1, 1.0), "alias": rng.random() < 0.5}


# -- operators -------------------------------------------------------------
class Built:
    def __init__(self, op, n, arrays, cx=False, children=()):
        self.op = op
        self.n = n
        self.arrays = arrays  # caller-owned arrays handed to constructors
        self.cx = cx
        self.children = children


_nonlin = None


def nonlinear_class():
    global _nonlin
    if _nonlin is None:
        import pyproximal
        from scipy.optimize import minimize

        class SimNonlinear(pyproximal.Nonlinear):
            """f(x) = sum(cosh(a x) - 1) ; optimize() solves with L-BFGS or Newton."""

            def setup(self, a, how):
                self.a = a
                self.how = how
                return self

            def fun(self, x):
                K.seam("fun")
                return float(np.sum(np.cosh(self.a * x) - 1.0))

            def grad(self, x):
                K.seam("grad")
                return self.a * np.sinh(self.a * x)

            def optimize(self):
                if self.how == "lbfgs":
                    return minimize(
                        lambda v: self._fungradprox(v, self.tau),
                        self.x0,
                        jac=True,
                        method="L-BFGS-B",
                        options={"maxiter": self.niter, "ftol": 1e-15, "gtol": 1e-10},
                    ).x
                x = self.x0
                for _ in range(self.niter):
                    g = self._gradprox(x, self.tau)
                    h = self.a**2 * np.cosh(self.a * x) + 1.0 / self.tau
                    s = g / h
                    s = np.clip(s, -1.0, 1.0)
                    x = x - s
                    if np.max(np.abs(s)) < 1e-14:
                        break
                return x

        _nonlin = SimNonlinear
    return _nonlin


NICE = [0.15]


def R(rng, a, b):
    """A parameter: now and then one of the round values users pass."""
    if rng.random() < NICE[0]:
        nice = [v for v in (1.0, 0.5, 2.0, 0.0 if a < 0 else 1.0, 1.0) if a <= v <= b]
        if nice:
            return rng.choice(nice)
    return round(rng.uniform(a, b), 4)


def _g_box(rng, n):
    if rng.random() < 0.5:
        lo = R(rng, -1, 0)
        return {"lo": lo, "hi": lo + R(rng, 0.2, 1.5)}
    return {"los": S(rng), "w": R(rng, 0.2, 1.5)}


# name -> (gen(rng,n), flags)   flags: c=complex ok, f=factor size rule
def gen(rng, n=None, depth=0, only=None, exclude=(), cx=None, stateful=False):
    """Draw an operator spec. n: required size (None: any)."""
    if depth == 0:
        NICE[0] = 0.9 if rng.random() < 0.15 else 0.3  # default-like parameters come together
        _child.exclude = tuple(exclude)  # components obey the same exclusions
    names = list(FLAT if n is not None else ALL)
    if depth >= 2:
        names = [x for x in names if x not in NESTED]
    if only is not None:
        names = [x for x in names if x in only]
    names = [x for x in names if x not in exclude]
    if stateful is False:
        names = [x for x in names if x not in STATEFUL]
    names += [x for x in names if x in MANY] * 2
    while True:
        t = rng.choice(names)
        sp = GENS[t](rng, n, depth)
        if sp is None:
            continue
        sp["t"] = t
        sp.setdefault("n", n)
        if cx is None:
            sp["cx"] = bool(t in COMPLEX and rng.random() < 0.25 and sp.pop("cxok", True))
        else:
            sp["cx"] = bool(cx and t in COMPLEX)
        sp.pop("cxok", None)
        if t in NESTED:
            sp["cx"] = False
        return sp


def _n(rng, n):
    if n is not None:
        return n
    return rng.randint(2, 9) if rng.random() < 0.92 else rng.choice([1, 12, 16, 20, 33, 64])


def _dims2(rng, n, lo=2, hi=4):
    if n is None:
        if rng.random() < 0.25:
            return rng.choice([[5, 6], [8, 3], [3, 8], [7, 7], [4, 4], [3, 5]])
        return [rng.randint(lo, hi), rng.randint(lo, hi)]
    for a in rng.sample([2, 3, 4, 5], 4):
        if n % a == 0 and n // a >= 2:
            return [a, n // a]
    return None


def gen_user(rng, n):
    """An operator class written by a user of the package."""
    return {"t": "User", "n": n, "kind": rng.choice(["quad", "box", "soft"]), "a": R(rng, 0.3, 1.5), "s": S(rng), "cx": False}


_ucls = []


def _user_class():
    if not _ucls:
        import pyproximal

        class User(pyproximal.ProxOperator):
            def __init__(self, kind, a, c):
                super().__init__(None, kind == "quad")
                self.kind, self.a, self.c = kind, a, c

            def __call__(self, x):
                K.seam("call")
                if self.kind == "quad":
                    return float(0.5 * self.a * np.sum(np.abs(x - self.c) ** 2))
                if self.kind == "box":
                    return bool(np.max(np.abs(x)) <= self.a)
                return float(self.a * np.sum(np.abs(x)))

            def prox(self, x, tau):
                K.seam("prox")
                if self.kind == "quad":
                    return (x + tau * self.a * self.c) / (1.0 + tau * self.a)
                if self.kind == "box":
                    return np.clip(x, -self.a, self.a)
                return np.sign(x) * np.maximum(np.abs(x) - tau * self.a, 0.0)

            def grad(self, x):
                K.seam("grad")
                if self.kind == "quad":
                    return self.a * (x - self.c)
                return self.a * np.sign(x)

        _ucls.append(User)
    return _ucls[0]


def _child(rng, n, depth):
    if "User" not in _child.exclude and n is not None and rng.random() < 0.12:
        return gen_user(rng, n)
    return gen(rng, n, depth + 1, exclude=_child.exclude, cx=False)


_child.exclude = ()


def reset():
    NICE[0] = 0.15
    _child.exclude = ()


GENS = {}


def G(name):
    def deco(f):
        GENS[name] = f
        return f

    return deco


@G("Box")
def _(rng, n, d):
    sp = _g_box(rng, n)
    sp["n"] = _n(rng, n)
    return sp


@G("EuclideanBall")
def _(rng, n, d):
    return {"n": _n(rng, n), "c": S(rng) if rng.random() < 0.6 else None, "r": R(rng, 0.3, 2.5)}


@G("Euclidean")
def _(rng, n, d):
    return {"n": _n(rng, n), "sigma": R(rng, 0.2, 2)}


@G("L0")
def _(rng, n, d):
    return {"n": _n(rng, n), "sigma": R(rng, 0.1, 1.2)}


@G("L0Ball")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "r": rng.randint(1, max(1, n - 1))}


@G("L10Ball")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "nd": dm[0], "r": rng.randint(1, dm[1]), "old": rng.random() < 0.15}


@G("L1")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "sigma": S(rng) if rng.random() < 0.25 else R(rng, 0.1, 1.5), "g": S(rng) if rng.random() < 0.4 else None}


@G("L1Ball")
def _(rng, n, d):
    return {"n": _n(rng, n), "r": R(rng, 0.3, 3)}


@G("L2")
def _(rng, n, d):
    n = _n(rng, n)
    sp = {
        "n": n,
        "sigma": R(rng, 0.2, 2),
        "q": S(rng) if rng.random() < 0.45 else None,
        "alpha": R(rng, 0.2, 2),
        "qgrad": rng.random() < 0.7,
    }
    mode = rng.choice(["none", "none", "b", "dense", "dense", "dense", "free", "free", "free"])
    sp["mode"] = mode
    if mode != "none":
        sp["b"] = S(rng)
    if mode == "dense":
        sp["op"] = {"t": "matrix", "m": rng.choice([n, n + 2, max(1, n - 1)]), "n": n, "s": S(rng)}
        sp["ds"] = rng.choice([None, "numpy", "scipy", "factorize", "factorize"])
    if mode == "free":
        sp["op"] = {"t": rng.choice(["free", "free", "diag", "identity", "deriv"]), "m": n, "n": n, "s": S(rng)}
        if sp["op"]["t"] == "free":
            sp["op"]["m"] = rng.choice([n, n + 2, max(1, n - 1)])
        sp["solver"] = rng.choice(["legacy", "cg", "cgls"])
        sp["niter"] = rng.choice([3, 10, 60])
        sp["warm"] = False
        sp["x0"] = S(rng) if rng.random() < 0.4 else None
    sp["cxok"] = mode in ("none", "b")
    return sp


@G("L2Convolve")
def _(rng, n, d):
    if n is not None:
        return None
    n = rng.randint(3, 9)
    dims = None
    di = None
    if rng.random() < 0.4:
        dims = [rng.randint(2, 4), rng.randint(2, 5)]
        n = dims[0] * dims[1]
        di = rng.choice([None, 0, 1])
    return {"n": n, "dims": dims, "dir": di, "h": S(rng), "hn": rng.randint(1, 4), "b": S(rng), "nfft": 16, "sigma": R(rng, 0.2, 2)}


@G("L21")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "nd": dm[0], "sigma": R(rng, 0.2, 2)}


@G("L21_plus_L1")
def _(rng, n, d):
    if n is not None:
        return None
    dm = _dims2(rng, None)
    return {"n": dm[0] * dm[1], "dims": dm, "sigma": R(rng, 0.2, 1), "rho": R(rng, 0.1, 0.9)}


@G("Huber")
def _(rng, n, d):
    return {"n": _n(rng, n), "alpha": R(rng, 0.3, 2)}


@G("HuberCircular")
def _(rng, n, d):
    return {"n": _n(rng, n), "alpha": R(rng, 0.3, 2)}


@G("Nuclear")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "dims": dm, "sigma": S(rng) if rng.random() < 0.3 else R(rng, 0.1, 1.0)}


@G("NuclearBall")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "dims": dm, "r": R(rng, 0.3, 2)}


@G("TV")
def _(rng, n, d):
    if n is None:
        dims = rng.choice([[7], [4, 5], [3, 4, 3], [3, 3, 3, 3]])
    else:
        if n < 3:
            return None
        dims = [n]
    return {
        "n": int(np.prod(dims)),
        "dims": dims,
        "sigma": R(rng, 0.2, 1.5),
        "niter": rng.choice([1, 5, 10]),
        "rtol": rng.choice([1e-4, 1e-8]),
        "wx": R(rng, 0.5, 1.5) if rng.random() < 0.3 else None,
    }


@G("RelaxedMumfordShah")
def _(rng, n, d):
    return {"n": _n(rng, n), "sigma": R(rng, 0.2, 2), "kappa": R(rng, 0.2, 2)}


@G("Quadratic")
def _(rng, n, d):
    n = _n(rng, n)
    m = rng.choice(["dense", "free", "b", "nob", "none"])
    sp = {"n": n, "mode": m, "c": R(rng, -1, 1), "niter": rng.choice([3, 40]), "warm": False}
    sp["b"] = S(rng)
    sp["op"] = {"t": "matrix" if m in ("dense", "nob") else "free", "m": n, "n": n, "s": S(rng), "sq": True}
    sp["x0"] = S(rng) if rng.random() < 0.4 else None
    return sp


@G("Nonlinear")
def _(rng, n, d):
    return {"n": _n(rng, n), "a": R(rng, 0.3, 1.0), "niter": rng.choice([3, 40]), "how": rng.choice(["lbfgs", "newton"]), "warm": False, "x0": S(rng)}


@G("Orthogonal")
def _(rng, n, d):
    n = _n(rng, n)
    q = rng.choice(["orth", "identity", "alias"])
    return {"n": n, "q": {"t": q, "m": n, "n": n, "s": S(rng)}, "f": _child(rng, n, d), "partial": rng.random() < 0.5, "b": S(rng) if rng.random() < 0.5 else None, "alpha": 1.0}


@G("VStack")
def _(rng, n, d):
    if n is not None and n < 4:
        return None
    if n is None:
        nn = [rng.randint(2, 5) for _ in range(rng.randint(1, 3))]
    else:
        a = rng.randint(2, n - 2)
        nn = [a, n - a]
    return {"n": sum(nn), "nn": nn, "f": [_child(rng, k, d) for k in nn], "restr": rng.random() < 0.4, "perm": S(rng)}


@G("Sum")
def _(rng, n, d):
    n = _n(rng, n)
    m = rng.choice([1, 2, 2, 3])
    f = [gen(rng, n, d + 1, cx=False, only=("Box", "EuclideanBall", "L1", "L2", "Euclidean", "HalfSpace", "L1Ball", "HuberCircular")) for _ in range(m)]
    for g in f:
        if g["t"] == "L2":
            g["q"] = None
    if "User" not in _child.exclude and rng.random() < 0.3:
        f[rng.randrange(m)] = gen_user(rng, n)
    w = None
    if rng.random() < 0.5:
        w = [R(rng, 0.2, 1) for _ in range(m)]
    return {"n": n, "f": f, "w": w, "warr": rng.random() < 0.5, "par": rng.random() < 0.4, "ot": rng.random() < 0.4, "niter": rng.choice([1, 5, 40]), "tol": 1e-9}


@G("GenericIntersectionProx")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "p": [gen_proj(rng, n) for _ in range(rng.choice([1, 2, 2, 3, 4]))], "par": rng.random() < 0.4, "niter": rng.choice([1, 5, 40]), "tol": 1e-9}


@G("Intersection")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "k": dm[0], "m": dm[1], "sigma": R(rng, 0.1, 1), "arr": rng.random() < 0.3, "call": rng.random() < 0.8, "niter": rng.choice([1, 30])}


@G("AffineSet")
def _(rng, n, d):
    n = _n(rng, n)
    m = max(1, n - rng.randint(1, 2))
    return {"n": n, "op": {"t": rng.choice(["matrix", "free"]), "m": m, "n": n, "s": S(rng)}, "b": S(rng), "niter": rng.choice([2, 50])}


@G("HalfSpace")
def _(rng, n, d):
    return {"n": _n(rng, n), "w": S(rng), "b": R(rng, -0.5, 1.5)}


@G("Hankel")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "dims": dm}


@G("Simplex")
def _(rng, n, d):
    eng = rng.choice(["numpy", "numba"])
    if n is None and rng.random() < 0.5:
        dm = _dims2(rng, None)
        if rng.random() < 0.25:  # a single group, or groups of one
            dm[rng.randrange(2)] = 1
        return {"n": dm[0] * dm[1], "dims": dm, "axis": rng.choice([0, 1, -1]), "r": R(rng, 0.4, 2), "eng": eng, "call": rng.random() < 0.8}
    n = _n(rng, n)
    return {"n": n, "dims": None, "axis": -1, "r": R(rng, 0.4, 2), "eng": eng, "call": rng.random() < 0.8}


for _nm in ("ETP", "Geman", "Log"):

    def _f(rng, n, d):
        return {"n": _n(rng, n), "sigma": R(rng, 0.2, 1.5), "gamma": R(rng, 0.5, 2)}

    GENS[_nm] = _f


@G("Log1")
def _(rng, n, d):
    return {"n": _n(rng, n), "sigma": R(rng, 0.05, 0.6), "delta": rng.choice([1e-10, 1e-3])}


@G("SCAD")
def _(rng, n, d):
    return {"n": _n(rng, n), "sigma": R(rng, 0.2, 1), "a": R(rng, 2.5, 5)}


@G("QuadraticEnvelopeCard")
def _(rng, n, d):
    return {"n": _n(rng, n), "mu": R(rng, 0.1, 1.5)}


@G("QuadraticEnvelopeCardIndicator")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "r0": rng.randint(1, n)}


@G("QuadraticEnvelopeRankL2")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None or min(dm) < 2:
        return None
    return {"n": dm[0] * dm[1], "dims": dm, "r0": rng.randint(1, min(dm) - 1), "M": S(rng)}


@G("SingularValuePenalty")
def _(rng, n, d):
    dm = _dims2(rng, n)
    if dm is None:
        return None
    return {"n": dm[0] * dm[1], "dims": dm, "f": gen(rng, min(dm), d + 1, cx=False, only=("ETP", "Geman", "Log", "SCAD", "L1", "QuadraticEnvelopeCard", "L0"))}


@G("Affine")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "f": _child(rng, n, d), "v": S(rng), "neg": rng.random() < 0.3}


@G("Post")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "f": _child(rng, n, d), "sigma": R(rng, 0.2, 2), "mul": rng.random() < 0.5}


@G("Pre")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "f": _child(rng, n, d), "a": R(rng, 0.3, 2), "b": S(rng) if rng.random() < 0.6 else R(rng, -1, 1)}


@G("Chain")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "f": _child(rng, n, d), "g": _child(rng, n, d)}


@G("Adjoint")
def _(rng, n, d):
    n = _n(rng, n)
    return {"n": n, "f": _child(rng, n, d)}


ALL = tuple(sorted(GENS))
NEED_DIMS = ("L2Convolve", "L21_plus_L1")
FLAT = tuple(x for x in ALL if x not in NEED_DIMS)
NESTED = ("Affine", "Post", "Pre", "Chain", "Adjoint", "Sum", "VStack", "Orthogonal", "SingularValuePenalty")
STATEFUL = ()
MANY = ("L1", "L2", "L2Convolve", "TV", "Sum", "Orthogonal", "Simplex", "Hankel", "Quadratic")  # many options
COMPLEX = ("L1", "L0", "L0Ball", "L1Ball", "Euclidean", "EuclideanBall", "HuberCircular", "L2", "Log1", "L10Ball", "Quadratic0")


def build(sp, pool=None, insts=None):
    """pool: live instances a {"ref": j} resolves to; else insts[j] is rebuilt."""
    import pyproximal as pp
    import pylops

    if "ref" in sp:
        if pool is not None:
            return pool[sp["ref"]]
        return build(insts[sp["ref"]], None, insts)
    A = {}
    ch = []
    t, n, cx = sp["t"], sp["n"], sp.get("cx", False)

    def own(name, a):
        A[name] = a
        return a

    def sub(s):
        b = build(s, pool, insts)
        for kk, v in b.arrays.items():
            A["%s.%s" % (len(ch), kk)] = v
        ch.append(b)
        return b.op

    if t == "User":
        op = _user_class()(sp["kind"], sp["a"], own("center", arr(sp["s"], n)))
    elif t == "Box":
        if "los" in sp:
            lo = own("lower", arr(sp["los"], n))
            op = pp.Box(lo, own("upper", lo + sp["w"]))
        else:
            op = pp.Box(sp["lo"], sp["hi"])
    elif t == "EuclideanBall":
        op = pp.EuclideanBall(own("center", arr(sp["c"], n, cx, 0.5)) if sp["c"] is not None else 0.1, sp["r"])
    elif t == "Euclidean":
        op = pp.Euclidean(sp["sigma"])
    elif t == "L0":
        op = pp.L0(_param(sp["sigma"]))
    elif t == "L0Ball":
        op = pp.L0Ball(_param(sp["r"]))
    elif t == "L10Ball":
        op = (pp.L01Ball if sp.get("old") else pp.L10Ball)(sp["nd"], _param(sp["r"]))
        if sp.get("old"):
            op.ball = pp.projection.L01BallProj(op.ball.radius)
    elif t == "L1":
        sg = sp["sigma"]
        if isinstance(sg, int) and not isinstance(sg, bool) and sg > 100:
            sg = own("sigma", np.abs(arr(sg, n)) + 0.1)
        else:
            sg = _param(sg)
        op = pp.L1(sg, g=own("g", arr(sp["g"], n, cx)) if sp["g"] is not None else None)
    elif t == "L1Ball":
        op = pp.L1Ball(n, sp["r"])
    elif t == "L2":
        kw = dict(sigma=sp["sigma"], alpha=sp["alpha"], qgrad=sp["qgrad"])
        if sp["q"] is not None:
            kw["q"] = own("q", arr(sp["q"], n, cx))
        m = sp["mode"]
        if m == "b":
            kw["b"] = own("b", arr(sp["b"], n, cx))
        elif m != "none":
            o = linop(sp["op"])
            if hasattr(o, "A"):
                own("op.A", o.A)
            kw["Op"] = o
            kw["b"] = own("b", arr(sp["b"], sp["op"]["m"]))
            if m == "dense":
                kw["densesolver"] = sp["ds"]
            else:
                kw.update(solver=sp["solver"], niter=_param(sp["niter"]), warm=sp["warm"])
                if sp.get("kws"):
                    kw["kwargs_solver"] = dict(sp["kws"])
                if sp["x0"] is not None:
                    kw["x0"] = own("x0", arr(sp["x0"], n))
        op = pp.L2(**kw)
    elif t == "L2Convolve":
        if sp["dims"] is None:
            h = own("h", arr(sp["h"], sp["hn"]))
            b = own("b", arr(sp["b"], n))
            op = pp.L2Convolve(h, b, nfft=sp["nfft"], sigma=sp["sigma"])
        else:
            h = own("h", arr(sp["h"], sp["hn"]))
            di = sp["dir"]
            dd = 1 if di is None else di
            dl = list(sp["dims"])
            b = own("b", arr(sp["b"], int(np.prod(dl))).reshape(dl))
            op = pp.L2Convolve(h, b, nfft=sp["nfft"], sigma=sp["sigma"], dims=tuple(sp["dims"]), dir=di)
    elif t == "L21":
        op = pp.L21(sp["nd"], sp["sigma"])
    elif t == "L21_plus_L1":
        op = pp.L21_plus_L1(sp["sigma"], sp["rho"])
    elif t == "Huber":
        op = pp.Huber(sp["alpha"])
    elif t == "HuberCircular":
        op = pp.HuberCircular(sp["alpha"])
    elif t == "Nuclear":
        sg = sp["sigma"]
        if isinstance(sg, int):
            # one weight per singular value eigvalsh(X.T X) reports
            sg = own("sigma", np.sort(np.abs(arr(sg, sp["dims"][1])))[::-1] + 0.1)
        op = pp.Nuclear(tuple(sp["dims"]), sg)
    elif t == "NuclearBall":
        op = pp.NuclearBall(tuple(sp["dims"]), sp["r"])
    elif t == "TV":
        kw = {}
        if sp.get("wx") is not None:
            kw["wx"] = sp["wx"]
        op = pp.TV(tuple(sp["dims"]), sigma=sp["sigma"], niter=_param(sp["niter"]), rtol=sp["rtol"], **kw)
    elif t == "RelaxedMumfordShah":
        op = pp.RelaxedMumfordShah(_param(sp["sigma"]), _param(sp["kappa"]))
    elif t == "Quadratic":
        m = sp["mode"]
        kw = dict(c=sp["c"], niter=sp["niter"], warm=sp["warm"])
        if m in ("dense", "free", "nob"):
            kw["Op"] = linop(sp["op"])
        if m in ("dense", "free", "b"):
            kw["b"] = own("b", arr(sp["b"], n))
        if sp["x0"] is not None:
            kw["x0"] = own("x0", arr(sp["x0"], n))
        op = pp.Quadratic(**kw)
    elif t == "Nonlinear":
        op = nonlinear_class()(own("x0", arr(sp["x0"], n)), niter=sp["niter"], warm=sp["warm"]).setup(sp["a"], sp["how"])
    elif t == "Orthogonal":
        op = pp.Orthogonal(sub(sp["f"]), linop(sp["q"]), **({"partial": True} if sp["partial"] else {}), b=own("b", arr(sp["b"], n)) if sp["b"] is not None else None, alpha=sp["alpha"])
    elif t == "VStack":
        fs = [sub(f) for f in sp["f"]]
        if sp["restr"]:
            perm = np.random.default_rng(sp["perm"]).permutation(n)
            cuts = np.cumsum(sp["nn"])[:-1]
            restr = [pylops.Restriction(n, np.sort(p)) for p in np.split(perm, cuts)]
            op = pp.VStack(fs, restr=restr)
        else:
            op = pp.VStack(fs, nn=list(sp["nn"]))
    elif t == "Sum":
        w = sp["w"]
        if w is not None and sp["warr"]:
            w = own("weights", np.array(w, dtype=float))
        op = pp.Sum([sub(f) for f in sp["f"]], weights=w, niter=sp["niter"], tol=sp["tol"], use_parallel=sp["par"], use_original_tau=sp["ot"])
    elif t == "GenericIntersectionProx":
        op = pp.GenericIntersectionProx([SimProj(p) for p in sp["p"]], niter=sp["niter"], tol=sp["tol"], use_parallel=sp["par"])
    elif t == "Intersection":
        sg = sp["sigma"]
        if sp["arr"]:
            sg = own("sigma", np.full((sp["k"], sp["k"]), sg))
        op = pp.Intersection(sp["k"], sp["m"], sg, niter=sp["niter"], call=sp["call"])
    elif t == "AffineSet":
        op = pp.AffineSet(linop(sp["op"]), own("b", arr(sp["b"], sp["op"]["m"])), niter=sp["niter"])
    elif t == "HalfSpace":
        op = pp.HalfSpace(own("w", arr(sp["w"], n)), sp["b"])
    elif t == "Hankel":
        op = pp.Hankel(tuple(sp["dims"]))
    elif t == "Simplex":
        op = pp.Simplex(n, sp["r"], dims=tuple(sp["dims"]) if sp["dims"] else None, axis=sp["axis"], call=sp["call"], engine=sp["eng"])
    elif t in ("ETP", "Geman", "Log"):
        op = getattr(pp, t)(sp["sigma"], sp["gamma"])
    elif t == "Log1":
        op = pp.Log1(sp["sigma"], sp["delta"])
    elif t == "SCAD":
        op = pp.SCAD(sp["sigma"], sp["a"])
    elif t == "QuadraticEnvelopeCard":
        op = pp.QuadraticEnvelopeCard(sp["mu"])
    elif t == "QuadraticEnvelopeCardIndicator":
        op = pp.QuadraticEnvelopeCardIndicator(sp["r0"])
    elif t == "QuadraticEnvelopeRankL2":
        op = pp.QuadraticEnvelopeRankL2(tuple(sp["dims"]), sp["r0"], own("M", arr(sp["M"], n).reshape(sp["dims"])))
    elif t == "SingularValuePenalty":
        op = pp.SingularValuePenalty(tuple(sp["dims"]), sub(sp["f"]))
    elif t == "Affine":
        f = sub(sp["f"])
        v = own("v", arr(sp["v"], n))
        op = (f - v) if sp["neg"] else (f + v)
    elif t == "Post":
        f = sub(sp["f"])
        op = sp["sigma"] * f if sp["mul"] else f.postcomposition(sp["sigma"])
    elif t == "Pre":
        f = sub(sp["f"])
        b = own("b", arr(sp["b"], n)) if isinstance(sp["b"], int) else sp["b"]
        op = f.precomposition(sp["a"], b)
    elif t == "Chain":
        f, g = sub(sp["f"]), sub(sp["g"])
        op = f.chain(g)
    elif t == "Adjoint":
        op = sub(sp["f"]).H
    elif t == "Bilinear":
        from pyproximal.utils.bilinear import LowRankFactorizedMatrix

        X = own("X", arr(sp["X"], sp["nn"] * sp["k"], cx).reshape(sp["nn"], sp["k"]))
        Y = own("Y", arr(sp["Y"], sp["mm"] * sp["k"], cx).reshape(sp["k"], sp["mm"]))
        o = linop(sp["op"]) if sp["op"] else None
        d = own("d", arr(sp["d"], sp["op"]["m"] if sp["op"] else sp["nn"] * sp["mm"], cx))
        op = LowRankFactorizedMatrix(X.ravel().reshape(sp["nn"], sp["k"]), Y, d, Op=o)
    else:
        raise KeyError(t)
    return Built(op, n, A, cx, ch)


def gen_bilinear(rng, op=True, cx=None):
    nn, mm, k = rng.randint(2, 4), rng.randint(2, 4), rng.randint(1, 2)
    N = nn * mm
    o = None
    if op and rng.random() < 0.3:
        o = {"t": rng.choice(["free", "matrix"]), "m": max(1, N - rng.randint(0, 2)), "n": N, "s": S(rng)}
    return {
        "t": "Bilinear",
        "nn": nn,
        "mm": mm,
        "k": k,
        "n": (nn + mm) * k,
        "X": S(rng),
        "Y": S(rng),
        "d": S(rng),
        "op": o,
        "cx": bool(cx if cx is not None else (o is None and rng.random() < 0.15)),
    }


def _param(v):
    return SimSchedule(v) if isinstance(v, dict) else v


# -- inputs ----------------------------------------------------------------
XMODES = ("normal", "normal", "normal", "large", "small", "zeros", "sparse", "ties", "const", "nonneg")


def gen_x(rng):
    return {"s": S(rng), "mode": rng.choice(XMODES), "lay": rng.choice(["c", "c", "c", "strided", "view", "f32"])}


def make_x(xs, n, cx=False, shape=None):
    s, mode = xs["s"], xs["mode"]
    x = arr(s, n, cx)
    if mode == "large":
        x = x * 12.0
    elif mode == "small":
        x = x * 0.02
    elif mode == "zeros":
        x = x * 0.0
    elif mode == "sparse":
        x = x * (np.random.default_rng(s + 1).random(n) < 0.4)
    elif mode == "ties":
        x = np.round(x)
    elif mode == "const":
        x = np.full(n, x[0])
    elif mode == "nonneg":
        x = np.abs(x) + (0j if cx else 0.0)
    elif mode == "nan":
        x[np.random.default_rng(s).integers(n)] = np.nan
    elif mode == "inf":
        x[np.random.default_rng(s).integers(n)] = np.inf
    tr = xs.get("tr")
    if tr == "rev":
        x = x[::-1].copy()
    elif tr == "neg":
        x = -x
    elif tr == "scale":
        x = x * 1.00001
    elif tr == "eps":
        x = x.copy()
        x[n // 2] += 1e-4 * (1.0 + abs(x[n // 2]))
    elif tr == "swap" and n > 1:
        x[0], x[n - 1] = x[n - 1], x[0]
    if shape is not None:
        x = x.reshape(shape)
    return relay(x, xs.get("lay", "c"), shape)


def relay(x, lay, shape=None):
    """x in another memory layout."""
    if lay == "strided":
        buf = np.full((2 * x.size,), 7.25, dtype=x.dtype)
        buf[::2] = x.ravel()
        v = buf[::2]
        if shape is not None:
            big = np.full((x.shape[0], 2 * x.shape[1]), 7.25, dtype=x.dtype)
            big[:, ::2] = x
            v = big[:, ::2]
        return v
    if lay == "view" and shape is None:
        buf = np.full((x.size + 3,), 7.25, dtype=x.dtype)
        buf[1 : 1 + x.size] = x
        return buf[1 : 1 + x.size]
    if lay == "f32":
        return x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    return x


def xshape(sp):
    """Some operators take 2-d input."""
    if sp["t"] == "L21_plus_L1":
        return tuple(sp["dims"])
    return None


def walk(sp):
    yield sp
    f = sp.get("f")
    if isinstance(f, dict):
        yield from walk(f)
    elif isinstance(f, list):
        for x in f:
            yield from walk(x)
    if isinstance(sp.get("g"), dict):
        yield from walk(sp["g"])

import copy

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C06"
LEVEL = "exploration"
N = {"quick": 1200, "thorough": 40000}
RULE = "one run = a strongly convex problem handed to a solver in one of its variants, after earlier attempts with the same operators were aborted, with early inexact operators, or restarted from an intermediate iterate; once the faults stop the result must be within the stated distance of the minimiser found by an independent method, within the stated number of iterations"
MEASURE = "signature of solver, variant, components and fault history"
MARKS_ARE_RUNS = False
REAL = "all solvers; about 40 kinds of component: quadratics, norms, balls, boxes, simplices, half spaces, affine sets, Huber forms, composites (sums, stacks, affine and pre-composed forms, orthogonal compositions, intersections), total variation, denoisers; real and complex"
STUB = "linear operators, simulated components, aborting faults, transiently inexact components"
ASSUME = [
    "stated distance: 2e-3 times (1 + size of the minimiser + distance of the starting point + size of the inexactness)",
    "stated number of iterations: per solver, from the conditioning of the problem (functions gen_* of sim/props/c06.py), times 25: most runs need less than 1% of it",
    "the accelerated generalized form, the unguarded Anderson form and non-unit extrapolation of the primal-dual solver are covered by C01 and C02 only",
]
TOL = 2e-3
LONG = 25


# -- components -------------------------------------------------------------------
def quad_mats(sp):
    g = np.random.default_rng(sp["s"])
    n, m = sp["n"], sp["m"]
    cx = sp.get("cx")
    u, _ = np.linalg.qr(cmat(g, (m, m), cx))
    v, _ = np.linalg.qr(cmat(g, (n, n), cx))
    s = np.sqrt(np.linspace(sp["L"], sp["mu"], n)) if n > 1 else np.sqrt(np.array([sp["L"]]))
    B = u[:, :n] @ np.diag(s) @ v.conj().T
    return B, vec(sp, 3, m) * sp.get("big", 1.0)


def cmat(g, shape, cx):
    M = g.normal(size=shape)
    return M + 1j * g.normal(size=shape) if cx else M


def vec(sp, k=0, n=None):
    return C.arr(sp["s"] + k, sp["n"] if n is None else n, bool(sp.get("cx")))


def soft(v, t):
    return v * np.maximum(0.0, 1.0 - t / np.maximum(np.abs(v), 1e-300))


def free_op(M):
    return C._linop_class()[0](M, M.dtype.name)


def mk_quad(sp):
    import pylops
    import pyproximal

    B, c = quad_mats(sp)
    kind = sp["impl"]
    if kind == "L2":
        sig = sp.get("sigma", 1.0)
        B, c = B / np.sqrt(sig), c / np.sqrt(sig)
        v = sp["var"]
        if v == "dense":
            return pyproximal.L2(Op=pylops.MatrixMult(B, dtype=B.dtype), b=c, sigma=sig, densesolver=sp["ds"])
        if v == "free":
            return pyproximal.L2(Op=free_op(B), b=c, sigma=sig, niter=60, warm=sp["warm"], kwargs_solver={"atol": 1e-13, "btol": 1e-13})
        return pyproximal.L2(Op=free_op(B), b=c, sigma=sig, niter=60, warm=sp["warm"], solver=v, kwargs_solver={"tol": 1e-24})
    if kind == "Quadratic":
        return pyproximal.Quadratic(Op=pylops.MatrixMult(B.T @ B), b=-B.T @ c, c=0.5 * float(c @ c), niter=60, warm=sp["warm"])
    return _sim()["quad"](B, c)


def mop(M):
    import pylops

    return pylops.MatrixMult(M, dtype=M.dtype)


def mk_g(sp):
    import pylops
    import pyproximal as P

    k, n = sp["k"], sp["n"]
    if k == "soft":
        return _sim()["soft"](sp["a"])
    if k == "L1":
        return P.L1(sp["a"], g=vec(sp) if sp["off"] else None)
    if k == "Box":
        return P.Box(-sp["a"], 0.6 * sp["a"]) if not sp["off"] else P.Box(-sp["a"] * np.ones(n), 0.6 * sp["a"] * np.ones(n))
    if k == "Euclidean":
        return P.Euclidean(sp["a"])
    if k == "Ball":
        return P.EuclideanBall(np.zeros(n), sp["a"])
    if k == "L1Ball":
        return P.L1Ball(n, sp["a"], maxiter=200, xtol=1e-12)
    if k == "Huber":
        return P.Huber(sp["a"])
    if k == "Orth":
        return P.Orthogonal(P.L1(sp["a"]), mop(orth(sp)))
    if k == "OffBall":
        return P.EuclideanBall(vec(sp), sp["a"])
    if k == "Simplex":
        return P.Simplex(n, sp["a"], maxiter=200, ftol=1e-12, xtol=1e-12)
    if k == "Half":
        return P.HalfSpace(vec(sp), sp["a"] - 0.8)
    a = sp["a"]
    if k == "HuberC":
        return P.HuberCircular(a)
    if k == "L1w":
        return P.L1(l1w(sp))
    if k == "L21":
        return P.L21(sp["nd"], a)
    if k == "Nuc":
        return P.Nuclear(tuple(sp["dims"]), a)
    if k == "NucBall":
        return P.NuclearBall(tuple(sp["dims"]), a, maxiter=200, xtol=1e-12)
    if k == "L2b":
        b, q = vec(sp), vec(sp, 1)
        return P.L2(b=b if sp["off"] else None, sigma=a, q=q if sp["q"] else None, alpha=0.7)
    if k == "L2Op":
        B = lmat(sp)
        return P.L2(Op=pylops.MatrixMult(B) if sp["q"] else free_op(B), b=C.arr(sp["s"], sp["m"]), sigma=a, niter=80, warm=sp["off"], densesolver="numpy" if sp["q"] else None, kwargs_solver=None if sp["q"] else {"atol": 1e-13, "btol": 1e-13})
    if k == "Quad":
        B = lmat(sp)
        return P.Quadratic(Op=pylops.MatrixMult(B.T @ B) if sp["q"] else free_op(B.T @ B), b=vec(sp) if sp["off"] else np.zeros(n), c=0.3, niter=80)
    if k == "Cosh":
        return C.nonlinear_class()(np.zeros(n), niter=80, warm=sp["off"]).setup(a, "newton" if sp["q"] else "lbfgs")
    if k == "BoxLo":
        return P.Box(lower=-a) if sp["q"] else P.Box(upper=vec(sp) + 1.0)
    if k == "SimplexD":
        return P.Simplex(n, a, dims=tuple(sp["dims"]), axis=sp["nd"], maxiter=200, ftol=1e-12, xtol=1e-12, engine="numba" if sp["s"] % 12 == 0 else "numpy")
    if k == "Aset":
        B = lmat(sp)
        return P.AffineSet(pylops.MatrixMult(B) if sp["q"] else free_op(B), C.arr(sp["s"], sp["m"]), 80)
    if k == "Inter":
        return P.Intersection(sp["nd"], n // sp["nd"], a, niter=3000, tol=1e-10)
    if k == "TV":
        return P.TV(tuple(sp["dims"]), sigma=a, niter=sp["m"], rtol=1e-14)
    if k == "GenInt":
        return P.GenericIntersectionProx([lambda v, p=p: p(v, 1.0) for p in cuts(sp)], niter=4000, tol=1e-11, use_parallel=sp["off"])
    if k in ("Sum", "SumC"):
        return P.Sum([mk_g(f) for f in sp["f"]], weights=sp["w"], niter=4000, tol=1e-11, use_parallel=sp["off"], use_original_tau=sp["q"])
    if k == "VStk":
        return P.VStack([mk_g(f) for f in sp["f"]], nn=[f["n"] for f in sp["f"]])
    f = mk_g(sp["f"])
    if k == "Aff":
        return f + vec(sp) * 0.5
    if k == "Post":
        return a * f
    if k == "PreS":
        return f.precomposition(a + 0.3, 0.0)
    if k == "Pre":
        return f.precomposition(a + 0.3, vec(sp) if sp["off"] else 0.4)
    if k == "Adj":
        return f.H
    if k == "OrthP":
        return P.Orthogonal(f, mop(np.sqrt(a) * orth(dict(sp, n=sp["m"]))[: sp["f"]["n"]][:, : sp["n"]]), partial=True, b=vec(sp, 0, sp["f"]["n"]) if sp["off"] else None, alpha=a)
    raise ValueError(k)


def l1w(sp):
    return sp["a"] * (0.2 + np.random.default_rng(sp["s"]).random(sp["n"]))


def lmat(sp):
    g = np.random.default_rng(sp["s"])
    return g.normal(size=(sp["m"], sp["n"])) / np.sqrt(max(sp["m"], sp["n"]))


def cuts(sp):
    """Half spaces and boxes that all contain a small ball around zero."""
    g = np.random.default_rng(sp["s"])
    out = []
    for _ in range(sp["m"]):
        if g.random() < 0.4:
            lo, hi = -0.1 - g.random(sp["n"]), 0.1 + g.random(sp["n"])
            out.append(lambda v, t, lo=lo, hi=hi: np.minimum(np.maximum(v, lo), hi))
        else:
            w, b = g.normal(size=sp["n"]), sp["a"]
            out.append(lambda v, t, w=w: v - max(0.0, w @ v - b) / (w @ w) * w)
    return out


def dykstra(v, ps, iters=20000):
    x, inc = v, [np.zeros_like(v) for _ in ps]
    for _ in range(iters):
        moved = 0.0
        for i, p in enumerate(ps):
            y = p(x + inc[i], 1.0)
            moved = max(moved, np.linalg.norm(x - y))  # x may pause while the increments still move
            inc[i] = x + inc[i] - y
            x = y
        if moved < 1e-13 * (1 + np.linalg.norm(x)):
            break
    return x


def pairs(sp):
    """|x_i - x_j| <= a for every pair of rows."""
    k, n, a = sp["nd"], sp["n"] // sp["nd"], sp["a"]

    def pr(i, j):
        def p(v, t):
            X = v.reshape(k, n).copy()
            d = X[j] - X[i]
            e = 0.5 * np.sign(d) * np.maximum(np.abs(d) - a, 0.0)
            X[i] += e
            X[j] -= e
            return X.ravel()

        return p

    return [pr(i, j) for i in range(k) for j in range(i + 1, k)]


def tvprox(v, dims, g):
    """Exact in one dimension (bounded least squares); dual iterations otherwise."""
    from scipy.optimize import lsq_linear

    D = V2.gradmat(dims)
    if len(dims) == 1:
        D = D[:-1]
        if g == 0 or not D.size:
            return v
        u = lsq_linear(D.T, v, bounds=(-g * np.ones(D.shape[0]), g * np.ones(D.shape[0])), method="bvls", tol=1e-14).x
        return v - D.T @ u
    nd, n = len(dims), v.size
    u = w = np.zeros((nd, n))
    t, x = 1.0, v
    for _ in range(4000):
        z = (w.ravel() + D @ (v - D.T @ w.ravel()) / (4.0 * nd)).reshape(nd, n)
        nu = z / np.maximum(1.0, np.sqrt((z**2).sum(axis=0)) / g)
        t2 = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        w = nu + (t - 1) / t2 * (nu - u)
        d = np.linalg.norm(nu - u)
        u, t = nu, t2
        if d < 1e-12:
            break
    return v - D.T @ u.ravel()


def orth(sp):
    q, _ = np.linalg.qr(cmat(np.random.default_rng(sp["s"]), (sp["n"], sp["n"]), sp.get("cx")))
    return q


def l1ball(v, r):
    if np.abs(v).sum() <= r:
        return v
    return v / np.maximum(np.abs(v), 1e-300) * simplex(np.abs(v), r)


def simplex(v, r):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - r
    j = np.arange(1, v.size + 1)
    k = np.nonzero(u - c / j > 0)[0][-1]
    return np.maximum(v - c[k] / (k + 1), 0.0)


def ref_prox(sp):
    """(v, t) -> prox, in plain numpy."""
    k, n, a = sp["k"], sp["n"], sp["a"]
    if k == "soft" or (k == "L1" and not sp["off"]):
        return lambda v, t: soft(v, a * t)
    if k == "L1":
        o = vec(sp)
        return lambda v, t: soft(v - o, a * t) + o  # sigma |x - g|_1
    if k == "Box":
        return lambda v, t: np.minimum(np.maximum(v, -a), 0.6 * a)
    if k == "Euclidean":
        return lambda v, t: v * max(0.0, 1.0 - a * t / max(np.linalg.norm(v), 1e-300))
    if k == "Ball":
        return lambda v, t: v * min(1.0, a / max(np.linalg.norm(v), 1e-300))
    if k == "OffBall":
        o = vec(sp)
        return lambda v, t: o + (v - o) * min(1.0, a / max(np.linalg.norm(v - o), 1e-300))
    if k == "L1Ball":
        return lambda v, t: l1ball(v, a)
    if k == "Simplex":
        return lambda v, t: simplex(v, a)
    if k == "Half":
        w = vec(sp)
        b = a - 0.8
        return lambda v, t: v - max(0.0, w @ v - b) / (w @ w) * w
    if k == "Orth":
        q = orth(sp)
        return lambda v, t: q.conj().T @ soft(q @ v, a * t)
    if k == "Huber":
        # |x|^2 / (2 alpha) for |x| <= alpha, |x| - alpha / 2 beyond
        return lambda v, t: np.where(np.abs(v) <= a + t, v * a / (a + t), v - t * np.sign(v))
    if k == "HuberC":
        return lambda v, t: v * (a / (a + t)) if np.linalg.norm(v) <= a + t else v * (1.0 - t / np.linalg.norm(v))
    if k == "L1w":
        w = l1w(sp)
        return lambda v, t: soft(v, w * t)
    if k == "L21":
        def l21(v, t):
            X = v.reshape(sp["nd"], -1)
            r = np.sqrt((np.abs(X)**2).sum(axis=0))
            return (X * np.where(r > a * t, 1.0 - a * t / np.maximum(r, 1e-300), 0.0)).ravel()

        return l21
    if k in ("Nuc", "NucBall"):
        def nuc(v, t):
            u, e, w = np.linalg.svd(v.reshape(sp["dims"]), full_matrices=False)
            e = np.maximum(e - a * t, 0.0) if k == "Nuc" else l1ball(e, a)
            return ((u * e) @ w).ravel()

        return nuc
    if k == "L2b":
        b = vec(sp) if sp["off"] else np.zeros(n)
        q = 0.7 * vec(sp, 1) if sp["q"] else np.zeros(n)
        return lambda v, t: (v + t * (a * b - q)) / (1.0 + a * t)
    if k == "L2Op":
        B, b = lmat(sp), C.arr(sp["s"], sp["m"])
        return lambda v, t: np.linalg.solve(np.eye(n) + a * t * B.T @ B, v + a * t * B.T @ b)
    if k == "Quad":
        B, b = lmat(sp), vec(sp) if sp["off"] else np.zeros(n)
        return lambda v, t: np.linalg.solve(np.eye(n) + t * B.T @ B, v - t * b)
    if k == "Cosh":
        def cosh(v, t):
            lo, hi = np.minimum(v, 0.0), np.maximum(v, 0.0)
            for _ in range(80):
                m = 0.5 * (lo + hi)
                up = m + t * a * np.sinh(a * m) > v
                lo, hi = np.where(up, lo, m), np.where(up, m, hi)
            return 0.5 * (lo + hi)

        return cosh
    if k == "BoxLo":
        return lambda v, t: np.maximum(v, -a) if sp["q"] else np.minimum(v, vec(sp) + 1.0)
    if k == "SimplexD":
        def simp(v, t):
            X = v.reshape(sp["dims"]).copy()
            X = X if sp["nd"] == 0 else X.T
            X = np.array([simplex(c, a) for c in X.T]).T
            return np.ascontiguousarray(X if sp["nd"] == 0 else X.T).ravel()

        return simp
    if k == "Aset":
        B, b = lmat(sp), C.arr(sp["s"], sp["m"])
        pin = np.linalg.pinv(B)
        return lambda v, t: v - pin @ (B @ v - b)
    if k == "Inter":
        return lambda v, t: dykstra(v, pairs(sp))
    if k == "TV":
        return lambda v, t: tvprox(v, sp["dims"], a * t)
    if k == "GenInt":
        return lambda v, t: dykstra(v, cuts(sp))
    if k == "Sum":  # prox of a sum known in closed form
        ps = [ref_prox(f) for f in sp["f"]]
        w = sp["w"] or [1.0 / len(ps)] * len(ps)
        ws = w if sp["q"] and (len(ps) > 2 or sp["off"]) else [1.0] * len(ps)

        def chain(v, t):
            for p, u in zip(ps, ws):
                v = p(v, u * t)
            return v

        return chain
    if k == "VStk":
        ps = [ref_prox(f) for f in sp["f"]]
        cs = np.cumsum([f["n"] for f in sp["f"]])[:-1]
        return lambda v, t: np.concatenate([p(u, t) for p, u in zip(ps, np.split(v, cs))])
    if k == "OrthP":
        p = ref_prox(sp["f"])
        Q = np.sqrt(a) * orth(dict(sp, n=sp["m"]))[: sp["f"]["n"]][:, : sp["n"]]
        o = vec(sp, 0, sp["f"]["n"]) if sp["off"] else 0.0
        # h(Qx + o), QQ' = a I
        return lambda v, t: v + Q.conj().T @ (p(Q @ v + o, a * t) - (Q @ v + o)) / a
    p = ref_prox(sp["f"])
    if k == "Aff":
        o = 0.5 * vec(sp)
        return lambda v, t: p(v - t * o, t)
    if k == "Post":
        return lambda v, t: p(v, a * t)
    if k in ("Pre", "PreS"):
        c = a + 0.3
        o = 0.0 if k == "PreS" else vec(sp) if sp["off"] else 0.4
        return lambda v, t: (p(c * v + o, c * c * t) - o) / c
    if k == "Adj":
        return lambda v, t: v - t * p(v / t, 1.0 / t)
    raise ValueError(k)


FIN0 = ("L1", "L1", "soft", "Euclidean", "Huber", "HuberC", "L1w", "L21", "Nuc")
FINITE = FIN0 + ("Orth", "L2b", "PostF", "AffF", "PreF")
ANY = FIN0 + ("Orth", "Box", "Ball", "L1Ball", "NucBall", "L2b", "Post", "PreS", "VStk", "BoxLo", "Cosh")
ONE = ANY + ("OffBall", "Simplex", "Half", "SimplexD", "Aset", "L2Op", "Quad", "Aff", "Pre", "OrthP", "Adj")
HEAVY = ("TV", "TV", "GenInt", "Inter", "Sum", "Sum") + ONE  # one evaluation at a time
CXK = ("L1", "soft", "Euclidean", "HuberC", "L1w", "L21", "Nuc", "Orth", "Ball", "L1Ball", "NucBall", "L2b", "Post", "PostF", "PreS", "Pre", "PreF", "VStk", "OffBall", "Aff", "AffF", "OrthP", "Adj", "L2Op", "Huber", "Aset", "Sum")
CXN = ("ProximalPoint", "ProximalGradient", "Denoise", "GeneralizedProximalGradient", "AndersonProximalGradient", "HQS", "ADMM", "ADMML2", "LinearizedADMM", "TwIST", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM", "PrimalDual", "AdaptivePrimalDual", "PALM", "iPALM", "PGBilinear")
_cx = [False]
CONE = ("L1", "L1w", "Euclidean", "Box", "Ball")


def gen_g(rng, n, kinds, depth=0):
    while True:
        k = rng.choice(kinds)
        if _cx[0] and k not in CXK:
            continue
        sub = FIN0 if k.endswith("F") else ANY[: ANY.index("Post")]
        k = {"PostF": "Post", "AffF": "Aff", "PreF": "Pre"}.get(k, k)
        sp = {"c": "c06g", "k": k, "n": n, "a": C.R(rng, 0.15, 1.2), "s": C.S(rng), "off": rng.random() < 0.3, "q": rng.random() < 0.5}
        if _cx[0]:
            sp["cx"] = True
        if k == "Simplex" and n < 2:
            continue
        if k in ("L21", "Nuc", "NucBall", "Inter", "SimplexD"):
            if n not in (4, 6, 8, 9, 12, 16):
                continue
            d = rng.choice({4: (2,), 6: (2, 3), 8: (2, 4), 9: (3,), 12: (2, 3, 4, 6), 16: (2, 4, 8)}[n])
            sp["nd"], sp["dims"] = d, [d, n // d]
            if k == "SimplexD":
                sp["nd"] = rng.choice([0, 1])
        if k == "TV":
            if n < 3:
                continue
            sp["dims"] = [n]
            if n in (6, 8, 9, 12) and rng.random() < 0.6:
                sp["dims"] = rng.choice([[2, n // 2], [n // 2, 2]]) if n != 9 else [3, 3]
                if n == 12:
                    sp["dims"] = rng.choice([[3, 4], [2, 2, 3], [3, 2, 2]])
            if n == 16:
                sp["dims"] = rng.choice([[4, 4], [2, 2, 4], [2, 2, 2, 2], [2, 2, 2, 2], [16]])
            sp["m"] = 200
        if k == "GenInt":
            sp["m"] = rng.choice([1, 2, 3, 4])
        if k == "L2Op":
            sp["m"] = rng.choice([n, n + 2, max(1, n - 1)])
        if k == "Quad":
            sp["m"] = n
        if k == "Aset":
            if n < 2:
                continue
            sp["m"] = rng.randint(1, n - 1)
        if k == "Sum":
            which = rng.choice([("L1", "Box"), ("L1", "Ball"), ("L1", "Euclidean"), ("L1", "Euclidean", "Ball"), ("L1w", "L1", "Box"), ("Box",), ("L1", "L1w")])
            if _cx[0]:
                which = rng.choice([("L1", "Ball"), ("L1", "Euclidean"), ("L1", "Euclidean", "Ball"), ("L1w",), ("L1", "L1w")])
            sp["f"] = [dict(gen_g(rng, n, (w,), 1), off=False) for w in which]
            sp["w"] = None
            if rng.random() < 0.5:
                w = np.random.default_rng(sp["s"]).random(len(which)) + 0.3
                sp["w"] = [float(v) for v in w / w.sum()]
            if len(which) == 2 and not sp["off"] or len(which) == 1:
                sp["w"] = None
        if k == "VStk":
            if n < 2:
                continue
            m = rng.randint(1, n - 1)
            sp["f"] = [gen_g(rng, m, sub, 1), gen_g(rng, n - m, sub, 1)]
        if k == "OrthP":
            if n < 2:
                continue
            sp["m"] = n
            sp["f"] = gen_g(rng, rng.randint(1, n), sub, 1)
        if k in ("Aff", "Post", "PreS", "Pre", "Adj"):
            sp["f"] = gen_g(rng, n, sub, 1)
        return sp


def gen_quad(rng, n, kappa=8.0, square=False, L=None, low=0.5, impls=("sim", "L2", "L2", "Quadratic")):
    L = C.R(rng, low, 3.0) if L is None else L
    sp = {"c": "c06q", "n": n, "m": n if square else rng.choice([n, n + 2]), "s": C.S(rng), "L": L, "mu": round(L / rng.uniform(1.5, kappa), 6)}
    if n == 1:
        sp["mu"] = L
    sp["impl"] = rng.choice(impls)
    sp["warm"] = rng.random() < 0.5
    sp["var"] = rng.choice(["dense", "dense", "free", "cg", "cgls"])
    sp["ds"] = rng.choice(["numpy", "scipy", "factorize"])
    sp["sigma"] = rng.choice([1.0, C.R(rng, 0.4, 2.0)])
    if _cx[0]:
        sp["cx"] = True
        if sp["impl"] == "Quadratic":
            sp["impl"] = "L2"
    return sp


_c = {}


def _sim():
    if _c:
        return _c
    import pyproximal
    from pyproximal.utils.bilinear import BilinearOperator

    class Quad(pyproximal.ProxOperator):
        def __init__(self, B, c):
            super().__init__(None, True)
            self.B, self.c = B, c

        def __call__(self, x):
            K.seam("call")
            return float(0.5 * np.linalg.norm(self.B @ x - self.c) ** 2)

        def prox(self, x, tau, **kw):
            K.seam("prox")
            return np.linalg.solve(np.eye(x.size) + tau * self.B.conj().T @ self.B, x + tau * self.B.conj().T @ self.c)

        def proxdual(self, x, tau, **kw):
            return x - tau * self.prox(x / tau, 1.0 / tau)

        def grad(self, x):
            K.seam("grad")
            return self.B.conj().T @ (self.B @ x - self.c)

    class Soft(pyproximal.ProxOperator):
        def __init__(self, a):
            super().__init__(None, False)
            self.a = a

        def __call__(self, x):
            K.seam("call")
            return float(self.a * np.abs(x).sum())

        def prox(self, x, tau, **kw):
            K.seam("prox")
            return soft(x, self.a * tau)

        def proxdual(self, x, tau, **kw):
            K.seam("proxdual")
            return x / np.maximum(1.0, np.abs(x) / self.a)

    class Flaky(pyproximal.ProxOperator):
        """An operator whose first answers are inexact."""

        def __init__(self, base, sp):
            super().__init__(None, base.hasgrad)
            self.base, self.sp, self.k = base, sp, 0

        def _out(self, y):
            self.k += 1
            if self.k > self.sp["until"]:
                return y
            Flaky.fired += 1
            return y + self.sp["noise"] * np.cos(1.3 * self.k + np.arange(y.size))

        def __call__(self, x):
            return self.base(x)

        def prox(self, x, tau, **kw):
            K.seam("prox")
            return self._out(self.base.prox(x, tau))

        def proxdual(self, x, tau, **kw):
            K.seam("proxdual")
            return self._out(self.base.proxdual(x, tau))

        def grad(self, x):
            K.seam("grad")
            return self._out(self.base.grad(x))

    Flaky.fired = 0

    class ConvexH(BilinearOperator):
        """1/2 |P x + Q y - d|^2 + c/2 (|x|^2 + |y|^2): jointly strongly convex."""

        def __init__(self, sp):
            super().__init__()
            self.P, self.Q, self.d, self.c = hmats(sp)
            self.sizex, self.sizey = self.P.shape[1], self.Q.shape[1]
            self.x, self.y = np.zeros(self.sizex, self.P.dtype), np.zeros(self.sizey, self.P.dtype)

        def __call__(self, x, y=None):
            K.seam("H")
            if y is None:
                x, y = x[: self.sizex], x[self.sizex :]
            return float(0.5 * np.linalg.norm(self.P @ x + self.Q @ y - self.d) ** 2 + 0.5 * self.c * (np.vdot(x, x) + np.vdot(y, y)).real)

        def gradx(self, x):
            K.seam("gradx")
            return self.P.conj().T @ (self.P @ x + self.Q @ self.y - self.d) + self.c * x

        def grady(self, y):
            K.seam("grady")
            return self.Q.conj().T @ (self.P @ self.x + self.Q @ y - self.d) + self.c * y

        def grad(self, v):
            return np.hstack([self.gradx(v[: self.sizex]), self.grady(v[self.sizex :])])

        def lx(self, x):
            return float(np.linalg.norm(self.Q, 2) ** 2) + self.c

        def ly(self, y):
            return float(np.linalg.norm(self.P, 2) ** 2) + self.c

    _c.update(quad=Quad, soft=Soft, flaky=Flaky, H=ConvexH)
    return _c


def hmats(sp):
    g = np.random.default_rng(sp["s"])
    cx = sp.get("cx")
    P = cmat(g, (sp["m"], sp["nx"]), cx) / np.sqrt(sp["m"])
    Q = cmat(g, (sp["m"], sp["ny"]), cx) / np.sqrt(sp["m"])
    return P, Q, cmat(g, (sp["m"],), cx), sp["c"]


V.EXTRA["c06q"] = mk_quad
V.EXTRA["c06g"] = mk_g
V.EXTRA["c06f"] = lambda sp: _sim()["flaky"](V.mk(sp["of"]), sp)


class CX(V2._Palm):
    """PALM and iPALM on a jointly convex coupling."""

    def env(self, spec, env):
        env["H"] = _sim()["H"](spec["H"])
        env["y0"] = C.arr(spec["y0"], spec["H"]["ny"], spec.get("cx", False))


class CPalm(CX):
    name = "PALM"


class CIPalm(CX):
    name = "iPALM"
    inertial = True


class CPG(V2.PGB):
    def env(self, spec, env):
        env["H"] = _sim()["H"](spec["H"])


OWN = {"PALM": CPalm(), "iPALM": CIPalm(), "PGBilinear": CPG()}


# -- independent minimisers -----------------------------------------------------------
def fista(H, q, prox, x0, iters=20000):
    """min 1/2 x'Hx - q'x + g(x) by restarted acceleration."""
    L = np.linalg.norm(H, 2)
    x = prox(x0, 1.0 / L)
    y, t = x, 1.0
    for _ in range(iters):
        z = prox(y - (H @ y - q) / L, 1.0 / L)
        if np.vdot(y - z, z - x).real > 0:
            y, t = x, 1.0
            z = prox(y - (H @ y - q) / L, 1.0 / L)
        t2 = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        y = z + (t - 1) / t2 * (z - x)
        d = np.linalg.norm(z - x)
        x, t = z, t2
        if d < 1e-12 * (1 + np.linalg.norm(x)):
            r = x - prox(x - (H @ x - q) / L, 1.0 / L)
            if np.linalg.norm(r) < 1e-10:
                return x
    raise K.Invalid("independent minimiser did not settle")


def dual_min(H, q, Ks, proxs):
    """min 1/2 x'Hx - q'x + sum_j g_j(K_j x) through its dual."""
    Hi = np.linalg.inv(H)
    Kc = np.vstack(Ks)
    cuts = np.cumsum([k.shape[0] for k in Ks])[:-1]
    D = Kc @ Hi @ Kc.conj().T
    r = Kc @ (Hi @ q)

    def px(v, s):
        out = []
        for p, w in zip(proxs, np.split(v, cuts)):
            out.append(w - s * p(w / s, 1.0 / s))
        return np.concatenate(out)

    y = fista(D, r, px, np.zeros(Kc.shape[0]))
    return Hi @ (q - Kc.conj().T @ y)


def smooth_min(grad, hess, L, n, iters=100000):
    x = np.zeros(n)
    y, t = x, 1.0
    for _ in range(iters):
        z = y - grad(y) / L
        if np.vdot(y - z, z - x).real > 0:
            y, t = x, 1.0
            z = y - grad(y) / L
        t2 = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        y = z + (t - 1) / t2 * (z - x)
        if np.linalg.norm(z - x) < 1e-13 and np.linalg.norm(grad(z)) < 1e-9:
            return z
        x, t = z, t2
    raise K.Invalid("independent minimiser did not settle")


# -- plans -------------------------------------------------------------------------
NAMES = 2 * ("ProximalPoint", "ProximalGradient", "ProximalGradient", "ProximalGradient", "AndersonProximalGradient", "GeneralizedProximalGradient", "HQS", "ADMM", "ADMML2", "LinearizedADMM", "TwIST", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM", "PrimalDual", "PrimalDual", "AdaptivePrimalDual", "PALM", "iPALM", "PGBilinear", "PlugAndPlay", "SR3") + ("Bregman", "Segment") + 8 * ("Denoise",)


def gen(rng, idx, tier):
    name = rng.choice(NAMES)
    n = rng.choice([1, 2, 3, 4, 6])
    spec = {"solver": name, "n": n, "niter": 10, "cx": False, "x0": C.S(rng), "x0mode": rng.choice(["normal", "normal", "zeros", "large"])}
    if name == "Denoise":
        spec["solver"] = "ProximalGradient"
        spec["n"] = n = rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 16])
    (OWN.get(name) or V.SOLVERS[spec["solver"]]).gen(rng, spec, {"plain": True})
    spec["n"] = spec["n"] if name in ("PALM", "iPALM", "PGBilinear", "SR3", "Segment") else n
    _cx[0] = spec["cx"] = name in CXN and rng.random() < 0.2
    try:
        globals()["gen_" + name](rng, spec, spec["n"])
    finally:
        _cx[0] = False
    case = {"spec": spec, "faults": []}
    if name == "Segment":
        return case
    for _ in range(rng.choice([0, 1, 1, 2])):
        case["faults"].append({"kind": rng.choice(["line", "seam"]), "exc": rng.choice(["interrupt", "memory", "user"]), "frac": round(rng.random(), 4), "niter": rng.choice([1, 2, 5, 12])})
    slow = name == "Denoise" and spec["g"]["k"] == "TV"
    if slow and spec["niter"] < 5:
        return case
    if name not in ("SR3",) and rng.random() < 0.35:
        case["restart"] = rng.choice([1, 2, 5, 20])
    if rng.random() < 0.4 and not spec.get("bt") and name not in ("AdaptivePrimalDual", "SR3", "PlugAndPlay", "Bregman") and (spec.get("gammaf", 1) is not None and spec.get("gammag", 1) is not None):
        u = rng.choice([1, 3, 8, 20])
        e = C.R(rng, 0.01, 0.5)
        put_flaky(rng, spec, u, e)
        case["noise"] = e
        case["until"] = u
    if rng.random() < 0.2 and name not in ("SR3", "Bregman") and not spec.get("seq") and not slow:
        case["late"] = rng.choice([280, 350, 450, 600, 900])
    return case


def put_flaky(rng, spec, u, e):
    for k in ("f", "g"):
        if isinstance(spec.get(k), dict) and rng.random() < 0.7:
            spec[k] = {"c": "c06f", "of": spec[k], "until": u, "noise": e, "n": spec[k]["n"]}
    for k in ("fs", "gs"):
        if k in spec:
            spec[k] = [{"c": "c06f", "of": c, "until": u, "noise": e, "n": c["n"]} if rng.random() < 0.6 else c for c in spec[k]]


def base(sp):
    return sp["of"] if sp["c"] == "c06f" else sp


def Hq(sp):
    B, c = quad_mats(base(sp))
    return B.conj().T @ B, B.conj().T @ c


def kap(sp):
    return base(sp)["L"] / base(sp)["mu"]


def scaled(p, e):
    return lambda v, t: p(v, e * t)


def gen_ProximalPoint(rng, s, n):
    s["f"] = gen_quad(rng, n)
    s["tau"] = C.R(rng, 0.3, 3.0)
    s["tol"] = None
    s["niter"] = 40 + int(14 / np.log1p(s["tau"] * s["f"]["mu"]))


def min_ProximalPoint(s, env):
    H_, q = Hq(s["f"])
    return np.linalg.solve(H_, q)


def gen_ProximalGradient(rng, s, n):
    s["f"] = gen_quad(rng, n)
    s["g"] = gen_g(rng, n, ONE)
    L = s["f"]["L"]
    fr = C.R(rng, 0.3, 0.98)
    s["tau"] = round(fr / L, 8) if not s["bt"] else C.R(rng, 1.0, 20.0)
    s["niterback"] = 100
    if s["acc"] is not None:
        s["eta"] = 1.0
    s["eps"] = C.R(rng, 0.3, 1.5)
    s["tol"] = None
    s.pop("wrapper", None)
    if s["acc"] and s["bt"] == "notau" and rng.random() < 0.3:
        s["wrapper"] = True
    step = s["tau"] if not s["bt"] else min(0.3 / L, s["tau"] if s["bt"] == "tau" else 1.0) * 0.9
    k = 1.0 / (step * s["f"]["mu"])
    s["niter"] = 60 + int(12 * k / s["eta"]) if s["acc"] is None else 200 + int(40 * k)


def min_ProximalGradient(s, env):
    H_, q = Hq(s["f"])
    return fista(H_, q, scaled(ref_prox(base(s["g"])), s["eps"]), np.zeros(s["n"]))


def gen_Denoise(rng, s, n):
    """One operator at a time: the solver only has to apply it."""
    s["bt"], s["acc"] = None, rng.choice([None, None, "vandenberghe", "fista"])
    gen_ProximalGradient(rng, s, n)
    s["f"] = gen_quad(rng, n, L=1.0, impls=("sim", "L2", "Quadratic"), square=True)
    s["f"]["mu"] = 1.0
    s["g"] = gen_g(rng, n, ("TV",) if n == 16 and not _cx[0] else HEAVY)
    s["tau"] = rng.choice([1.0, C.R(rng, 0.6, 0.98)])
    s["niter"] = 60 if s["acc"] is None and s["eta"] > 0.5 else 160
    if s["g"]["k"] == "TV" and (n == 16 or len(s["g"]["dims"]) > 2):  # slow: solved by the first step
        s["acc"], s["eta"], s["tau"], s["niter"] = None, 1.0, 1.0, 4


def gen_AndersonProximalGradient(rng, s, n):
    s["n"] = n = max(n, 2)
    s["f"] = gen_quad(rng, n)
    s["g"] = gen_g(rng, n, ONE)
    s["tau"] = round(C.R(rng, 0.3, 0.98) / s["f"]["L"], 8)
    s["eps"] = C.R(rng, 0.3, 1.5)
    s["tol"] = None
    s["safe"] = True
    s["niter"] = 60 + int(14 / (s["tau"] * s["f"]["mu"]))


min_AndersonProximalGradient = min_ProximalGradient


def gen_GeneralizedProximalGradient(rng, s, n):
    k = rng.randint(1, 2)
    m = rng.randint(1, 3)
    s["fs"] = [gen_quad(rng, n) for _ in range(k)]
    s["gs"] = [gen_g(rng, n, ANY) for _ in range(m)]
    if s["w"] is not None:
        w = [C.R(rng, 0.3, 1.0) for _ in range(m)]
        s["w"] = [a / sum(w) for a in w]
    s["eps"] = [C.R(rng, 0.2, 1.2) for _ in range(m)] if isinstance(s["eps"], list) else s["eps"]
    L = sum(f["L"] for f in s["fs"])
    s["tau"] = round(C.R(rng, 0.3, 0.95) / L, 8)
    s["eta"] = rng.choice([1.0, C.R(rng, 0.5, 1.2)])
    s["acc"] = None
    s["niter"] = 300 + int(60 / (s["tau"] * sum(f["mu"] for f in s["fs"])))


def min_GeneralizedProximalGradient(s, env):
    Hs = [Hq(f) for f in s["fs"]]
    H_, q = sum(h for h, _ in Hs), sum(r for _, r in Hs)
    ps = [scaled(ref_prox(base(g)), V.at(s["eps"], j)) for j, g in enumerate(s["gs"])]
    return dual_min(H_, q, [np.eye(s["n"])] * len(ps), ps)


def gen_HQS(rng, s, n):
    s["f"] = gen_quad(rng, n)
    s["g"] = gen_g(rng, n, ONE)
    s["tau"] = C.R(rng, 0.2, 2.0)
    s["z0"], s["nox0"] = None, False
    s["niter"] = 40 + int(14 / np.log1p(s["tau"] * s["f"]["mu"]))


def min_HQS(s, env):
    # f plus the Moreau envelope of g
    H_, q = Hq(s["f"])
    p, t = ref_prox(base(s["g"])), s["tau"]
    return smooth_min(lambda x: H_ @ x - q + (x - p(x, t)) / t, None, np.linalg.norm(H_, 2) + 1 / t, s["n"])


def two_fg(rng, s, n):
    s["f"] = gen_quad(rng, n)
    s["g"] = gen_g(rng, n, ONE)
    b = 1.0 / np.sqrt(s["f"]["L"] * s["f"]["mu"])
    s["tau"] = round(C.R(rng, 0.3, 3.0) * b, 8)
    s["swap"] = rng.random() < 0.4
    s["niter"] = 100 + int(60 * kap(s["f"]))
    s["z0"], s["nox0"] = (C.S(rng) if rng.random() < 0.3 else None), False


gen_ADMM = two_fg


def gen_DouglasRachfordSplitting(rng, s, n):
    two_fg(rng, s, n)
    s["eta"] = rng.choice([1.0, C.R(rng, 0.5, 1.5)])
    s["niter"] *= 2


def min_ADMM(s, env):
    H_, q = Hq(s["f"])
    return fista(H_, q, ref_prox(base(s["g"])), np.zeros(s["n"]))


min_DouglasRachfordSplitting = min_ADMM


def gen_A(rng, n):
    m = rng.choice([max(1, n - 1), n, n + 1])
    a = {"t": rng.choice(["matrix", "free"]), "m": m, "n": n, "s": C.S(rng)}
    if _cx[0]:
        a["cx"] = True
    while not well(C.linop_mat(a)):
        a["s"] = C.S(rng)
    return a


def well(M, c=6.0):
    v = np.linalg.svd(M, compute_uv=False)
    return v[-1] > 0 and v[0] / v[-1] <= c and v[0] > 0.3


def gen_ADMML2(rng, s, n):
    s["A"] = gen_A(rng, n)
    s["Op"] = {"t": rng.choice(["matrix", "free"]), "m": n + 3, "n": n, "s": C.S(rng), "cx": s["cx"]}
    s["g"] = gen_g(rng, s["A"]["m"], FINITE if s["A"]["m"] > n else ANY)
    s["tau"] = C.R(rng, 0.3, 2.0)
    s["iter_lim"] = 60
    s["niter"] = 1000


def min_ADMML2(s, env):
    A, O = C.linop_mat(s["A"]), C.linop_mat(s["Op"])
    H_ = O.conj().T @ O
    if np.linalg.cond(H_) > 60:
        raise K.Invalid("too badly conditioned")
    return dual_min(H_, O.conj().T @ env["b"], [A], [ref_prox(base(s["g"]))])


def gen_LinearizedADMM(rng, s, n):
    s["A"] = gen_A(rng, n)
    s["f"] = gen_quad(rng, n, kappa=5.0, low=1.0)
    s["g"] = gen_g(rng, s["A"]["m"], FINITE if s["A"]["m"] > n else ANY)
    s["z0"] = C.S(rng) if rng.random() < 0.3 else None
    s["tau"] = C.R(rng, 0.4, 1.5)
    s["mu"] = round(s["tau"] * C.R(rng, 0.5, 0.95) / max(0.2, V.sqnorm(s["A"])), 8)
    s["niter"] = 1500


def min_LinearizedADMM(s, env):
    H_, q = Hq(s["f"])
    return dual_min(H_, q, [C.linop_mat(s["A"])], [ref_prox(base(s["g"]))])


def gen_TwIST(rng, s, n):
    L = C.R(rng, 0.5, 0.95)
    s["Q"] = gen_quad(rng, n, L=L)
    s["g"] = gen_g(rng, n, ONE)
    s["alpha"] = s["beta"] = None
    s["eigs"] = [L, s["Q"]["mu"]]
    s["A"] = {"t": "matrix", "m": s["Q"]["m"], "n": n, "s": 1}
    s["rc"] = rng.random() < 0.3
    s["niter"] = 150 + int(20 * kap(s["Q"]))


def min_TwIST(s, env):
    H_, q = Hq(s["Q"])
    return fista(H_, q, ref_prox(base(s["g"])), np.zeros(s["n"]))


def gen_PPXA(rng, s, n):
    m = rng.randint(1, 4)
    s["fs"] = [gen_quad(rng, n)] + [gen_g(rng, n, ANY) for _ in range(m - 1)]
    rng.shuffle(s["fs"])
    if s.get("w") is not None:
        w = [C.R(rng, 0.3, 1.0) for _ in range(m)]
        s["w"] = [a / sum(w) for a in w]
    if s.get("x0s") is not None:
        s["x0s"] = [C.S(rng) for _ in range(m)]
    f = [f for f in s["fs"] if f["c"] == "c06q"][0]
    s["tau"] = round(C.R(rng, 0.3, 2.0) / np.sqrt(f["L"] * f["mu"]) / (m if s["solver"] == "PPXA" else 1), 8)
    s["tol"] = None
    s["eta"] = rng.choice([1.0, C.R(rng, 0.5, 1.5)])
    s["niter"] = 1500


gen_ConsensusADMM = gen_PPXA


def min_PPXA(s, env):
    fs = [base(f) for f in s["fs"]]
    H_, q = Hq([f for f in fs if f["c"] == "c06q"][0])
    gs = [ref_prox(f) for f in fs if f["c"] == "c06g"]
    if not gs:
        return np.linalg.solve(H_, q)
    return dual_min(H_, q, [np.eye(s["n"])] * len(gs), gs)


min_ConsensusADMM = min_PPXA


def gen_PrimalDual(rng, s, n):
    s["A"] = gen_A(rng, n)
    s["f"] = gen_quad(rng, n, kappa=5.0, low=1.0)
    s["g"] = gen_g(rng, s["A"]["m"], FINITE if s["A"]["m"] > n else ANY)
    L = np.sqrt(max(0.2, V.sqnorm(s["A"])))
    r = rng.uniform(0.7, 1.5)
    t = rng.uniform(0.5, 0.95) / L
    s["tau"], s["mu"] = round(t * r, 8), round(t / r, 8)
    s["theta"] = 1.0
    s["niter"] = 2000
    s["seq"] = rng.random() < 0.3  # constant steps given as per-iteration sequences


def min_PrimalDual(s, env):
    H_, q = Hq(s["f"])
    if env["z"] is not None:
        q = q - env["z"]
    return dual_min(H_, q, [C.linop_mat(s["A"])], [ref_prox(base(s["g"]))])


def gen_AdaptivePrimalDual(rng, s, n):
    gen_PrimalDual(rng, s, n)
    L = np.sqrt(max(0.2, V.sqnorm(s["A"])))
    s["tau"] = s["mu"] = round(rng.uniform(0.3, 0.9) / L, 8)
    s["alpha"], s["eta"] = C.R(rng, 0.2, 0.5), C.R(rng, 0.8, 0.95)
    s["s"], s["delta"] = C.R(rng, 0.7, 1.4), C.R(rng, 1.2, 1.8)
    s["tol"] = 1e-10
    s["niter"] = 2000


min_AdaptivePrimalDual = min_PrimalDual


def gen_PALM(rng, s, n):
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    s["H"] = {"t": "ConvexH", "nx": nx, "ny": ny, "m": rng.randint(2, 5), "s": C.S(rng), "c": C.R(rng, 0.3, 1.0), "cx": s["cx"]}
    s["n"] = nx
    for k, m in (("f", nx), ("g", ny)):
        s[k] = gen_g(rng, m, ONE) if rng.random() < 0.8 else None
    for k in ("gammaf", "gammag"):
        if s[k] is not None:
            s[k] = C.R(rng, 1.05, 2.0)
    s["niterback"] = 100
    s["niter"] = 800
    if s["solver"] == "iPALM":
        # admissible inertia grows with the margin of the steps
        s["a"] = [C.R(rng, 0.0, 0.3), C.R(rng, 0.0, 0.3)]
        for k in ("gammaf", "gammag"):
            s[k] = C.R(rng, 1.8, 3.0)


gen_iPALM = gen_PALM


def min_PALM(s, env):
    P, Q, d, c = hmats(s["H"])
    M = np.hstack([P, Q])
    H_ = M.conj().T @ M + c * np.eye(M.shape[1])
    ps = [ref_prox(base(s[k])) if s[k] is not None else (lambda v, t: v) for k in ("f", "g")]
    nx = P.shape[1]
    return fista(H_, M.conj().T @ d, lambda v, t: np.hstack([ps[0](v[:nx], t), ps[1](v[nx:], t)]), np.zeros(M.shape[1]))


min_iPALM = min_PALM


def gen_PGBilinear(rng, s, n):
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    s["H"] = {"t": "ConvexH", "nx": nx, "ny": ny, "m": rng.randint(2, 5), "s": C.S(rng), "c": C.R(rng, 0.3, 1.0), "cx": s["cx"]}
    s["n"] = nx + ny
    s["g"] = gen_g(rng, nx + ny, ONE)
    P, Q, d, c = hmats(s["H"])
    M = np.hstack([P, Q])
    L = np.linalg.norm(M, 2) ** 2 + c
    s["eps"] = C.R(rng, 0.3, 1.5)
    # the stacked gradient couples each block with the other one's last iterate
    s["acc"], s["eta"], s["bt"] = None, rng.choice([1.0, C.R(rng, 0.5, 0.95)]), rng.choice([None, None, "tau"])
    s["tau"] = round(C.R(rng, 0.3, 0.9) / L, 8) if not s["bt"] else 2.0
    s["niterback"] = 100
    s["niter"] = 150 + int(60 * L / c)


def min_PGBilinear(s, env):
    P, Q, d, c = hmats(s["H"])
    M = np.hstack([P, Q])
    return fista(M.conj().T @ M + c * np.eye(M.shape[1]), M.conj().T @ d, scaled(ref_prox(base(s["g"])), s["eps"]), np.zeros(s["n"]))


def gen_Bregman(rng, s, n):
    sub = s["inner"]
    sub["n"] = n
    f = gen_quad(rng, n, kappa=4.0, square=True)
    nm = sub["solver"]
    sub["f"] = f
    m = n
    if nm == "LinearizedADMM":
        sub["A"] = gen_A(rng, n)
        m = sub["A"]["m"]
        sub["tau"] = C.R(rng, 0.5, 1.0)
        sub["mu"] = round(sub["tau"] * 0.9 / max(0.2, V.sqnorm(sub["A"])), 8)
    sub["g"] = gen_g(rng, m, ("L1", "soft", "Euclidean", "Huber"))
    sub["g"]["off"] = False
    if nm == "ProximalGradient":
        sub.update(tau=round(0.95 / f["L"], 8), eta=1.0, acc=None, eps=1.0, bt=None, tol=None)
    elif nm != "LinearizedADMM":
        sub["tau"] = round(1.0 / np.sqrt(f["L"] * f["mu"]), 8)
        if nm == "DouglasRachfordSplitting":
            sub["eta"] = 1.0
    sub["z0"] = None
    sub["niter"] = 40 if nm != "LinearizedADMM" else 150
    s["f"] = f
    s["warm"] = rng.random() < 0.6 or nm == "LinearizedADMM"
    s["tolx"], s["tolf"] = 0.0, 0.0
    s["icb"] = False
    s["alpha"] = C.R(rng, 0.2, 1.0)
    s["niter"] = 160


def min_Bregman(s, env):
    H_, q = Hq(s["f"])
    return np.linalg.solve(H_, q)


def gen_PlugAndPlay(rng, s, n):
    sub = s["inner"]
    n = s["n"] = int(np.prod(s["dims"]))
    sub["n"] = n
    nm = sub["solver"]
    s["den"] = rng.choice(["soft", "shrink"])
    f = gen_quad(rng, n)
    sub["f"] = f
    if nm == "ProximalGradient":
        sub.update(tau=round(0.9 / f["L"], 8), eta=1.0, acc=rng.choice([None, "fista"]), eps=1.0, bt=None, tol=None)
        sub["niter"] = 250
    elif nm == "HQS":
        sub["tau"] = C.R(rng, 0.3, 1.5)
        sub["niter"] = 40 + int(14 / np.log1p(sub["tau"] * f["mu"]))
    elif nm == "PrimalDual":
        L = np.sqrt(max(0.2, V.sqnorm(sub["A"])))
        sub["tau"] = sub["mu"] = round(0.9 / L, 8)
        sub["theta"] = 1.0
        sub["niter"] = 1500
    elif nm == "LinearizedADMM":
        sub["niter"] = 2000
    else:
        sub["tau"] = round(C.R(rng, 0.4, 2.0) / np.sqrt(f["L"] * f["mu"]), 8)
        if "eta" in sub:
            sub["eta"] = C.R(rng, 0.6, 1.4)
        sub["niter"] = 600
    s["f"] = f
    s["niter"] = sub["niter"]


def min_PlugAndPlay(s, env):
    sub = s["inner"]
    H_, q = Hq(sub["f"])
    soft = lambda v, t: np.sign(v) * np.maximum(np.abs(v) - t, 0.0)
    p = soft if s["den"] == "soft" else (lambda v, t: v / (1.0 + t))
    if sub["solver"] == "HQS":
        t = sub["tau"]
        return smooth_min(lambda x: H_ @ x - q + (x - p(x, t)) / t, None, np.linalg.norm(H_, 2) + 1 / t, s["n"])
    if "A" in sub:
        v = np.linalg.svd(C.linop_mat(sub["A"]), compute_uv=False)
        if v[v > 1e-9].min() < v[0] / 8:
            raise K.Invalid("too badly conditioned")
        if sub["solver"] == "PrimalDual" and env.get("z") is not None:
            q = q - env["z"]
        return dual_min(H_, q, [C.linop_mat(sub["A"])], [p])
    return fista(H_, q, p, np.zeros(s["n"]))


def gen_SR3(rng, s, n):
    s["Op"] = {"t": rng.choice(["matrix", "free"]), "m": n + 3, "n": n, "s": C.S(rng)}
    s["kappa"] = C.R(rng, 0.5, 2.0)
    s["inner_n"] = 100
    s["niter"] = 400


def min_SR3(s, env):
    O, Lm = C.linop_mat(s["Op"]), C.linop_mat(s["A"])
    if np.linalg.cond(O.T @ O) > 60:
        raise K.Invalid("too badly conditioned")
    kp, lam = s["kappa"], s["eps"]
    soft = lambda v: np.sign(v) * np.maximum(np.abs(v) - lam / kp, 0.0)
    g = lambda x: O.T @ (O @ x - env["b"]) + kp * Lm.T @ (Lm @ x - soft(Lm @ x))
    return smooth_min(g, None, np.linalg.norm(O, 2) ** 2 + kp * np.linalg.norm(Lm, 2) ** 2, s["n"])


def gen_Segment(rng, s, n):
    s["dims"], s["ncl"] = rng.choice([[2, 3], [3, 2], [4, 2]]), 2
    s["n"] = 2 * int(np.prod(s["dims"]))
    s["cl"] = sorted([C.R(rng, -2, -0.2), C.R(rng, 0.2, 2)])
    s["cls"] = [C.R(rng, 0.5, 2) for _ in range(2)] if rng.random() < 0.4 else None
    s["kws"] = rng.choice([None, {"engine": "numba"}])
    s["niter"] = 300
    s["z"] = None


# -- execution ----------------------------------------------------------------------
def solver_of(spec):
    return OWN.get(spec["solver"]) or V.SOLVERS[spec["solver"]]


def make_env(spec):
    save = V.SOLVERS[spec["solver"]]
    V.SOLVERS[spec["solver"]] = solver_of(spec)
    try:
        env = V.make_env(spec)
    finally:
        V.SOLVERS[spec["solver"]] = save
    if "Q" in spec:
        B, c = quad_mats(spec["Q"])
        import pylops

        env["A"], env["b"] = (pylops.MatrixMult(B) if spec["A"]["t"] == "matrix" else free_op(B)), c
    if spec.get("swap"):
        env["f"], env["g"] = env["g"], env["f"]
    return env


def attempt(k, spec, env, fault=None, cb=None):
    save = V.SOLVERS[spec["solver"]]
    V.SOLVERS[spec["solver"]] = solver_of(spec)
    try:
        return recur.free_run(k, spec, env, fault=fault, cb=cb, two=False)
    finally:
        V.SOLVERS[spec["solver"]] = save


def count_sites(spec):
    H.base_env()
    k = K.Kernel(recur.BUDGET * 50).install()
    _, _, exc, c = attempt(k, spec, make_env(spec))
    return c.nlines, c.nseams


def run(case, ctx):
    H.base_env()
    spec = case["spec"]
    name = spec["solver"]
    if name == "Segment":
        return run_segment(case, ctx)
    for f in case["faults"]:
        if "at" not in f:
            a = ctx.isolated(count_sites, recur.cut(spec, f["niter"]))
            m = a[0] if f["kind"] == "line" else a[1]
            f["at"] = 1 + int(f["frac"] * m) if m else 0
    ctx.final = case
    xs = globals()["min_" + name](spec, make_env(spec))
    k = K.Kernel(recur.BUDGET * 50).install()
    env = make_env(spec)
    fl = _sim()["flaky"]
    fl.fired = 0
    for f in case["faults"]:
        if not f["at"]:
            continue
        g = dict(f, obj=K.make_exc(f["exc"]))
        attempt(k, recur.cut(spec, f["niter"]), env, fault=g)
    extra = 2 * case.get("until", 0)
    start = env["x0"] if not isinstance(env["x0"], list) else np.array(env["x0"])
    x0 = np.array(start).ravel() if start is not None else np.zeros(1)
    if case.get("restart"):
        its, res, exc, _ = attempt(k, recur.cut(spec, case["restart"]), env)
        if exc is not None:
            raise K.Violation("raises", "%s raised %s: %s" % (name, type(exc).__name__, exc))
        restart(name, spec, env, res)
    tol = TOL * (1 + np.linalg.norm(xs) + np.linalg.norm(x0) + 10 * case.get("noise", 0.0))
    trace = []

    def cb(i, a):
        v = np.concatenate([np.asarray(u).ravel() for u in a]) if len(a) > 1 else np.asarray(a[0])
        if v.shape == xs.shape:
            trace.append(float(np.linalg.norm(v - xs)))

    for bound in (0.3, 1, LONG):
        # hardly any run needs more than the first, shortest, horizon
        s = copy.deepcopy(spec)
        s["niter"] = int(bound * spec["niter"]) + extra
        if name == "PlugAndPlay":
            s["inner"]["niter"] = s["niter"]
        if s.get("seq"):
            for key in ("tau", "mu"):
                env[key] = np.full(s["niter"], s[key])
        del trace[:]
        its, res, exc, c = attempt(k, s, env, cb=cb)
        if exc is not None:
            raise K.Violation("raises", "%s raised %s: %s" % (name, type(exc).__name__, exc))
        got = result_of(name, spec, res)
        if got.shape != xs.shape:
            raise K.Violation("result", "%s returned shape %s, expected %s" % (name, got.shape, xs.shape))
        d = float(np.linalg.norm(got - xs))
        if d <= tol or not np.isfinite(d):
            break
    if case.get("late") and d <= tol and c.nlines / max(1, s["niter"]) * case["late"] < 400_000:
        # the minimiser, once reached, is kept
        s = copy.deepcopy(spec)
        s["niter"] = case["late"] + extra
        if name == "PlugAndPlay":
            s["inner"]["niter"] = s["niter"]
        del trace[:]
        its, res, exc, c = attempt(k, s, env, cb=cb)
        if exc is not None:
            raise K.Violation("raises", "%s raised %s: %s" % (name, type(exc).__name__, exc))
        run_, worst = 0, 0.0
        for i, v in enumerate(trace):
            if run_ >= 40:
                worst = max(worst, v)
                if not v <= tol:
                    raise K.Violation("departs", "%s left the minimiser it had kept for %d iterations: %.3g away at iteration %d (allowed %.3g)" % (name, run_, v, i + 1, tol))
                run_ += 1
            else:
                run_ = run_ + 1 if v <= tol / 20 else 0
        if _late is not None:
            _late.append((worst / tol, name, json_sig(spec)))
        ctx.n["long runs that kept the minimiser"] += run_ >= 40
    ctx.absorb(k)
    ctx.faults["component:transiently-inexact"] += fl.fired
    if case.get("restart"):
        ctx.faults["restart-from-intermediate-iterate"] += 1
    if not d <= tol:
        raise K.Violation("distance", "%s is %.3g away from the minimiser after %d iterations (allowed %.3g)" % (name, d, len(trace) or s["niter"], tol))
    ctx.n["minimisers reached by " + name] += 1
    if trace:
        bad = [i for i, v in enumerate(trace) if not v <= tol]
        used = (bad[-1] + 2 if bad else 1) / max(1, LONG * spec["niter"] + extra)
        ctx.n["runs settled within %d%% of the bound" % (1 if used <= 0.01 else 3 if used <= 0.03 else 10 if used <= 0.1 else 50 if used <= 0.5 else 100)] += 1
        if _share is not None:
            _share.append((used, name, json_sig(spec)))
    ctx.nontrivial = True
    ctx.marks.add(repr((recur.signature(spec), len(case["faults"]), case.get("restart"), case.get("until"))))


_share = None
_late = None


def json_sig(s):
    return recur.signature(s)


def result_of(name, spec, res):
    if name in ("PALM", "iPALM"):
        return np.concatenate([np.asarray(res[0]).ravel(), np.asarray(res[1]).ravel()])
    return np.asarray(res[0]).ravel()


def restart(name, spec, env, res):
    x = np.array(res[0])
    if name in ("PALM", "iPALM"):
        env["x0"], env["y0"] = x, np.array(res[1])
    elif name in ("HQS", "ADMM"):
        env["x0"], env["z0"] = x, np.array(res[1])
    elif name == "DouglasRachfordSplitting":
        env["x0"] = np.array(res[1])
    else:
        env["x0"] = x


def run_segment(case, ctx):
    spec = case["spec"]
    k = K.Kernel(recur.BUDGET * 50).install()
    env = V.make_env(spec)
    dims, ncl = spec["dims"], spec["ncl"]
    n, nd = int(np.prod(dims)), len(dims)
    D = V2.gradmat(dims)
    cost = np.array([0.5 * spec["sigma"] * (env["y"].ravel() - c) ** 2 for c in spec["cl"]])
    if spec["cls"]:
        cost = cost / np.array(spec["cls"])[:, None]
    rad = 0.5 * spec["alpha"]

    def tv(x):
        return rad * float(np.sqrt(((x @ D.T).reshape(ncl, nd, n) ** 2).sum(axis=1)).sum())

    def primal(x):
        return float((cost * x).sum()) + tv(x)

    def dual(y):
        return float((cost + y @ D).min(axis=0).sum())

    x = np.full((ncl, n), 1.0 / ncl)
    xh, y = x, np.zeros((ncl, nd * n))
    s = 0.34
    best = (np.inf, -np.inf)
    for i in range(20000):
        v = (y + s * (xh @ D.T)).reshape(ncl, nd, n)
        nr = np.sqrt((v**2).sum(axis=1, keepdims=True))
        y = (v / np.maximum(1.0, nr / rad)).reshape(ncl, nd * n)
        new = V2.simplex_cols(x - s * (y @ D + cost))
        xh, x = 2 * new - x, new
        if i % 50 == 49:
            best = (min(best[0], primal(x)), max(best[1], dual(y)))
            if best[0] - best[1] < 1e-4 * (1 + abs(best[0])):
                break
    else:
        raise K.Invalid("no certificate")
    lower = best[1]
    its, res, exc = recur.real(k, spec, env, two=False)
    ctx.absorb(k)
    if exc is not None:
        raise K.Violation("raises", "Segment raised %s: %s" % (type(exc).__name__, exc))
    got = np.asarray(res[0]).T.reshape(ncl, n)
    feas = max(float(np.max(np.abs(got.sum(axis=0) - 1))), float(np.max(-got)))
    gap = primal(got) - lower
    scale = 1 + abs(lower)
    if _share is not None:
        _share.append((gap / (1e-2 * scale), "Segment", ""))
    if feas > 1e-3 or gap > 1e-2 * scale:
        raise K.Violation("distance", "Segment result exceeds the certified minimum by %.3g (allowed %.3g), class probabilities off by %.3g" % (gap, 1e-2 * scale, feas))
    ctx.n["minimisers reached by Segment"] += 1
    ctx.nontrivial = True
    ctx.marks.add(recur.signature(spec))

"""Caller memory under guard, and direct calls of projections and utilities."""
import numpy as np

from . import catalog as C
from . import hist as H
from . import kernel as K
from . import solvers as V
from . import solvers2 as V2


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Guard:
    """Byte-exact watch over arrays (with all the memory around views) and lists."""

    def __init__(self):
        self.items = {}  # id(root) -> (name, root, bytes)
        self.lists = []

    def add(self, name, v):
        if isinstance(v, np.ndarray):
            r = root(v)
            if id(r) not in self.items:
                self.items[id(r)] = (name, r, np.array(r, copy=True).tobytes())
        elif isinstance(v, (list, tuple)):
            if isinstance(v, list) and not any(isinstance(x, np.ndarray) for x in v):
                self.lists.append((name, v, list(v)))
            for i, x in enumerate(v):
                if isinstance(x, (np.ndarray, list, tuple)):
                    self.add("%s[%d]" % (name, i), x)

    def changed(self):
        for name, r, b in self.items.values():
            if np.array(r, copy=True).tobytes() != b:
                return name
        for name, v, old in self.lists:
            if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                return name
        return None

    def readonly(self):
        n = 0
        for name, r, b in self.items.values():
            try:
                r.setflags(write=False)
                n += 1
            except ValueError:
                pass
        return n


class Recorder:
    """Collects every array the caller hands to constructors while specs are built."""

    def __init__(self):
        self.got = []
        self.ops = []

    def __enter__(self):
        self.old = (C.build, C.linop, V.mk, V2.mkH)
        build, linop, mk, mkH = self.old

        def build_(sp, *a, **kw):
            b = build(sp, *a, **kw)
            if "ref" not in sp:
                self.got += [("%s.%s" % (sp["t"], k), v) for k, v in b.arrays.items()]
                self.ops.append((sp, b.op))
            return b

        def linop_(sp):
            o = linop(sp)
            for k in ("A", "mat", "diag"):
                if isinstance(getattr(o, k, None), np.ndarray):
                    self.got.append(("linop.%s" % k, getattr(o, k)))
            return o

        def mk_(sp):
            o = mk(sp)
            if sp["c"] == "sim":
                self.got += [("component.%s" % k, v) for k, v in vars(o).items() if isinstance(v, np.ndarray)]
            return o

        def mkH_(sp):
            o = mkH(sp)
            if sp["t"] == "SimBilinear":
                self.got += [("bilinear.%s" % k, v) for k, v in vars(o).items() if isinstance(v, np.ndarray)]
            return o

        C.build, C.linop, V.mk, V2.mkH = build_, linop_, mk_, mkH_
        return self

    def __exit__(self, *a):
        C.build, C.linop, V.mk, V2.mkH = self.old
        return False


# -- projections and utilities called directly ---------------------------------
PROJ = ("Box", "HyperPlaneBox", "EuclideanBall", "L0Ball", "L10Ball", "L01Ball", "L1Ball", "NuclearBall", "Simplex", "HalfSpace", "Hankel", "Intersection", "AffineSet", "Generic")


def gen_proj(rng):
    t = rng.choice(PROJ)
    n = rng.randint(2, 7)
    sp = {"p": t, "n": n, "s": C.S(rng), "r": C.R(rng, 0.3, 2.5), "k": rng.randint(1, n)}
    if t in ("L10Ball", "L01Ball", "NuclearBall", "Hankel"):
        sp["dims"] = [rng.randint(2, 4), rng.randint(2, 4)]
        sp["k"] = rng.randint(1, sp["dims"][1])
    if t == "Intersection":
        sp["dims"] = [rng.randint(2, 3), rng.randint(2, 4)]
        sp["arr"] = rng.random() < 0.5
    if t == "AffineSet":
        sp["op"] = {"t": rng.choice(["matrix", "free"]), "m": max(1, n - 1), "n": n, "s": C.S(rng)}
    if t == "Generic":
        sp["ps"] = [C.gen_proj(rng, n) for _ in range(rng.choice([1, 2, 3]))]
        sp["par"] = rng.random() < 0.5
    return sp


def proj(sp, note):
    """-> (callable, shape of its input); note(name, array) for caller arrays."""
    import pyproximal.projection as P

    t, n = sp["p"], sp["n"]

    def own(name, a):
        note("%sProj.%s" % (t, name), a)
        return a

    dims = tuple(sp.get("dims", ()))
    if t == "Box":
        lo = own("lower", C.arr(sp["s"] + 1, n) - 0.5)
        return P.BoxProj(lo, own("upper", lo + sp["r"])), (n,)
    if t == "HyperPlaneBox":
        c = own("coeffs", np.abs(C.arr(sp["s"] + 1, n)) + 0.2)
        lo = own("lower", np.full(n, -sp["r"]))
        return P.HyperPlaneBoxProj(c, 0.3, lo, own("upper", np.full(n, sp["r"]))), (n,)
    if t == "EuclideanBall":
        return P.EuclideanBallProj(own("center", C.arr(sp["s"] + 1, n)), sp["r"]), (n,)
    if t == "L0Ball":
        return P.L0BallProj(sp["k"]), (n,)
    if t in ("L10Ball", "L01Ball"):
        return getattr(P, t + "Proj", P.L10BallProj)(sp["k"]), dims
    if t == "L1Ball":
        return P.L1BallProj(n, sp["r"]), (n,)
    if t == "NuclearBall":
        return P.NuclearBallProj(min(dims), sp["r"]), dims
    if t == "Simplex":
        return P.SimplexProj(n, sp["r"]), (n,)
    if t == "HalfSpace":
        return P.HalfSpaceProj(own("w", C.arr(sp["s"] + 1, n)), 0.2), (n,)
    if t == "Hankel":
        return P.HankelProj(), dims
    if t == "Intersection":
        k, m = dims
        sg = own("sigma", np.full((k, k), 0.3)) if sp["arr"] else 0.3
        return P.IntersectionProj(k, m, sg, niter=4), dims
    if t == "AffineSet":
        return P.AffineSetProj(C.linop(sp["op"]), own("b", C.arr(sp["s"] + 1, sp["op"]["m"])), 20), (n,)
    return P.GenericIntersectionProj([C.SimProj(q) for q in sp["ps"]], niter=5, use_parallel=sp["par"]), (n,)


def pinput(sp, xs, shape):
    n = int(np.prod(shape))
    x = C.make_x(dict(xs, lay="c" if len(shape) > 1 and xs["lay"] == "view" else xs["lay"]), n, False, shape if len(shape) > 1 else None)
    return x


# -- solver environments -------------------------------------------------------
LAY = ("c", "c", "strided", "view", "list")


def relayout(rng_seed, env, names=("x0", "z0", "y0", "b", "z", "y", "cl", "cls")):
    """Move the caller's arrays into views of larger buffers."""
    g = np.random.default_rng(rng_seed)
    for k in names:
        v = env.get(k)
        if isinstance(v, np.ndarray) and v.ndim == 1 and v.size:
            how = int(g.integers(4))
            if how == 1:
                buf = np.full(2 * v.size, 7.25, dtype=v.dtype)
                buf[::2] = v
                env[k] = buf[::2]
            elif how == 2:
                buf = np.full(v.size + 4, 7.25, dtype=v.dtype)
                buf[2 : 2 + v.size] = v
                env[k] = buf[2 : 2 + v.size]
            elif how == 3:
                env[k] = v[::-1].copy()[::-1]
    return env

import numpy as np

from .. import catalog as C
from .. import hist as H
from .. import kernel as K
from .. import solvers as V

ID = "C05"
LEVEL = "exploration"
N = {"quick": 11000, "thorough": 400000}
RULE = "one run = a nest of composites over simulated components, a history of call/prox/proxdual/grad on it, every answer compared with the documented formula evaluated in numpy over equal components"
MEASURE = "signature of the nest (combinators, options, component kinds, sharing) together with the set of methods called"
MARKS_ARE_RUNS = False
REAL = "ProxOperator algebra, VStack, Orthogonal, Sum, GenericIntersectionProx, SingularValuePenalty, Dykstra iterations"
STUB = "component operators (inexact, counter-dependent, non-convex, handing back their input or an array they keep, indicators); projections; orthogonal linear operators"
ASSUME = [
    "formulas and iterations taken from the docstrings",
    "an iteration whose stopping quantity ties with the tolerance (1e-6 relative) is not judged",
    "the gradient of an adjoint, sum, intersection or orthogonal composition is that of its Moreau envelope, as ProxOperator documents",
]
R, S = C.R, C.S
LEAF = ("soft", "hard", "ridge", "box", "lin", "ident", "smooth", "point", "linear", "quad")
COMB = ("affine", "post", "pre", "chain", "adjoint", "vstack", "orth", "sum", "inter", "svp")


# -- generation --------------------------------------------------------------
def leaf(rng, n, cx, share=False):
    if not cx and not share and rng.random() < 0.1:
        while True:
            sp = C.gen(rng, n, 1, only=V.CATSAFE, cx=False)
            if all(q["t"] in V.CATSAFE for q in C.walk(sp)) and sp["t"] not in C.NESTED:
                return {"c": "cat", "sp": sp, "n": n}
    kinds = LEAF if not cx else ("soft", "ridge", "ident", "point")
    k = rng.choice(kinds)
    sp = {"c": "sim", "kind": k, "n": n, "a": R(rng, 0.2, 1.2), "s": S(rng), "cx": cx}
    if not share and rng.random() < 0.5 and k != "ident" and k != "point":
        sp["noise"] = R(rng, 0.01, 0.2)
    if rng.random() < 0.4:
        sp["bias"] = R(rng, 0.02, 0.2)
    if rng.random() < 0.2:
        sp["ind"] = R(rng, 0.5, 2.5)
    return sp


def tree(rng, n, depth, cx, leaves):
    if depth <= 0 or rng.random() < 0.12:
        same = [i for i, l in enumerate(leaves) if l["n"] == n and not l.get("noise") and l["c"] == "sim"]
        if same and rng.random() < 0.2:
            return {"t": "leaf", "i": rng.choice(same), "n": n}
        leaves.append(leaf(rng, n, cx))
        return {"t": "leaf", "i": len(leaves) - 1, "n": n}
    t = rng.choice(COMB)
    sub = lambda m: tree(rng, m, depth - 1, cx, leaves)
    d = {"t": t, "n": n}
    if t == "affine":
        d.update(f=sub(n), v=S(rng), neg=rng.random() < 0.3)
    elif t == "post":
        d.update(f=sub(n), sigma=R(rng, 0.2, 2.5), mul=rng.random() < 0.5)
    elif t == "pre":
        d.update(f=sub(n), a=R(rng, 0.3, 2) * rng.choice([1, 1, -1]), b=S(rng) if rng.random() < 0.6 else R(rng, -1, 1))
    elif t == "chain":
        d.update(f=sub(n), g=sub(n), mul=rng.random() < 0.5)
    elif t == "adjoint":
        d.update(f=sub(n))
    elif t == "vstack":
        nn = []
        left = n
        while left:
            k = min(left, rng.randint(1, 4))
            nn.append(k)
            left -= k
        d.update(nn=nn, f=[sub(k) for k in nn], restr=rng.random() < 0.45, perm=S(rng), sorted=rng.random() < 0.5)
    elif t == "orth":
        p = rng.random() < 0.5
        al = R(rng, 0.4, 2.5) if p and rng.random() < 0.6 else 1.0
        m = n if not p else rng.randint(1, n)
        d.update(f=sub(m), m=m, q=S(rng), how=rng.choice(["free", "matrix", "alias"]), partial=p, alpha=al, b=S(rng) if rng.random() < 0.5 else None)
        if d["how"] == "alias" and m != n:
            d["how"] = "free"
        if d["how"] == "alias":
            d["alpha"] = al
    elif t == "sum":
        m = rng.choice([1, 2, 2, 2, 3, 3, 4])
        w = [R(rng, 0.1, 2) for _ in range(m)] if rng.random() < 0.6 else None
        d.update(f=[sub(n) for _ in range(m)], w=w, warr=rng.random() < 0.5, par=rng.random() < 0.5, ot=rng.random() < 0.5)
        d.update(niter=rng.choice([1, 2, 3, 7, 25]), tol=rng.choice([1e-9, 1e-4, 0.02, 0.2]))
    elif t == "inter":
        d.update(p=[C.gen_proj(rng, n) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))], par=rng.random() < 0.5, niter=rng.choice([1, 2, 3, 8, 40]), tol=rng.choice([1e-9, 1e-4, 0.02, 0.1]))
        if cx:
            return sub(n)
    elif t == "svp":
        if cx or n < 4:
            return sub(n)
        dims = [(a, n // a) for a in range(2, n) if n % a == 0]
        if not dims:
            return sub(n)
        dm = rng.choice(dims)
        # the value is documented over dim[1] singular values, the prox over min(dim)
        d.update(dims=list(dm), f=sub(min(dm)))
    return d


def gen(rng, idx, tier):
    cx = rng.random() < 0.12
    n = rng.choice([1, 2, 3, 4, 4, 6, 6, 8, 9])
    leaves = []
    deep = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    while True:
        del leaves[:]
        t = tree(rng, n, deep, cx, leaves)
        if t["t"] != "leaf":
            break
    taus = [rng.choice(H.TAUS) for _ in range(2)]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ops.append({"m": rng.choice(["call", "prox", "prox", "prox", "proxdual", "grad"]), "x": C.gen_x(rng), "tau": rng.choice(taus)})
        ops[-1]["x"]["lay"] = rng.choice(["c", "c", "strided", "view"])
    return {"tree": t, "leaves": leaves, "n": n, "cx": cx, "ops": ops}


# -- real ---------------------------------------------------------------------
def perm_of(d):
    p = np.random.default_rng(d["perm"]).permutation(d["n"])
    parts = np.split(p, np.cumsum(d["nn"])[:-1])
    return [np.sort(a) for a in parts] if d["sorted"] else parts


def qmat(d, cx):
    n, m = d["n"], d["m"]
    if d["how"] == "alias":
        return np.eye(n)
    g = np.random.default_rng(d["q"])
    a = g.normal(size=(n, n))
    if cx:
        a = a + 1j * g.normal(size=(n, n))
    q, _ = np.linalg.qr(a)
    q = q[:m] / np.sqrt(d["alpha"])  # Q Q^H = 1/alpha
    return q


def real(d, L, cx):
    import pylops
    import pyproximal as pp

    t, n = d["t"], d["n"]
    if t == "leaf":
        return L[d["i"]]
    if t == "affine":
        f, v = real(d["f"], L, cx), C.arr(d["v"], n, cx)
        return f - v if d["neg"] else f + v
    if t == "post":
        f = real(d["f"], L, cx)
        return d["sigma"] * f if d["mul"] else f.postcomposition(d["sigma"])
    if t == "pre":
        b = C.arr(d["b"], n, cx) if isinstance(d["b"], int) else d["b"]
        return real(d["f"], L, cx).precomposition(d["a"], b)
    if t == "chain":
        f, g = real(d["f"], L, cx), real(d["g"], L, cx)
        return g * f if False else f.chain(g)
    if t == "adjoint":
        return real(d["f"], L, cx).H
    if t == "vstack":
        fs = [real(f, L, cx) for f in d["f"]]
        if d["restr"]:
            return pp.VStack(fs, restr=[pylops.Restriction(n, p, dtype="complex128" if cx else "float64") for p in perm_of(d)])
        return pp.VStack(fs, nn=list(d["nn"]))
    if t == "orth":
        q = qmat(d, cx)
        dt = "complex128" if cx else "float64"
        lin, ali = C._linop_class()
        Q = ali(n, dt) if d["how"] == "alias" else pylops.MatrixMult(q, dtype=dt) if d["how"] == "matrix" else lin(q, dt)
        b = C.arr(d["b"], d["m"], cx) if d["b"] is not None else None
        return pp.Orthogonal(real(d["f"], L, cx), Q, partial=d["partial"], b=b, alpha=d["alpha"])
    if t == "sum":
        w = d["w"]
        if w is not None and d["warr"]:
            w = np.array(w)
        return pp.Sum([real(f, L, cx) for f in d["f"]], weights=w, niter=d["niter"], tol=d["tol"], use_parallel=d["par"], use_original_tau=d["ot"])
    if t == "inter":
        return pp.GenericIntersectionProx([C.SimProj(p) for p in d["p"]], niter=d["niter"], tol=d["tol"], use_parallel=d["par"])
    if t == "svp":
        return pp.SingularValuePenalty(tuple(d["dims"]), real(d["f"], L, cx))
    raise KeyError(t)


# -- documented formulas --------------------------------------------------------
class Doc:
    """Defaults every operator documents."""

    def proxdual(self, x, t):
        return x - t * self.prox(x / t, 1.0 / t)

    def grad(self, x):
        return x - self.prox(x, 1.0)


class Leaf(Doc):
    def __init__(self, op):
        self.op = op

    def call(self, x):
        return self.op(x)

    def prox(self, x, t):
        return np.array(self.op.prox(x.copy(), t))

    def proxdual(self, x, t):
        return np.array(self.op.proxdual(x.copy(), t))

    def grad(self, x):
        return np.array(self.op.grad(x.copy()))


class Node(Doc):
    def __init__(self, d, L, cx):
        self.d = d
        sub = lambda k: model(k, L, cx)
        f = d.get("f")
        self.f = [sub(k) for k in f] if isinstance(f, list) else sub(f) if f is not None else None
        self.g = sub(d["g"]) if "g" in d else None
        self.cx = cx
        n = d["n"]
        if d["t"] == "affine":
            self.v = C.arr(d["v"], n, cx) * (-1.0 if d["neg"] else 1.0)
        if d["t"] == "pre":
            self.b = C.arr(d["b"], n, cx) if isinstance(d["b"], int) else d["b"]
        if d["t"] == "orth":
            self.q = qmat(d, cx)
            self.b = C.arr(d["b"], d["m"], cx) if d["b"] is not None else np.zeros(d["m"])
        if d["t"] == "vstack":
            if d["restr"]:
                self.idx = perm_of(d)
            else:
                c = [0] + list(np.cumsum(d["nn"]))
                self.idx = [np.arange(c[i], c[i + 1]) for i in range(len(d["nn"]))]
        if d["t"] == "inter":
            self.p = [C.SimProj(p) for p in d["p"]]

    def call(self, x):
        d, t, f = self.d, self.d["t"], self.f
        if t == "affine":
            return f.call(x) + np.sum(self.v * x)
        if t == "post":
            return d["sigma"] * f.call(x)
        if t == "pre":
            return f.call(d["a"] * x + self.b)
        if t == "chain":
            return self.g.call(f.call(x))
        if t == "adjoint":
            return f.call(x)
        if t == "vstack":
            return float(sum(g.call(x[i]) for g, i in zip(f, self.idx)))
        if t == "orth":
            return f.call(self.q @ x + self.b)
        if t == "sum":
            v = [g.call(x) for g in f]
            b = [a for a in v if isinstance(a, (bool, np.bool_))]
            r = [float(a) for a in v if not isinstance(a, (bool, np.bool_))]
            if not all(b):
                return False
            return sum(r) if r else True
        if t == "inter":
            d_ = [float(np.max(np.abs(x - p(x)))) for p in self.p]
            return all([V.absstop(a, 10 * d["tol"], 1.0 + float(np.max(np.abs(x)))) for a in d_])
        if t == "svp":
            s = np.linalg.svd(x.reshape(d["dims"]), compute_uv=False)
            return s  # judged by the caller: order and padding are not documented
        raise KeyError(t)

    def prox(self, x, t):
        d, k, f = self.d, self.d["t"], self.f
        if k == "affine":
            return f.prox(x - t * self.v, t)
        if k == "post":
            return f.prox(x, d["sigma"] * t)
        if k == "pre":
            a = d["a"]
            return (f.prox(a * x + self.b, a * a * t) - self.b) / a
        if k == "chain":
            return self.g.prox(f.prox(x, t), t)
        if k == "adjoint":
            return f.proxdual(x, t)
        if k == "vstack":
            return self.scatter(x, lambda g, v: g.prox(v, t))
        if k == "orth":
            q = self.q
            if d["partial"]:
                y = q @ x
                return (d["alpha"] * x - q.conj().T @ y + q.conj().T @ (f.prox(y + self.b, d["alpha"] * t) - self.b)) / d["alpha"]
            return q.conj().T @ (f.prox(q @ x + self.b, t) - self.b)
        if k == "sum":
            if len(f) == 1:
                return f[0].prox(x, t)
            if len(f) == 2 and not d["par"]:
                return two(x, lambda v: f[0].prox(v, t), lambda v: f[1].prox(v, t), d["niter"], d["tol"])
            w0 = d["w"] or [1.0 / len(f)] * len(f)
            return par_prox(x, f, w0, [t if d["ot"] else t / w for w in w0], d["niter"], d["tol"])
        if k == "inter":
            p = self.p
            if len(p) == 1:
                return np.array(p[0](x))
            if len(p) == 2 and not d["par"]:
                return two(x, p[0], p[1], d["niter"], d["tol"])
            return cyclic(x, p, d["niter"], d["tol"])
        if k == "svp":
            X = x.reshape(d["dims"])
            u, s, vh = np.linalg.svd(X, full_matrices=False)
            gaps = np.diff(s)
            if np.any(np.abs(gaps) < 1e-6 * max(s[0], 1e-12)) or s[-1] < 1e-6 * max(s[0], 1e-12):
                raise V.Amb("repeated or vanishing singular value")
            return (u @ np.diag(f.prox(s, t)) @ vh).ravel()
        raise KeyError(k)

    def scatter(self, x, fn):
        out = None
        for g, i in zip(self.f, self.idx):
            v = np.asarray(fn(g, x[i]))
            if out is None:
                out = np.zeros(self.d["n"], dtype=complex if self.cx else float)
            out[i] = v
        return out

    def proxdual(self, x, t):
        if self.d["t"] == "adjoint":
            return self.f.prox(x, t)
        return Doc.proxdual(self, x, t)

    def grad(self, x):
        d, k, f = self.d, self.d["t"], self.f
        if k == "affine":
            return f.grad(x) + self.v
        if k == "post":
            return d["sigma"] * f.grad(x)
        if k == "pre":
            return d["a"] * f.grad(d["a"] * x + self.b)
        if k == "vstack":
            return self.scatter(x, lambda g, v: g.grad(v))
        if k == "chain":
            raise K.Invalid("no gradient documented")
        return Doc.grad(self, x)


def model(d, L, cx):
    return Leaf(L[d["i"]]) if d["t"] == "leaf" else Node(d, L, cx)


def two(x0, s1, s2, niter, tol):
    x = x0 + 0.0
    p = 0.0 * x
    q = 0.0 * x
    for _ in range(niter):
        old = x
        y = s1(x + p)
        p = p + x - y
        x = s2(y + q)
        q = q + y - x
        if V.absstop(float(max(np.max(np.abs(x - old)), np.max(np.abs(y - old)))), tol, float(np.max(np.abs(x))) + float(np.max(np.abs(p))) + 1e-3):
            break
    return x


def par_prox(x0, f, w, taus, niter, tol):
    w = np.array(w, dtype=float)
    w = w / np.sum(w)
    z = [x0 + 0.0 for _ in f]
    x = x0 + 0.0
    for _ in range(niter):
        old = x
        pz = [g.prox(a, t) for g, a, t in zip(f, z, taus)]
        x = sum(a * b for a, b in zip(w, pz))
        z = [a + x - b for a, b in zip(z, pz)]
        # the solution no longer changes and the separate solutions agree with it
        d = max([float(np.max(np.abs(x - old)))] + [float(np.max(np.abs(b - x))) for b in pz])
        if V.absstop(d, tol, float(np.max(np.abs(x))) + 1e-3):
            break
    return x


def cyclic(x0, p, niter, tol):
    """Each projection starts from the latest result of the previous one in the cycle."""
    m = len(p)
    z = [0.0 * x0 for _ in p]
    u = x0 + 0.0
    for _ in range(niter):
        start = u
        last = [u] * m
        for i in range(m):
            a = last[i - 1] + z[i]
            u = np.array(p[i](a))
            z[i] = a - u
            last[i] = u
        d = max(float(np.max(np.abs(start - u))), max(float(np.max(np.abs(v - u))) for v in last))
        if V.absstop(d, tol, float(np.max(np.abs(u))) + 1e-3):
            break
    return u


# -- judging ------------------------------------------------------------------
def has(d, t):
    if d["t"] == t:
        return True
    f = d.get("f")
    return any(has(x, t) for x in (f if isinstance(f, list) else [f] if f else [])) or ("g" in d and has(d["g"], t))


def callable_value(d, leaves):
    """Whether the documented value is a plain number or truth value."""
    return not has(d, "svp") and not has(d, "chain")


def sig(d, leaves):
    t = d["t"]
    if t == "leaf":
        l = leaves[d["i"]]
        return l["sp"]["t"] if l["c"] == "cat" else "%s%s%s" % (l["kind"], "~" if l.get("noise") else "", "?" if l.get("ind") else "")
    o = {"vstack": ("restr",), "orth": ("partial", "how"), "sum": ("par", "ot", "niter"), "inter": ("par", "niter")}.get(t, ())
    f = d.get("f", [])
    kids = [sig(x, leaves) for x in (f if isinstance(f, list) else [f])] + ([sig(d["g"], leaves)] if "g" in d else [])
    return "%s[%s](%s)" % (t, ",".join(str(d[x]) for x in o), ",".join(kids))


def svp_value(case, L, x):
    """Value of a top-level singular-value penalty: any order, zero padding allowed."""
    d = case["tree"]
    s = np.linalg.svd(x.reshape(d["dims"]), compute_uv=False)
    l = case["leaves"][d["f"]["i"]] if d["f"]["t"] == "leaf" else None
    if l is None or l["c"] != "sim" or l["kind"] not in ("soft", "zero") or l.get("ind"):
        return None
    return l["a"] * float(np.sum(s))


def run(case, ctx):
    H.base_env()
    cx = case["cx"]
    Lm = [V.mk(l) for l in case["leaves"]]
    Lr = [V.mk(l) for l in case["leaves"]]
    k = K.Kernel(2_000_000).install()
    top = real(case["tree"], Lr, cx)
    doc = model(case["tree"], Lm, cx)
    done = []
    for j, op in enumerate(case["ops"]):
        x = C.make_x(op["x"], case["n"], cx)
        m, tau = op["m"], op["tau"]
        if m == "call" and not callable_value(case["tree"], case["leaves"]) and not (case["tree"]["t"] == "svp"):
            continue
        if m == "grad" and has(case["tree"], "chain"):
            continue
        xc = np.array(x)
        exp = None
        try:
            if m == "call" and case["tree"]["t"] == "svp":
                exp = svp_value(case, Lm, xc)
                if exp is None:
                    continue
            elif m == "call":
                exp = doc.call(xc)
            elif m == "grad":
                exp = doc.grad(xc)
            elif m == "prox":
                exp = doc.prox(xc, tau)
            else:
                exp = doc.proxdual(xc, tau)
        except V.Amb:
            ctx.n["histories ended at a tie"] += 1
            break
        except (np.linalg.LinAlgError, ValueError, OverflowError) as e:
            raise K.Invalid(str(e))
        if m != "call" and not (np.all(np.isfinite(exp)) and np.max(np.abs(exp)) < 1e6):
            ctx.n["histories ended out of range"] += 1
            break
        with K.call(k):
            try:
                got = getattr(top, m if m != "call" else "__call__")(*((x,) if m in ("call", "grad") else (x, tau)))
            except K.BudgetExceeded as e:
                raise K.Violation("hang", str(e))
            except Exception as e:
                raise K.Violation("raises", "%s of %s raised %s: %s" % (m, sig(case["tree"], case["leaves"]), type(e).__name__, e))
        done.append(m)
        ctx.n["answers compared"] += 1
        if m == "call":
            if isinstance(exp, (bool, np.bool_)) != isinstance(got, (bool, np.bool_)):
                d = "%r, documented %r" % (got, exp)
            elif isinstance(exp, (bool, np.bool_)):
                d = None if bool(exp) == bool(got) else "%r, documented %r" % (got, exp)
            else:
                tol = 1e-5 if case["tree"]["t"] == "svp" else 1e-8  # roots of eigenvalues of X.T X
                d = None if abs(complex(got) - complex(exp)) <= tol * max(1.0, abs(complex(exp))) else "%r, documented %r" % (got, exp)
            if d and not edge(case, exp, got):
                raise K.Violation("value", "call %d: value of %s is %s" % (j, sig(case["tree"], case["leaves"]), d))
        else:
            d = H.vdiff(np.asarray(got) + 0.0, np.asarray(exp) + 0.0, 1e-6)
            if d:
                raise K.Violation("answer", "call %d: %s of %s differs from the documented combination of its parts: %s" % (j, m, sig(case["tree"], case["leaves"]), d))
        for a, b in zip(Lr, Lm):
            if getattr(b, "k", None) is not None and (a.k, a.kd) != (b.k, b.kd):
                raise K.Violation("parts", "call %d: %s of %s asked a component %d/%d times, documented %d/%d" % (j, m, sig(case["tree"], case["leaves"]), a.k, a.kd, b.k, b.kd))
    ctx.absorb(k)
    for l in case["leaves"]:
        if l["c"] == "sim":
            for key, nm in (("noise", "component:inexact-answer"), ("bias", "component:biased-gradient")):
                if l.get(key):
                    ctx.faults[nm] += len(done)
            if l["kind"] in ("ident", "point", "linear"):
                ctx.faults["component:hands-back-its-input" if l["kind"] == "ident" else "component:hands-out-its-own-array"] += len(done)
    ctx.nontrivial = bool(done)
    ctx.marks.add((sig(case["tree"], case["leaves"]), tuple(sorted(set(done)))))


def edge(case, exp, got):
    """Indicator leaves at the rim: truth values may flip by rounding only there."""
    return False

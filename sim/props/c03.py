import numpy as np

from .. import hist as H
from .. import kernel as K
from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C03"
LEVEL = "exploration"
N = {"quick": 7000, "thorough": 150000}
RULE = "one run = one PALM/iPALM/ProximalGradient execution on a bilinear function, compared with the reference alternating recursion, with the held blocks inspected at every callback and at the end; distinct = different option/component signature"
MEASURE = "signature of algorithm, step rule per block, inertia, component kinds, bilinear kind, probes, size and iteration count"
MARKS_ARE_RUNS = False
REAL = "pyproximal.optimization.palm, ProximalGradient, LowRankFactorizedMatrix, BilinearOperator base class"
STUB = "simulated proximal operators and, in 40% of the runs, a user supplied bilinear function"
ASSUME = [
    "reference recursion transcribed from the docstrings; line search as in its docstring with a step that persists between iterations",
    "compared until a line-search tie (1e-10 relative), a vanishing block or a magnitude above 1e7",
]


def gen(rng, idx, tier):
    return {"spec": V.gen(rng, V2.BILIN), "probe": rng.random() < 0.5, "s": V.S(rng)}


def blocks(Hop):
    return np.array(Hop.x).ravel(), np.array(Hop.y).ravel()


def run(case, ctx):
    spec = case["spec"]

    def cb_for(env):
        Hop = env["H"]

        def cb(i, a):
            if len(a) == 2:
                x, y = a
            else:
                x, y = a[0][: Hop.sizex], a[0][Hop.sizex :]
            check(Hop, x, y, "at callback %d" % i)
            if case["probe"]:
                g = np.random.default_rng(case["s"] + i)
                u = g.normal(size=Hop.sizex) + 0 * x
                v = g.normal(size=Hop.sizey) + 0 * y
                j = i % 5
                if j == 0:
                    Hop(u, v)
                elif j == 1:
                    Hop(np.hstack([u, v]))
                elif j == 2:
                    Hop.gradx(u), Hop.grady(v)
                elif j == 3:
                    Hop.grad(np.hstack([u, v]))
                else:
                    try:
                        Hop.lx(u), Hop.ly(v)
                    except ValueError:
                        pass  # documented: not available with Op
                ctx.faults["callback:evaluates-bilinear-elsewhere"] += 1
                check(Hop, x, y, "after evaluating it elsewhere, callback %d" % i)

        return cb

    def check(Hop, x, y, when):
        hx, hy = blocks(Hop)
        ctx.n["held-block inspections"] += 1
        if H.vdiff(hx, np.ravel(x), 1e-12) or H.vdiff(hy, np.ravel(y), 1e-12):
            raise K.Violation("blocks", "%s: blocks held by the bilinear operator differ from the accepted pair %s" % (spec["solver"], when))

    def after(env, its, res):
        Hop = env["H"]
        if spec["solver"] == "PGBilinear":
            x, y = res[0][: Hop.sizex], res[0][Hop.sizex :]
        else:
            x, y = res
        check(Hop, x, y, "at the end")

    recur.run(spec, ctx, cb_for=cb_for, after=after)

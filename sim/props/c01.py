from .. import recur
from .. import solvers as V

ID = "C01"
LEVEL = "exploration"
N = {"quick": 9000, "thorough": 200000}
RULE = "one run = one solver execution with drawn options and component answers, compared iterate by iterate with the reference recursion; distinct = different solver/option/component-kind signature"
MEASURE = "signature of solver, options (including which are per-iteration sequences, 0, 1 or generic), component kinds and answer faults, size and iteration count"
MARKS_ARE_RUNS = False
REAL = "pyproximal.optimization.primal (all solvers), catalogue operators used as components in a quarter of the slots"
STUB = "user operators (prox/grad/value) and matrix-free linear operators are simulated: inexact, call-count dependent, non-convex or handing back their own input"
ASSUME = [
    "the reference recursions in sim/solvers.py are transcribed from the docstrings, with the solver-specific conventions listed in DESIGN.md",
    "runs are compared until the reference meets a near tie of a stopping or line-search test (1e-6 / 1e-10 relative), a magnitude above 1e7, or ill-conditioning above 1e6; relative tolerance 1e-7",
]


def gen(rng, idx, tier):
    return {"spec": V.gen(rng, V.PRIMAL, tol=rng.random() < 0.2), "two": rng.random() < 0.7}


def run(case, ctx):
    recur.run(case["spec"], ctx, two=case["two"])

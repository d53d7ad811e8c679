from .. import recur
from .. import solvers as V

ID = "C02"
LEVEL = "exploration"
N = {"quick": 9000, "thorough": 200000}
RULE = "one run = one PrimalDual/AdaptivePrimalDual execution compared iterate by iterate (primal, dual, recorded steps, stop) with the reference recursion; distinct = different option/component signature"
MEASURE = "signature of options (sequences, 0, 1, generic), component kinds, linear operator kind, answer faults, size and iteration count"
MARKS_ARE_RUNS = False
REAL = "pyproximal.optimization.primaldual, catalogue operators in a quarter of the slots"
STUB = "user operators and linear operators are simulated: inexact answers, inexact adjoints, handing back their own input"
ASSUME = [
    "the reference recursions in sim/solvers.py are transcribed from the docstrings",
    "runs are compared until a near tie of the residual tests, a magnitude above 1e7 or vanishing residuals; relative tolerance 1e-7",
]


def gen(rng, idx, tier):
    return {"spec": V.gen(rng, V.DUAL, tol=rng.random() < 0.4), "two": rng.random() < 0.7}


def run(case, ctx):
    recur.run(case["spec"], ctx, two=case["two"])

from .. import recur
from .. import solvers as V
from .. import solvers2 as V2

ID = "C04"
LEVEL = "exploration"
N = {"quick": 5000, "thorough": 100000}
RULE = "one run = one Bregman/PlugAndPlay/Segment/SR3 execution, compared (outer and inner iterates, stop, result) with the reference iteration; distinct = different option/component/inner-solver signature"
MEASURE = "signature of driver, inner solver and its options, warm start, tolerances, component kinds, size and iteration count"
MARKS_ARE_RUNS = False
REAL = "pyproximal.optimization.bregman, pnp, segmentation, sr3 and the inner solvers, Simplex, L21, VStack, pylops Gradient/BlockDiag/VStack, scipy lsqr"
STUB = "simulated proximal operators, denoisers and linear operators"
ASSUME = [
    "reference iterations transcribed from the docstrings; SR3 with the momentum rule of its source",
    "compared until a tolerance tie, breakdown of the inner least-squares recursion or a magnitude above 1e7; Segment and SR3 to 1e-5 (they contain root finders and truncated inner solvers)",
]


def gen(rng, idx, tier):
    return {"spec": V.gen(rng, V2.OUTER)}


def run(case, ctx):
    recur.run(case["spec"], ctx, two=False)

"""Writes MANIFEST.json from the property modules and the lists below."""
import importlib
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "seeded simulation of solver runs against inexact, biased, iteration-dependent and aliasing operators, refinement against reference recursions",
    "C02": "seeded simulation of primal-dual runs against inexact operators and adjoints, refinement against reference recursions",
    "C03": "seeded simulation of PALM/iPALM runs, refinement against the alternating recursion, held-block invariant at every callback",
    "C04": "seeded simulation of outer solvers, refinement against reference outer recursions driving reference inner ones",
    "C05": "seeded simulation of composites over components with simulated (inexact, stateful, aliasing) answers, refinement against the documented combination",
    "C06": "seeded simulation of converging runs with interruptions, restarts and transiently inexact operators; bounded-iterations liveness against an independent minimiser",
    "C07": "seeded simulation with aborting callbacks and varying budgets; history checks over reported iterates",
    "C08": "seeded crash/restart simulation with torn and lost checkpoint saves; history refinement against the uninterrupted run",
    "C09": "seeded simulation of call histories on live operators, each call refined against a pristine instance",
    "C10": "seeded fault injection (exceptions at executed lines, component calls, library calls) into call histories",
    "C11": "seeded thread-schedule simulation (line-level preemption) over shared operators, every call compared with the call alone",
    "C12": "seeded thread-schedule and nesting simulation of whole solver runs with aborts, compared with the run alone",
    "C13": "seeded simulation of counter-driven operators in solvers, composites and aborted calls, against a counter model",
    "C14": "seeded simulation of warm-started operators under histories, aborts and scribbling callers, against cold converged instances",
    "C15": "seeded simulation with guarded caller memory (snapshots, base buffers, read-only inputs) under faults",
    "C16": "seeded simulation with a caller that keeps references and scribbles on returned arrays",
    "C17": "seeded simulation with displays, probing callbacks and clock jumps, compared with the unobserved run",
    "C18": "seeded fault injection at component calls, callbacks, display writes and executed lines",
    "C19": "seeded simulation under unusual process settings with aborted calls, settings inspected after every call",
    "C28": "seeded simulation of descent runs with aborted attempts and restarts; every step checked against competing points for the documented model, every objective against the one before",
    "C29": "seeded simulation of pairs of runs on shared operators with displaced starts, soft errors in component answers and aborted attempts; distance invariant at every iteration, monotonicity over all recorded answers",
}

NOTE = "Sampled, not exhaustive: every run is one seed, replayable and minimised. Trusts numpy/scipy/pylops, the simulator (line-level preemption and faults via sys.monitoring) and the oracle named in DESIGN.md."
EXTRA = {
    "C01": " Oracle: recursions transcribed from the docstrings in plain numpy; comparison ends at ties or divergence.",
    "C05": " Oracle: the documented formula in plain numpy over the same simulated components.",
    "C06": " Oracle: minimiser from an independent method; bounds on iterations chosen with margin per solver.",
    "C08": " Oracle: the uninterrupted run of the same code.",
    "C09": " Oracle: the same call on a freshly built instance in a pristine process, calls in reverse order.",
    "C28": " Oracle: documented penalties in plain numpy at sampled competing points.",
    "C11": " Not covered: switches inside one source line or inside native code.",
}

PURE = "pure function of its input: no schedule, clock, I/O, fault or history on which it depends, so there is nothing for deterministic simulation to vary; left to unit and property tests"
NA = {
    "C20": PURE,
    "C21": PURE,
    "C22": PURE,
    "C23": PURE,
    "C24": PURE,
    "C25": PURE,
    "C26": PURE + " (and no CUDA device exists here)",
    "C27": PURE,
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
            continue
        try:
            mod = importlib.import_module("sim.props." + pid.lower())
        except ModuleNotFoundError:
            na.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": "python3 run.py check %s" % pid,
                "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "deterministic simulation with fault injection: " + TECH[pid],
                "level": mod.LEVEL,
                "level_note": NOTE + EXTRA.get(pid, ""),
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: seams are the operators, callbacks, clock and stream pyproximal already takes, plus sys.monitoring. fix: commits are listed in known_findings.txt.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d checks, %d not applicable" % (len(checks), len(na)))
    return 0

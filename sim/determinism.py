"""Check of the simulator itself: one seed is one execution.

Runs a sample of every property's cases twice, in processes with different hash
seeds, different numbers of workers and different order of execution, and
compares the logs (case, outcome, message, distinct behaviours, executed steps,
faults fired) entry by entry.  ``python3 run.py determinism [N] [IDS...]``
"""
import json
import os
import subprocess
import sys
import tempfile

from . import runner

IDS = ["C%02d" % i for i in range(1, 20)] + ["C28", "C29"]


def log(pid, seed, n, workers):
    counts, agg, samples, lg, found = runner.farm(runner.load(pid), seed, "quick", n, workers, keep_log=True)
    return json.loads(json.dumps(lg, default=str))


def main(argv):
    if argv and argv[0] == "--one":
        pid, seed, n, workers, path = argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5]
        json.dump(log(pid, seed, n, workers), open(path, "w"))
        return 0
    n = int(argv[0]) if argv else 200
    ids = argv[1:] or IDS
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = os.path.join(runner.VERIF, "run.py")
    rc = 0
    with tempfile.TemporaryDirectory() as d:
        for pid in ids:
            logs = []
            for k, (hs, workers) in enumerate((("0", 8), ("4242", 3))):
                path = os.path.join(d, "%s-%d.json" % (pid, k))
                env = dict(os.environ, PYTHONHASHSEED=hs)
                r = subprocess.run([sys.executable, run, "determinism", "--one", pid, str(seed), str(n), str(workers), path], env=env)
                if r.returncode:
                    return 2
                logs.append(json.load(open(path)))
            a, b = logs
            diff = [(x, y) for x, y in zip(a, b) if x != y]
            same = len(a) == len(b) == n and not diff
            print("%s: %d runs executed twice, %s" % (pid, len(a), "identical" if same else "%d DIFFER" % max(1, len(diff))))
            for x, y in diff[:2]:
                print("  ", str(x)[:400])
                print("  ", str(y)[:400])
            rc |= 0 if same else 1
    return rc

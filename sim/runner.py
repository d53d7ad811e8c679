"""Case farm: generate, execute in throw-away forked processes, shrink, report."""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import catalog
from . import kernel as K

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WALL = float(os.environ.get('VERIF_CASE_WALL', '120'))  # hard wall limit of one simulated run (harness error if hit)
REAL_TIME = time.time


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
class Ctx:
    """What a property's run() may use and where it leaves its measurements."""

    def __init__(self):
        self.n = collections.Counter()
        self.marks = set()  # the property's own measure of distinct behaviours
        self.faults = collections.Counter()
        self.lines = set()
        self.sim_time = 0.0
        self.steps = 0
        self.note = None
        self.final = None  # concretised case (explicit schedule/fault sites)
        self.nontrivial = False

    def absorb(self, k):
        self.lines |= k.lines
        self.steps += k.total_steps
        self.sim_time += k.clock.advanced
        for a, b in k.fired.items():
            self.faults[a] += b

    def isolated(self, fn, *args):
        """fn(*args) in a pristine forked process; returns its value."""
        return fork_call(fn, args, CASE_WALL * 0.8)

    def dump(self):
        return {
            "n": dict(self.n),
            "marks": self.marks,
            "faults": dict(self.faults),
            "lines": self.lines,
            "sim_time": self.sim_time,
            "steps": self.steps,
            "final": self.final,
            "nontrivial": self.nontrivial,
        }


class IsolatedError(Exception):
    pass


def through_library(e):
    """An exception no check expects that came out of the code under test."""
    if not isinstance(e, Exception) or isinstance(e, (IsolatedError, HarnessError)):
        return False
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(K.PKG):
            return True
        tb = tb.tb_next
    return False


def fork_call(fn, args, wall, group=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            if group:
                os.setpgid(0, 0)
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except K.Violation as v:
                out = ("violation", v.cls, v.msg)
            except K.Invalid as v:
                out = ("invalid", str(v))
            except K.BudgetExceeded as e:
                out = ("violation", "hang", str(e))
            except BaseException as e:
                if through_library(e):
                    out = ("violation", "raises", "unexpected %s: %s" % (type(e).__name__, e))
                else:
                    out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            try:
                data = pickle.dumps(out, protocol=4)
            except Exception as e:
                data = pickle.dumps(("error", "unpicklable result: %r" % (e,)), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = REAL_TIME() + wall
    killed = False
    while True:
        left = end - REAL_TIME()
        if left <= 0:
            killed = True
            try:
                os.killpg(pid, signal.SIGKILL) if group else os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        raise HarnessError("simulated run exceeded its wall limit of %gs" % wall)
    if not buf:
        raise HarnessError("simulated run died without a result")
    out = pickle.loads(b"".join(buf))
    if out[0] == "ok":
        return out[1]
    if out[0] == "violation":
        raise K.Violation(out[1], out[2])
    if out[0] == "invalid":
        raise K.Invalid(out[1])
    raise IsolatedError(out[1])


# --------------------------------------------------------------------------
def _run_case(prop, case):
    ctx = Ctx()
    try:
        try:
            prop.run(case, ctx)
        except K.BudgetExceeded as e:
            raise K.Violation("hang", str(e))
        except Exception as e:
            if isinstance(e, (K.Violation, K.Invalid)) or not through_library(e):
                raise
            raise K.Violation("raises", "unexpected %s: %s" % (type(e).__name__, e)) from e
        res = ["ok"]
    except K.Violation as v:
        res = ["violation", v.cls, v.msg]
    except K.Invalid as v:
        res = ["invalid", str(v)]
    return res, ctx.dump()


def execute(prop, case):
    """Execute a case in a throw-away process. -> (result, measurements)"""
    try:
        return fork_call(_run_case, (prop, case), CASE_WALL, True)
    except (IsolatedError, HarnessError) as e:
        return ["error", str(e)], {}


def case_rng(seed, pid, idx):
    return random.Random("%d/%s/%d" % (seed, pid, idx))


def make_case(prop, seed, idx, tier):
    rng = case_rng(seed, prop.ID, idx)
    catalog.reset()  # a case depends on its seed only, not on the cases before it
    c = prop.gen(rng, idx, tier)
    return json.loads(json.dumps(c))


# -- shrinking --------------------------------------------------------------
LISTS = ("ops", "faults", "switches", "tasks", "insts", "args", "jumps", "parts")
INTS = ("niter", "n", "m", "k", "outer", "inner", "at", "line")


def _walk(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for key in sorted(node):
            yield from _walk(node[key], path + (key,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _walk(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _set(node, path, val):
    _get(node, path[:-1])[path[-1]] = val


def candidates(case):
    """Smaller variants of a case, most aggressive first."""
    out = []
    for path, node in _walk(case):
        if path and path[-1] in LISTS and isinstance(node, list) and node:
            n = len(node)
            size = n
            while size >= 1:
                for s in range(0, n, size):
                    out.append((path, "del", s, min(n, s + size)))
                size //= 2
    for path, node in _walk(case):
        if path and path[-1] in ("fault", "callbackfault") and node is not None:
            out.append((path, "none", 0, 0))
        if path and path[-1] in INTS and isinstance(node, int) and not isinstance(node, bool):
            for v in (1, 2, node // 2, node - 1):
                if 0 < v < node:
                    out.append((path, "set", v, 0))
        if path and isinstance(path[-1], str) and path[-1].startswith("opt_") and node:
            out.append((path, "none", 0, 0))
    for path, op, a, b in out:
        c = copy.deepcopy(case)
        try:
            if op == "del":
                del _get(c, path)[a:b]
            elif op == "none":
                _set(c, path, None)
            else:
                _set(c, path, a)
        except (KeyError, IndexError, TypeError):
            continue
        yield c


def shrink(prop, case, cls, wall):
    end = REAL_TIME() + wall
    best, tries = case, 0
    improved = True
    while improved and REAL_TIME() < end:
        improved = False
        for c in candidates(best):
            if REAL_TIME() > end:
                break
            tries += 1
            try:
                res, dump = execute(prop, c)
            except HarnessError:
                continue
            if res[0] == "violation" and res[1] == cls:
                best = dump.get("final") or c
                best = json.loads(json.dumps(best))
                improved = True
                break
    return best, tries


# -- the farm ---------------------------------------------------------------
def _worker(prop, seed, tier, start, stop, step, conn, stopflag, keep_log):
    agg = Ctx()
    counts = collections.Counter()
    samples = []
    log = []
    found = None
    digest = hashlib.sha256()
    for idx in range(start, stop, step):
        if stopflag.value:
            break
        case = make_case(prop, seed, idx, tier)
        res, d = execute(prop, case)
        counts[res[0]] += 1
        if keep_log:
            log.append((idx, case_digest(case), res[:2], sorted(map(str, d.get("marks", ()))), d.get("steps"), sorted(d.get("faults", {}).items())))
        if d:
            agg.n.update(d["n"])
            agg.faults.update(d["faults"])
            agg.lines |= d["lines"]
            agg.marks |= d["marks"]
            agg.sim_time += d["sim_time"]
            agg.steps += d["steps"]
            if d["nontrivial"]:
                counts["nontrivial"] += 1
                if len(samples) < 1:
                    samples.append((idx, case))
        if res[0] == "violation":
            found = (idx, case, d.get("final"), res)
            stopflag.value = 1
            break
        if res[0] == "error":
            found = (idx, case, None, res)
            stopflag.value = 1
            break
    conn.send((dict(counts), agg.dump(), samples, log, found))
    conn.close()


def case_digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def farm(prop, seed, tier, n, workers, keep_log=False, first=0):
    import multiprocessing as mp

    mpc = mp.get_context("fork")
    stop = mpc.Value("i", 0)
    gc.collect()
    gc.freeze()
    procs = []
    for w in range(workers):
        a, b = mpc.Pipe(duplex=False)
        p = mpc.Process(target=_worker, args=(prop, seed, tier, first + w, first + n, workers, b, stop, keep_log))
        p.start()
        b.close()
        procs.append((p, a))
    counts = collections.Counter()
    agg = Ctx()
    samples, log, found = [], [], []
    dead = 0
    for p, a in procs:
        try:
            c, d, s, lg, f = a.recv()
        except EOFError:
            dead += 1
            stop.value = 1
            continue
        counts.update(c)
        agg.n.update(d["n"])
        agg.faults.update(d["faults"])
        agg.lines |= d["lines"]
        agg.marks |= d["marks"]
        agg.sim_time += d["sim_time"]
        agg.steps += d["steps"]
        samples += s
        log += lg
        if f:
            found.append(f)
    for p, a in procs:
        p.join()
    gc.unfreeze()
    if dead:
        raise HarnessError("%d worker(s) died" % dead)
    found.sort(key=lambda t: t[0])
    return counts, agg, samples, sorted(log), found


def load(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())


def repo_lines():
    """Executable lines per function bodies of pyproximal, for reach figures."""
    import ast

    tot = {}
    for root, _, files in os.walk(K.PKG):
        for f in sorted(files):
            if not f.endswith(".py") or f in ("version.py",):
                continue
            p = os.path.join(root, f)
            try:
                t = ast.parse(open(p).read())
            except SyntaxError:
                continue
            s = set()
            for node in ast.walk(t):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    body = node.body if isinstance(node.body, list) else []
                    for b in body:
                        for x in ast.walk(b):
                            if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                                s.add(x.lineno)
            tot[p] = s
    return tot


def check(pid, tier, seed, workers=None):
    t0 = REAL_TIME()
    prop = load(pid)
    n = prop.N[tier]
    if os.environ.get("VERIF_N"):
        n = int(os.environ["VERIF_N"])
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    counts, agg, samples, log, found = farm(prop, seed, tier, n, workers)
    wall = REAL_TIME() - t0
    errs = [f for f in found if f[3][0] == "error"]
    viol = [f for f in found if f[3][0] == "violation"]
    rc = 0
    nviol = len(viol)
    runs = sum(counts[k] for k in ("ok", "violation", "invalid", "error"))
    replay_path = None
    if viol:
        idx, case, final, res = viol[0]
        start = json.loads(json.dumps(final)) if final else case
        r2, d2 = execute(prop, start)
        if not (r2[0] == "violation" and r2[1] == res[1]):
            start = case
        small, tries = shrink(prop, start, res[1], float(os.environ.get("VERIF_SHRINK_S", "30")))
        r3, _ = execute(prop, small)
        if not (r3[0] == "violation"):
            small, r3 = case, res
        replay_path = write_replay(prop, seed, tier, idx, small, r3, case)
        ok = fresh_replay(replay_path)
        print("run %d (seed %d) violates %s: %s" % (idx, seed, pid, r3[1]))
        print(r3[2])
        print("minimised in %d attempts; fresh-process replay %s" % (tries, "reproduces it" if ok else "DID NOT reproduce it"))
        print("replay with: python run.py replay %s" % replay_path)
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        rc = 1
    elif errs:
        print("HARNESS ERROR in run %d of %s (not a violation):" % (errs[0][0], pid))
        print(errs[0][3][1])
        print(json.dumps(errs[0][1])[:2000])
        rc = 2
    wall = REAL_TIME() - t0
    write_evidence(prop, tier, seed, counts, agg, samples, runs, nviol, wall, workers)
    print(
        "%s %s seed=%d runs=%d ok=%d invalid=%d nontrivial=%d distinct=%d faults=%d lines=%d wall=%.1fs"
        % (pid, tier, seed, runs, counts["ok"], counts["invalid"], counts["nontrivial"], len(agg.marks), sum(agg.faults.values()), len(agg.lines), wall)
    )
    return rc


def write_replay(prop, seed, tier, idx, case, res, orig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": prop.ID,
        "seed": seed,
        "tier": tier,
        "index": idx,
        "class": res[1],
        "message": res[2],
        "case": case,
        "original_case": orig,
    }
    path = os.path.join(d, "%s-%s.json" % (prop.ID, case_digest(case)))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def replay(path):
    body = json.load(open(path))
    prop = load(body["property"])
    res, d = execute(prop, body["case"])
    if res[0] == "violation":
        print("%s: %s" % (res[1], res[2]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    if res[0] == "error":
        print("HARNESS ERROR: %s" % res[1])
        return 2
    print("replay: property %s held (%s)" % (prop.ID, res[0]))
    return 0


def fresh_replay(path):
    import subprocess

    r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay", path], capture_output=True, text=True, timeout=300)
    return r.returncode == 1 and "VIOLATION" in r.stdout


def write_evidence(prop, tier, seed, counts, agg, samples, runs, nviol, wall, workers):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tot = repo_lines()
    reach = {}
    for fn, ln in agg.lines:
        reach.setdefault(fn, set()).add(ln)
    ev = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(len(agg.marks), counts["nontrivial"]) if prop.MARKS_ARE_RUNS else len(agg.marks),
            "rule": prop.RULE,
            "samples": [{"index": i, "case": c} for i, c in samples[:2]],
            "nontrivial_runs": counts["nontrivial"],
            "distinct_behaviours": len(agg.marks),
            "distinct_measure": prop.MEASURE,
            "runs_invalid": counts["invalid"],
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_time_s": round(agg.sim_time, 3),
            "simulated_steps": agg.steps,
            "faults_fired": dict(sorted(agg.faults.items())),
            "counters": dict(sorted(agg.n.items())),
            "lines_reached": {os.path.relpath(f, K.REPO): [len(s & tot.get(f, s)), len(tot.get(f, s))] for f, s in sorted(reach.items())},
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
            "workers": workers,
        },
        "assumptions": prop.ASSUME,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(d, "%s.json" % prop.ID), "w") as f:
        json.dump(ev, f, indent=1, default=str)

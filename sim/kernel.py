"""Deterministic simulation kernel.

One Kernel lives in one (forked, throw-away) process and owns every source of
nondeterminism a run can meet:

* who runs next      - real threads, parked and released one at a time, may be
                       switched at every executed line of pyproximal code
                       (sys.monitoring LINE events, files under /repo/pyproximal
                       only) and at every lock operation;
* what time it is    - time.time & friends read a simulated clock that can jump;
* where output goes  - sys.stdout is a simulated stream that can fail;
* what goes wrong    - exceptions raised at an arbitrary executed line of
                       pyproximal (interrupt, failed allocation), at an arbitrary
                       call of a user supplied component, or while writing;
* how long it may go - a budget of executed lines (a hang is a violation).

Nothing here draws from a PRNG: all choices come in explicitly through the case.
"""
import os
import sys
import threading as _threading
import _thread
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "pyproximal") + os.sep
TOOL = 4

_alloc = _thread.allocate_lock


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Invalid(Exception):
    """The (shrunk) case makes no sense; not a failure."""


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt (Ctrl-C, cancellation)."""


class SimMemoryError(MemoryError):
    """Injected failing allocation."""


class SimCrash(BaseException):
    """The process dies here; only what was made durable survives."""


class SimUserError(Exception):
    """Raised by a simulated user component."""


class SimSystemExit(SystemExit):
    """Injected termination request."""


class BudgetExceeded(BaseException):
    """More lines executed than the step budget allows (hang)."""


EXC = {
    "interrupt": SimInterrupt,
    "memory": SimMemoryError,
    "user": SimUserError,
    "exit": SimSystemExit,
    "crash": SimCrash,
}


def make_exc(kind, text="injected"):
    import numpy as np

    if kind == "linalg":
        return np.linalg.LinAlgError(text)
    if kind == "value":
        return ValueError(text)
    if kind == "stop":
        return StopIteration(text)
    if kind == "generator":
        return GeneratorExit(text)
    if kind == "float":
        return FloatingPointError(text)
    if kind == "type":
        return TypeError(text)
    if kind == "attr":
        return AttributeError(text)
    if kind == "index":
        return IndexError(text)
    if kind == "key":
        return KeyError(text)
    if kind == "notimpl":
        return NotImplementedError(text)
    if kind == "zerodiv":
        return ZeroDivisionError(text)
    if kind == "unbound":
        return UnboundLocalError(text)
    if kind == "runtime":
        return RuntimeError(text)
    if kind == "pipe":
        return BrokenPipeError(32, text)
    if kind == "enospc":
        return OSError(28, text)
    if kind == "timeout":
        return TimeoutError(text)
    return EXC[kind](text)


class SimClock:
    """Simulated wall clock. Advances a little per read; may jump."""

    def __init__(self):
        self.now = 1.0e9
        self.reads = 0
        self.tick = 0.001
        self.jumps = {}  # read index -> delta
        self.njumps = 0
        self.advanced = 0.0

    def read(self):
        self.reads += 1
        d = self.tick
        j = self.jumps.get(self.reads)
        if j is not None:
            d += j
            self.njumps += 1
        self.now += d
        self.advanced += abs(d)
        return self.now

    def sleep(self, s=0.0):
        self.now += s
        self.advanced += abs(s)


class SimStdout:
    """Simulated terminal: records, or fails at a given write."""

    encoding = "utf-8"

    def __init__(self):
        self.parts = []
        self.nwrites = 0
        self.fail_at = None
        self.fail_exc = None
        self.fired = 0

    def write(self, s):
        self.nwrites += 1
        if self.fail_at is not None and self.nwrites >= self.fail_at:
            self.fired += 1
            if Kernel.cur is not None:
                Kernel.cur.count_fault("display:" + type(self.fail_exc).__name__)
            raise self.fail_exc
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def text(self):
        return "".join(self.parts)


class Task:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.exc = None
        self.result = None
        self.steps = 0
        self.blocked_on = None


class Kernel:
    cur = None

    def __init__(self, budget=400000):
        self.active = 0
        self.steps = 0
        self.total_steps = 0
        self.budget = budget
        self.lines = set()
        self.fault_line = None  # countdown target (absolute self.steps)
        self.fault_exc = None
        self.fired = {}
        self.clock = SimClock()
        self.stdout = SimStdout()
        self.sched = None
        self._installed = False
        self._code_ok = {}
        self.seams = 0
        self.fault_seam = None
        self.fault_seam_exc = None
        self.seam_hook = None
        self.line_hash = 0
        self._lib_ok = {}
        self.entries = 0
        self.fault_entry = None
        self._disable = sys.monitoring.DISABLE

    # -- installation ------------------------------------------------------
    def install(self, entry=False):
        """entry: also count entries of Python functions of numpy/scipy/pylops."""
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, self._on_line)
        ev = mon.events.LINE
        if entry:
            mon.register_callback(TOOL, mon.events.PY_START, self._on_entry)
            ev |= mon.events.PY_START
        mon.set_events(TOOL, ev)
        clk = self.clock
        for nm in ("time", "perf_counter", "monotonic", "process_time"):
            setattr(_time, nm, clk.read)
        for nm in ("time_ns", "perf_counter_ns", "monotonic_ns"):
            setattr(_time, nm, lambda: int(clk.read() * 1e9))
        _time.sleep = clk.sleep
        import numpy as np

        if not getattr(np.random.default_rng, "_sim", False):
            real = np.random.default_rng  # entropy of the system (ARPACK's start vector) becomes a fixed seed

            def seeded(seed=None):
                return real(20240501 if seed is None else seed)

            seeded._sim = True
            np.random.default_rng = seeded
        self._realout = sys.stdout
        sys.stdout = self.stdout
        _threading.Lock = SimLock
        _threading.RLock = SimRLock
        self._installed = True
        Kernel.cur = self
        return self

    # -- line events -------------------------------------------------------
    def _on_line(self, code, line):
        ok = self._code_ok.get(code)
        if ok is None:
            ok = code.co_filename.startswith(PKG)
            self._code_ok[code] = ok
        if not ok:
            return self._disable
        if not self.active:
            return None
        self.steps += 1
        self.lines.add((code.co_filename, line))
        if self.steps > self.budget:
            self.active = 0
            raise BudgetExceeded("step budget %d exceeded at %s:%d" % (self.budget, code.co_filename, line))
        if self.fault_line is not None and self.steps >= self.fault_line:
            self.fault_line = None
            exc = self.fault_exc
            self.count_fault("line:" + type(exc).__name__)
            raise exc
        if self.sched is not None:
            self.sched.point(code, line)
        return None

    def _on_entry(self, code, offset):
        ok = self._lib_ok.get(code)
        if ok is None:
            f = code.co_filename
            ok = ("/numpy/" in f or "/scipy/" in f or "/pylops/" in f) and "/tests/" not in f
            self._lib_ok[code] = ok
        if not ok:
            return self._disable
        if not self.active:
            return None
        self.entries += 1
        if self.fault_entry is not None and self.entries >= self.fault_entry:
            self.fault_entry = None
            exc = self.fault_exc
            self.count_fault("library-call:" + type(exc).__name__)
            raise exc
        return None

    def seam(self, name):
        """A user supplied component (operator, prox, callable) is entered."""
        if self.seam_hook is not None:
            self.seam_hook(name)
        if not self.active:
            return
        self.seams += 1
        if self.fault_seam is not None and self.seams >= self.fault_seam:
            self.fault_seam = None
            exc = self.fault_seam_exc
            self.count_fault("seam:" + type(exc).__name__)
            raise exc
        if self.sched is not None:
            self.sched.point(None, 0)

    def count_fault(self, kind):
        self.mark = (self.steps, self.seams)
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # -- regions -----------------------------------------------------------
    def begin(self, fault_line=None, fault_exc=None, fault_seam=None, fault_entry=None):
        """Start counting lines for one operation."""
        self.entries = 0
        self.fault_entry = fault_entry
        self.steps = 0
        self.seams = 0
        self.fault_seam = fault_seam
        self.fault_seam_exc = fault_exc
        self.fault_line = fault_line
        self.fault_exc = fault_exc
        self.mark = None
        self.active = 1

    def end(self):
        self.active = 0
        self.fault_line = None
        self.fault_seam = None
        self.fault_entry = None
        self.total_steps += self.steps
        return self.steps


def seam(name):
    k = Kernel.cur
    if k is not None:
        k.seam(name)


class call:
    """with call(kernel, fault...): run one operation of the system under test."""

    def __init__(self, k, line=None, exc=None, seam=None, entry=None):
        self.entry = entry
        self.k = k
        self.line = line
        self.exc = exc
        self.seam = seam

    def __enter__(self):
        self.k.begin(self.line, self.exc, self.seam, self.entry)
        return self

    def __exit__(self, *a):
        self.nlines = self.k.end()
        self.nseams = self.k.seams
        self.nentries = self.k.entries
        return False


# --------------------------------------------------------------------------
class Scheduler:
    """Runs tasks on real threads, exactly one released at any time.

    ``choose(step, cur, runnable) -> tid`` decides; every actual switch is
    recorded as [step, tid] so that the schedule can be replayed and shrunk.
    """

    def __init__(self, kernel, choose, budget=2_000_000):
        self.k = kernel
        self.choose = choose
        self.tasks = []
        self.cur = None
        self.step = 0
        self.trace = []
        self.hash = 0
        self.main_gate = _alloc()
        self.main_gate.acquire()
        self.budget = budget
        self.aborted = None
        self.by_ident = {}

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _runnable(self):
        return [t.tid for t in self.tasks if not t.done and t.blocked_on is None]

    def point(self, code=None, line=0):
        t = self.cur
        if t is None or _thread.get_ident() not in self.by_ident:
            return
        self.step += 1
        t.steps += 1
        run = self._runnable()
        nxt = self.choose(self.step, t.tid, run)
        if nxt is None or nxt == t.tid or nxt not in run:
            return
        self._switch(t, self.tasks[nxt], code, line)

    def _note(self, to, code, line):
        self.trace.append([self.step, to])
        nm = code.co_qualname if code is not None else "-"
        self.hash = (self.hash * 1000003 ^ (hash_str(nm) + line * 31 + to)) & 0xFFFFFFFFFFFF

    def _switch(self, frm, to, code, line):
        self._note(to.tid, code, line)
        self.cur = to
        to.gate.release()
        frm.gate.acquire()

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            t.result = t.fn(t)
        except BaseException as e:  # recorded, judged by the property
            t.exc = e
        t.done = True
        run = self._runnable()
        if not run:
            self.cur = None
            if any(not x.done for x in self.tasks):
                self.aborted = "deadlock"
            self.main_gate.release()
            return
        self.step += 1
        nxt = self.choose(self.step, None, run)
        if nxt is None or nxt not in run:
            nxt = run[0]
        self._note(nxt, None, 0)
        self.cur = self.tasks[nxt]
        self.cur.gate.release()

    def block(self, lock):
        """Current task cannot take lock: park until it is released."""
        t = self.cur
        t.blocked_on = lock
        run = self._runnable()
        if not run:
            self.aborted = "deadlock"
            self.main_gate.release()
            t.gate.acquire()  # never released; process is about to end
        self.step += 1
        nxt = self.choose(self.step, None, run)
        if nxt is None or nxt not in run:
            nxt = run[0]
        self._switch(t, self.tasks[nxt], None, 0)

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked_on is lock:
                t.blocked_on = None

    def run(self, line=None, exc=None, seam=None):
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        self.k.sched = self
        self.k.begin(line, exc, seam)
        self.k.budget = self.budget
        run = self._runnable()
        self.step += 1
        first = self.choose(self.step, None, run)
        if first is None or first not in run:
            first = run[0]
        self._note(first, None, 0)
        self.cur = self.tasks[first]
        self.cur.gate.release()
        self.main_gate.acquire()
        self.k.end()
        self.k.sched = None
        return self


def hash_str(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h


def explicit_chooser(switches):
    m = {s: t for s, t in switches}

    def choose(step, cur, runnable):
        if step in m:
            return m[step]
        return cur if cur is not None else runnable[0]

    return choose


def random_chooser(rng, p):
    """Switch with probability p at every point, to a uniformly chosen task."""

    def choose(step, cur, runnable):
        if cur is None:
            return runnable[int(rng.random() * len(runnable))]
        if len(runnable) > 1 and rng.random() < p:
            o = [t for t in runnable if t != cur]
            return o[int(rng.random() * len(o))]
        return cur

    return choose


def pct_chooser(rng, ntasks, depth, horizon):
    """PCT: random priorities, lowered at `depth` random change points."""
    prio = list(range(depth + 1, depth + 1 + ntasks))
    rng.shuffle(prio)
    change = {}
    for i in range(depth):
        change[1 + int(rng.random() * horizon)] = i

    def choose(step, cur, runnable):
        if step in change and cur is not None:
            prio[cur] = change[step]
        return max(runnable, key=lambda t: prio[t])

    return choose


class SimLock:
    """Cooperative replacement of threading.Lock inside the simulation."""

    def __init__(self):
        self._held = None
        self._n = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        k = Kernel.cur
        s = k.sched if k is not None else None
        me = _thread.get_ident()
        if s is not None and k.active:
            s.point(None, 0)
        while self._held is not None and not (self.reentrant and self._held == me):
            if not blocking or s is None or s.cur is None:
                if not blocking:
                    return False
                raise RuntimeError("SimLock: self-deadlock")
            s.block(self)
        self._held = me
        self._n += 1
        return True

    def release(self):
        if self._held is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._held = None
            k = Kernel.cur
            if k is not None and k.sched is not None:
                k.sched.unblock(self)

    def locked(self):
        return self._held is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _at_fork_reinit(self):
        self._held = None
        self._n = 0


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self._held == _thread.get_ident()

"""Process-wide settings a library call has no business changing."""
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def handler(kind, flag):
    """The caller's own floating-point error handler."""


def setup(sp):
    """Unusual but legal settings, so that a reset to defaults shows."""
    g = sp["g"]
    np.seterrcall(handler)
    np.seterr(divide=g[0], over=g[1], under=g[2], invalid=g[3])
    np.set_printoptions(precision=sp["prec"], suppress=sp["supp"], threshold=sp["thr"], linewidth=sp["lw"])
    np.random.seed(sp["seed"])
    random.seed(sp["seed"])
    warnings.resetwarnings()
    for a in sp["filters"]:
        warnings.simplefilter(a)
    sys.setrecursionlimit(sp["rec"])
    sys.setswitchinterval(sp["si"])
    os.environ["VERIF_AMBIENT"] = str(sp["seed"])
    os.environ["OMP_NUM_THREADS"] = "1"


def gen(rng):
    return {
        "g": [rng.choice(["ignore", "warn", "call", "call"]) for _ in range(4)],
        "prec": rng.randint(2, 7),
        "supp": rng.random() < 0.5,
        "thr": rng.choice([10, 500, 2000]),
        "lw": rng.choice([40, 100]),
        "seed": rng.randrange(2**31),
        "filters": [rng.choice(["ignore", "always", "default"]) for _ in range(rng.randint(1, 2))] + ["ignore"],
        "rec": rng.choice([900, 1500, 3000]),
        "si": rng.choice([0.001, 0.01]),
    }


def snap(random_state=True):
    import pylops

    d = {
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy error callback": np.geterrcall(),
        "numpy buffer size": np.getbufsize(),
        "numpy print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": repr(warnings.filters),
        "warning display": (id(warnings.showwarning), id(warnings.formatwarning)),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "threads": threading.active_count(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "trace hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook, threading.excepthook),
        "signal handlers": tuple((s, repr(signal.getsignal(s))) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)),
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": _umask(),
        "file descriptors": tuple(sorted(os.listdir("/proc/self/fd"))),
        "module search path": tuple(sys.path),
        "numpy scalar functions": (id(np.seterr), id(np.linalg.svd), id(np.sum)),
        "pylops multiplication mode": pylops.get_ndarray_multiplication(),
    }
    if random_state:
        s = np.random.get_state()
        d["numpy random state"] = (s[0], s[1].tobytes(), s[2:])
        d["random state"] = hash(random.getstate())
    return d


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def diff(a, b):
    return [k for k in a if a[k] != b[k]]

#!/usr/bin/env python3
"""python run.py check C01 [--tier quick|thorough] | replay FILE | determinism [IDS] | setup"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"


def _env():
    e = dict(os.environ)
    e["PYTHONPATH"] = os.pathsep.join([HERE, e.get("VERIF_REPO", "/repo")])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPYCACHEPREFIX", None)
    e.setdefault("PYTHONHASHSEED", "0")
    e["PYTHONNOUSERSITE"] = "1"
    e["NUMBA_DISABLE_JIT"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        e[v] = "1"
    e["_VERIF_SIM"] = "1"
    return e


if os.environ.get("_VERIF_SIM") != "1":
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], _env())

sys.path.insert(0, HERE)


def main(argv):
    import traceback

    cmd = argv[0] if argv else "help"
    try:
        from sim import main as M

        return M.main(argv)
    except SystemExit as e:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if rc in (0, 1) else 2)

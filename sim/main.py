import os
import sys
import time
import warnings


def preload():
    """Import everything once; children are forked from this pristine state."""
    from . import kernel as K
    from importlib.machinery import SourceFileLoader

    orig = SourceFileLoader.get_code

    def get_code(self, fullname):  # never trust cached bytecode of the tree under test
        path = self.get_filename(fullname)
        if os.path.abspath(path).startswith(K.PKG):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    SourceFileLoader.get_code = get_code
    import numpy  # noqa
    import scipy.linalg  # noqa
    import scipy.optimize  # noqa
    import scipy.sparse.linalg  # noqa
    import scipy.special  # noqa
    import pylops  # noqa
    import pyproximal  # noqa
    import pyproximal.optimization  # noqa
    import pyproximal.optimization.bregman  # noqa
    import pyproximal.optimization.palm  # noqa
    import pyproximal.optimization.pnp  # noqa
    import pyproximal.optimization.primal  # noqa
    import pyproximal.optimization.primaldual  # noqa
    import pyproximal.optimization.segmentation  # noqa
    import pyproximal.optimization.sr3  # noqa
    import pyproximal.utils.bilinear  # noqa
    import pyproximal.utils.gradtest  # noqa
    import pyproximal.utils.moreau  # noqa

    if not os.path.abspath(pyproximal.__file__).startswith(K.PKG):
        raise RuntimeError("pyproximal imported from %s, expected %s" % (pyproximal.__file__, K.PKG))


def main(argv):
    from . import runner

    warnings.simplefilter("ignore")
    preload()
    if argv[0] == "check":
        pid = argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if "--seed" in argv:
            seed = int(argv[argv.index("--seed") + 1])
        return runner.check(pid, tier, seed)
    if argv[0] == "replay":
        return runner.replay(argv[1])
    if argv[0] == "determinism":
        from . import determinism

        return determinism.main(argv[1:])
    if argv[0] == "manifest":
        from . import manifest

        return manifest.main()
    if argv[0] == "setup":
        print("pyproximal importable from the working tree; nothing to build")
        return 0
    if argv[0] == "case":
        import json

        prop = runner.load(argv[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        case = runner.make_case(prop, seed, int(argv[2]), os.environ.get("VERIF_TIER", "quick"))
        print(json.dumps(case, indent=1))
        print(runner.execute(prop, case)[0])
        return 0
    print(__doc__)
    return 2

"""python -m mc run C01 [--tier quick|thorough]   |   python -m mc replay FILE"""
import importlib
import json
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from mc import core  # noqa


def import_sut():
    """
    Import the code under test from its source files: byte code left in the
    tree (which Python trusts on modification time alone) is not used.
    """
    import numpy, scipy.special, scipy.optimize, scipy.fftpack, pandas  # noqa
    import refnx.analysis, refnx.reflect, refnx.dataset  # noqa
    import matplotlib.pyplot  # noqa

    saved = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/pycache"
    try:
        import refellips
        import refellips.dataSE, refellips.dispersion  # noqa
        import refellips.objectiveSE, refellips.reflect_modelSE  # noqa
        import refellips.structureSE  # noqa
    finally:
        sys.pycache_prefix = saved
    assert os.path.realpath(refellips.__file__).startswith(
        os.path.realpath(REPO)
    ), refellips.__file__


def main(argv):
    if argv[0] == "run":
        pid = argv[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        mod_name = f"mc.props.{pid.lower()}"
        try:
            import_sut()
        except Exception as e:  # the package cannot even be imported
            sys.stderr.write(f"cannot import refellips: {e!r}\n")
            return 2
        return core.explore(mod_name, tier, seed)
    if argv[0] == "replay":
        with open(argv[1]) as f:
            rec = json.load(f)
        core._setup_process()
        import_sut()
        mod = importlib.import_module(rec["module"])
        ctx = core.Ctx(rec["tier"])
        for _ in range(2 if rec.get("warm") else 1):
            v = core.run_case(mod, rec["case"], ctx)
        ctx.cleanup()
        if v is None:
            print("the case passes on this tree")
            return 0
        print(json.dumps(v, indent=1))
        print(f"VIOLATION property={rec['property']} replay={argv[1]}")
        return 1
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

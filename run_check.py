"""Entry point: run_check.py C01 [--tier quick|thorough] | --replay FILE."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}
if any(os.environ.get(k) != v for k, v in WANT.items()) or (
    os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")
    and os.path.exists(PYTHON)
):
    if os.environ.get("_CALK_PBT_REEXEC"):
        sys.exit("cannot set up the environment")
    env = dict(os.environ, _CALK_PBT_REEXEC="1", **WANT)
    env.pop("PYTHONPATH", None)
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(py, [py, os.path.join(HERE, "run_check.py"), *sys.argv[1:]], env)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402

REPO = os.environ.get("CALK_REPO", "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--self-test", action="store_true", dest="self_test")
    a = ap.parse_args()
    if not (a.property or a.replay or a.self_test):
        ap.error("which property?")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    # Everything that is written goes in a scratch directory of this run
    scratch = tempfile.mkdtemp(prefix="calk_pbt_")
    os.environ["CALK_PBT_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    tempfile.tempdir = scratch
    # Never use byte code cached from another state of the working tree
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, "vendor"))
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    owner = os.getpid()
    try:
        from pbt import engine

        if a.self_test:  # everything that is needed can be imported
            import glob

            for f in sorted(glob.glob(os.path.join(HERE, "pbt", "checks", "c*.py"))):
                importlib.import_module(f"pbt.checks.{os.path.basename(f)[:-3]}")
            n = sum(map(len, engine.SUBCHECKS.values()))
            print(f"{len(engine.SUBCHECKS)} properties, {n} sub-checks")
            return 0
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            prop = rep["property"]
        else:
            prop = a.property
        importlib.import_module(f"pbt.checks.{prop.lower()}")
        import calkulate

        got = os.path.dirname(os.path.realpath(calkulate.__file__))
        want = os.path.realpath(os.path.join(REPO, "calkulate"))
        if got != want:
            print(f"ERROR imported calkulate from {got}, not {want}")
            return 3
        mod = sys.modules[f"pbt.checks.{prop.lower()}"]
        if getattr(mod, "PRISTINE", False):
            from pbt import pristine

            pristine.start()
        if a.replay:
            msg = engine.replay_cases(prop, rep["subcheck"], rep["cases"])
            if msg is None:
                print(f"{prop}/{rep['subcheck']}: replay passes")
                return 0
            print(f"{prop}/{rep['subcheck']}: {msg}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        if hasattr(mod, "known_findings"):
            from pbt import known

            rc = known.report(prop, mod.known_findings)
            if rc:
                return rc
        return engine.run_property(prop, a.tier, seed)
    finally:
        if os.getpid() == owner:
            if "pbt.pristine" in sys.modules:
                sys.modules["pbt.pristine"].stop()
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py C01 [--replay FILE] [--cases N]

Starts the interpreter that has the repository's dependencies, in a fresh scratch folder (bytecode, numba cache and
matplotlib configuration all live there, so that every run compiles /repo's current working tree), and removes the
scratch folder afterwards.
"""
import json, os, shutil, signal, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    work = tempfile.mkdtemp(prefix="verif_")
    env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_") and not k.startswith("PYTHON")}
    env.update(PYTHONPATH="/repo:" + HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), NUMBA_CACHE_DIR=os.path.join(work, "numba"),
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
               VERIF_WORK=work, PYTHONWARNINGS="ignore")
    try:
        if os.path.isdir("/opt/venv/mplconfig"):
            shutil.copytree("/opt/venv/mplconfig", os.path.join(work, "mpl"))
        rc = subprocess.call([PY, "-m", "vlib.core"] + sys.argv[1:], env=env, cwd=HERE)
        if rc in (-signal.SIGVTALRM, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGABRT):
            # The code under test crashed the interpreter (or never returned) in the first calls made to it
            prop = sys.argv[1].upper()
            path = os.path.join(HERE, "replays", prop + "_warmup.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "case": -1, "seed": 1, "tier": "quick",
                           "message": "interpreter ended by signal %d in the first calls" % -rc}, f)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

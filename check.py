#!/usr/bin/env python3
"""Entry point of every check.

    python3 check.py C01                 run the check of property C01
    python3 check.py C01 --replay FILE   re-run one saved failing case, without Hypothesis
    python3 check.py --setup             provision the dependencies (idempotent)

Environment: VERIF_SEED (every random choice derives from it), VERIF_TIER quick|thorough.
Exit 0: held on everything explored.  Exit 1: VIOLATION lines on stdout.  Other: harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

FIXED_ENV = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "ignore",
    "LOKY_MAX_CPU_COUNT": "2",
    "TZ": "UTC",
}


def main() -> None:
    if os.environ.get("_PBT_CHILD") != "1":
        env = dict(os.environ, **FIXED_ENV, _PBT_CHILD="1")
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from pbt import boot

    boot.provision()
    if sys.argv[1:] == ["--setup"]:
        import hypothesis

        print("hypothesis", hypothesis.__version__)
        sys.exit(0)
    from pbt import core

    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()

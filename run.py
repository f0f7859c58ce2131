#!/usr/bin/env python3
"""Entry point of every registered check.

    run.py C01                  run the check of property C01 (VERIF_SEED, VERIF_TIER)
    run.py --replay FILE        re-execute one saved failing case, without Hypothesis
    run.py --setup              import sanity check used as setup_cmd

Exit codes: 0 held, 1 VIOLATION printed, 2 error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}

if os.environ.get("VERIF_BOOT") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_BOOT"] = "1"
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from harness import boot  # noqa: E402

boot.setup()
from harness import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))

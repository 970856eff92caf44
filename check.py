"""Entry point: python check.py C01 [--tier quick|thorough] | --replay FILE.

Re-executes itself with a pinned interpreter environment, so that a seed means the same execution
whatever the caller's environment is.
"""

import os
import sys
import warnings

PYTHON = "/opt/venv/bin/python"
PINNED = {
    "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"),
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "LC_ALL": "C.UTF-8",
    "DST_PINNED": "1",
}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    if any(os.environ.get(k) != v for k, v in PINNED.items()):
        env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        env.pop("PYTHONPATH", None)
        env.update(PINNED)
        os.execve(PYTHON, [PYTHON, "-B", os.path.join(here, "check.py"), *sys.argv[1:]], env)
    warnings.simplefilter("ignore")
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    from dst import core

    sys.exit(core.main(sys.argv[1:]))

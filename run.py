"""Entry point:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]

Exit 0: the property held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..":
it is broken.  Exit 2: the check itself could not run (never a verdict on the code).
"""
import os
import sys

# Environment must be settled before numpy / spey are imported.
_WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "SPEY_CHECKUPDATE": "OFF",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in _WANT.items()) or (
    os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")
):
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, **_WANT, VERIF_REEXEC="1")
        for k in ("SPEY_OPTIMISER", "SPEY_LOGLEVEL", "PYTHONPATH", "PYTHONOPTIMIZE"):
            env.pop(k, None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from harness import core

    sys.exit(core.main(sys.argv[1:]))

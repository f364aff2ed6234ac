"""Nothing is built: verifies that spey is importable from /repo and that Hypothesis is present."""
import os, subprocess, sys
code = (
    "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
    "import hypothesis, spey; assert spey.__file__.startswith('/repo/'), spey.__file__; print('ready', hypothesis.__version__)"
)
env = dict(os.environ, SPEY_CHECKUPDATE="OFF", PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], env=env))

"""Hand-written trial mutants: hand.py FILE.py [IDS]: FILE.py defines M = [(property, file, old, new), ...].

Each is applied to a scratch copy of /repo/src; the property's quick check runs, then (for those it misses) the stable tests."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import PY, ROOT, env


def one(job):
    i, (pid, f, old, new) = job
    t = tempfile.mkdtemp(prefix="hand", dir="/tmp")
    try:
        shutil.copytree("/repo", t, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git", "docs"))
        p = f"{t}/src/spey/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return i, pid, f"PATTERN {s.count(old)}", ""
        open(p, "w").write(s.replace(old, new))
        os.mkdir(f"{t}/ev")
        e = env(t, True)
        e["VERIF_EVIDENCE_DIR"] = f"{t}/ev"
        r = subprocess.run([PY, f"{ROOT}/run.py", pid, "--procs", "2"], env=e, cwd=ROOT, capture_output=True, text=True)
        if r.returncode == 1:
            return i, pid, "caught", next((x for x in r.stdout.splitlines() if x.startswith("[")), "")[:110]
        if r.returncode != 0:
            return i, pid, f"RC{r.returncode}", r.stdout[-200:] + r.stderr[-200:]
        q = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "--deselect",
                            "tests/test_pkg_init.py::test_available_backends_and_get_backend_bibtex", "tests"], env=env(t), cwd=t, capture_output=True, text=True)
        return i, pid, "MISSED" if q.returncode == 0 else "missed, but the tests fail", (q.stdout.splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    M = runpy.run_path(sys.argv[1])["M"]
    ids = [int(x) for x in sys.argv[2:]] or range(len(M))
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, [(i, M[i]) for i in ids]):
            print(*r, flush=True)

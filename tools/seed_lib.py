"""Generate, validate and try the planted bugs of /verif/seeded (see tools/seeds.py).

seed_lib.py gen [ids]     write /verif/seeded/<id>/ for each entry of seeds.SEEDS
seed_lib.py test [ids]    in a scratch copy of /repo: the patch applies, the stable tests pass, the demonstration
                          passes without and fails with the patch, and run the check of the property (quick tier)
seed_lib.py all ID...     run every check against one bug

Results of `test` go to /verif/tools/seed_results.json.
"""
import json, os, subprocess, sys, shutil, difflib, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading

ROOT = "/verif"
SEEDED = f"{ROOT}/seeded"
sys.path.insert(0, f"{ROOT}/tools")
PY = "/opt/venv/bin/python"
STABLE = None
RES = f"{ROOT}/tools/seed_results.json"

DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; anything else: it is not
export SPEY_CHECKUPDATE=OFF PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec timeout 250 "$PY" "$(dirname "$0")/demo.py"
"""


def seeds(ids=None):
    from seeds import SEEDS
    out = [s for s in SEEDS if not ids or s["id"] in ids or s["property"] in ids]
    assert len({s["id"] for s in SEEDS}) == len(SEEDS)
    return out


def make_patch(s):
    by = {}
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    for f, old, new in edits:
        p = f"src/spey/{f}"
        src = by.setdefault(p, [open(f"/repo/{p}").read()] * 2)
        cur = src[1]
        assert cur.count(old) == 1, (s["id"], f, "matches", cur.count(old))
        by[p] = [src[0], cur.replace(old, new)]
    out = ""
    for p, (a, b) in by.items():
        out += f"diff --git a/{p} b/{p}\n"
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), f"a/{p}", f"b/{p}"))
    return out


def original_lines(s):
    """Every removed or replaced line (or the neighbour of an insertion) must be from the original repository."""
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    bad = []
    for f, old, new in edits:
        p = f"src/spey/{f}"
        src = open(f"/repo/{p}").read()
        a, b = src.splitlines(True), src.replace(old, new).splitlines(True)
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True,
                              text=True).stdout.split()[0]
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", p], capture_output=True,
                            text=True).stdout.splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
            if tag in ("replace", "delete"):
                bad += [f"{f}:{k+1}" for k in range(i1, i2) if not bl[k].lstrip("^").startswith(base[:39]) and a[k].strip()]
    return bad


def gen(ss):
    for s in ss:
        d = f"{SEEDED}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(make_patch(s))
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)


def env(wt, reexec=False):
    e = dict(os.environ, PYTHONPATH=f"{wt}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             SPEY_CHECKUPDATE="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             MPLBACKEND="Agg", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    if reexec:
        e["VERIF_REEXEC"] = "1"
        e["VERIF_SPEY_SRC"] = f"{wt}/src"
    return e


def run_check(pid, wt, evdir):
    e = env(wt, True)
    e["VERIF_EVIDENCE_DIR"] = evdir
    r = subprocess.run([PY, "run.py", pid], cwd=ROOT, env=e, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return {"rc": r.returncode, "violation": v[:1], "tail": r.stdout[-1500:] if not v else "",
            "err": r.stderr[-500:] if r.returncode not in (0, 1) else ""}


def test_one(s, checks=None, tests=True):
    wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        return _test_one(s, checks, tests, wt)
    finally:
        shutil.rmtree(wt)


def _test_one(s, checks, tests, wt):
    shutil.rmtree(wt)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    d = f"{SEEDED}/{s['id']}"
    r = {"property": s["property"], "not_original": original_lines(s)}
    c = subprocess.run(["bash", f"{d}/demo.sh"], cwd=wt, env=env(wt), capture_output=True, text=True)
    r["demo_clean"] = c.returncode
    if c.returncode:
        r["demo_clean_out"] = (c.stdout + c.stderr)[-600:]
    a = subprocess.run(["git", "-C", wt, "apply", f"{d}/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        return {**r, "apply": a.stderr}
    c = subprocess.run(["bash", f"{d}/demo.sh"], cwd=wt, env=env(wt), capture_output=True, text=True)
    r["demo_patched"] = c.returncode
    if tests:
        x = f"{wt}/junit.xml"
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
                        f"--junitxml={x}", "tests"], cwd=wt, env=env(wt), capture_output=True, text=True)
        o = f"{wt}/o.json"
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, f"junit:{x}"], capture_output=True)
        passed = set(json.load(open(o))["passed"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base["stable"])
        r["tests_broken"] = sorted(base - passed)[:4]
    ev = f"{wt}/ev"
    os.makedirs(ev)
    r["checks"] = {p: run_check(p, wt, ev) for p in (checks or [s["property"]])}
    r["caught_by"] = [p for p, v in r["checks"].items() if v["rc"] == 1 and v["violation"]]
    return r


def show(i, r):
    ok = r.get("demo_clean") == 0 and r.get("demo_patched", 0) != 0 and not r.get("tests_broken") and not r.get("not_original")
    print(f"{i:34s} {'valid' if ok else 'INVALID'} caught={r.get('caught_by')}",
          "" if ok else {k: v for k, v in r.items() if k != "checks"},
          {p: v["rc"] for p, v in r.get("checks", {}).items() if v["rc"] != 1}, flush=True)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "gen":
        gen(seeds(ids))
    else:
        ss = seeds(ids)
        gen(ss)
        lock = threading.Lock()
        res = json.load(open(RES)) if os.path.exists(RES) else {}
        pids = [f"P{i:02d}" for i in range(1, 60) if any(x.startswith(f"p{i:02d}_") for x in os.listdir(f"{ROOT}/checks"))]

        def job(s):
            r = test_one(s, pids if cmd == "all" else None)
            with lock:
                show(s["id"], r)
                old = set(res.get(s["id"], {}).get("caught_by", [])) if cmd != "all" else set()
                old -= set(r.get("checks", {}))
                res[s["id"]] = {**{k: v for k, v in r.items() if k != "checks"},
                                "caught_by": sorted(old | set(r.get("caught_by", [])))}
                json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
        with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            list(ex.map(job, ss))

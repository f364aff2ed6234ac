"""Property runner: Hypothesis-driven generated-input search, sharded over processes.

A check module (``checks/<pid>_*.py``) exposes

    PROPERTY = "P01"
    RULE     = "what a case is and when it is non-trivial"
    SUBS     = [Sub(name, strategy_factory, check, quick=N, thorough=M), ...]

``check(case, ev)`` runs the real code on one JSON-serialisable case, compares it with an
explicit oracle and raises :class:`Violation` (any exception that is not a resource error is
also a violation: all generated inputs are inside the documented domain).
"""
import argparse
import glob
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(AssertionError):
    """The oracle disagrees with the code."""


class Inconclusive(Exception):
    """The case could not be decided (reference failed to converge, time budget, ...)."""


class HarnessError(Exception):
    """The harness itself is broken: exit 2."""


class _Timeout(BaseException):
    pass


class Ev:
    """Per-case recorder: classification tags and the non-trivial flag."""

    __slots__ = ("tags", "nontrivial", "notes")

    def __init__(self):
        self.tags = []
        self.nontrivial = False
        self.notes = {}

    def tag(self, *names):
        self.tags.extend(names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, case_timeout=60, shards=None,
                 hang=False):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.case_timeout = case_timeout
        self.shards = shards
        self.hang = hang  # running into the time limit is itself a violation (liveness)


def require(cond, msg, **data):
    if not cond:
        extra = "; ".join(f"{k}={v!r}" for k, v in data.items())
        raise Violation(msg + (" | " + extra if extra else ""))


def close(a, b, rtol=1e-9, atol=1e-9):
    """Equality up to tolerance that also accepts matching infinities (NaN never matches)."""
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def require_close(a, b, msg, rtol=1e-9, atol=1e-9, **data):
    if not close(a, b, rtol, atol):
        raise Violation(
            f"{msg}: got {a!r}, expected {b!r}"
            + ("; " + "; ".join(f"{k}={v!r}" for k, v in data.items()) if data else "")
        )


def require_allclose(a, b, msg, rtol=1e-9, atol=1e-9, **data):
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol):
        raise Violation(
            f"{msg}: got {a.tolist()!r}, expected {b.tolist()!r}"
            + ("; " + "; ".join(f"{k}={v!r}" for k, v in data.items()) if data else "")
        )


# --------------------------------------------------------------------------- environment
def setup_process(home):
    import logging
    import warnings

    os.environ["HOME"] = home
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import spey

    path = os.path.realpath(spey.__file__)
    root = os.environ.get("VERIF_SPEY_SRC") or "/repo/src"  # set only while planted bugs are tried in a scratch copy
    if not path.startswith(root + "/"):
        raise HarnessError(f"spey imported from {path}, not from {root}")
    logging.getLogger("Spey").setLevel(logging.CRITICAL + 10)


def seed_of(*parts):
    return zlib.crc32("|".join(map(str, parts)).encode())


def case_key(case):
    return json.dumps(case, sort_keys=True)


def jsonable(x):
    json.dumps(x)
    return x


def load(pid):
    mods = glob.glob(os.path.join(VERIF, "checks", pid.lower() + "_*.py"))
    if len(mods) != 1:
        raise HarnessError(f"no unique check module for {pid}: {mods}")
    name = os.path.splitext(os.path.basename(mods[0]))[0]
    return importlib.import_module("checks." + name)


def run_case(sub, case, deadline_s=None):
    """Run one case; returns (status, message, ev): status in ok / fail / inconclusive."""
    ev = Ev()

    def on_alarm(signum, frame):
        raise _Timeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, deadline_s or sub.case_timeout)
    try:
        sub.check(json.loads(json.dumps(case)), ev)
        return "ok", "", ev
    except _Timeout:
        if sub.hang:
            return "fail", f"no answer within {sub.case_timeout} s: blocked forever", ev
        return "inconclusive", "case time budget", ev
    except Inconclusive as err:
        return "inconclusive", str(err), ev
    except (MemoryError, HarnessError):
        raise
    except Violation as err:
        return "fail", str(err), ev
    except RecursionError as err:
        return "fail", "RecursionError: " + str(err), ev
    except Exception as err:  # pylint: disable=broad-except
        tb = traceback.extract_tb(err.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-4:][::-1])
        return "fail", f"unexpected {type(err).__name__}: {err} [{where}]", ev
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def worker(args):
    pid, sub_idx, shard, n, seed, stop_at, home = args
    setup_process(home)
    mod = load(pid)
    sub = mod.SUBS[sub_idx]
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    out = {
        "sub": sub.name, "shard": shard, "evaluations": 0, "inconclusive": 0, "skipped": 0,
        "distinct": set(), "tags": {}, "samples": [], "fail": None, "inc_msgs": {},
    }
    fails = {}          # key -> (msg, case)
    t_fail = [None]
    SHRINK_S = 25.0

    def prop(case):
        now = time.time()
        if t_fail[0] is None and now > stop_at:
            out["skipped"] += 1
            return
        key = case_key(case)
        if t_fail[0] is not None and now - t_fail[0] > SHRINK_S and key not in fails:
            return
        status, msg, ev = run_case(sub, case)
        if t_fail[0] is None:
            out["evaluations"] += 1
            for t in ev.tags:
                out["tags"][t] = out["tags"].get(t, 0) + 1
            if status == "inconclusive":
                out["inconclusive"] += 1
                out["inc_msgs"][msg[:80]] = out["inc_msgs"].get(msg[:80], 0) + 1
            if ev.nontrivial:
                out["distinct"].add(hashlib.blake2b(key.encode(), digest_size=8).hexdigest())
                if len(out["samples"]) < 2 and len(key) < 1500 and out["evaluations"] > 3:
                    out["samples"].append({"sub": sub.name, "case": case})
        if status == "fail":
            if t_fail[0] is None:
                t_fail[0] = now
            fails[key] = (msg, case)
            raise Violation(msg)

    test = hypothesis.given(sub.strategy())(prop)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(seed_of(seed, pid, sub.name, shard))(test)
    try:
        test()
    except Exception:  # pylint: disable=broad-except
        if not fails:
            raise
    if fails:
        key = min(fails, key=lambda k: (len(k), k))
        msg, case = fails[key]
        out["fail"] = {"sub": sub.name, "case": case, "message": msg}
    return out


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    """Committed known findings: list of {property, sub, case, what}.  Never written here."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


# --------------------------------------------------------------------------- main
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run a single sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    home = tempfile.mkdtemp(prefix="verif-home-")
    try:
        return _main(a, home)
    except HarnessError as err:
        print(f"HARNESS-ERROR {err}", file=sys.stderr)
        return 2
    except BaseException as err:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"HARNESS-ERROR {type(err).__name__}: {err}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(home, ignore_errors=True)


def _main(a, home):
    t0 = time.time()
    pid = a.property.upper()
    setup_process(home)
    mod = load(pid)
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            rep = json.load(f)
        sub = next(s for s in mod.SUBS if s.name == rep["sub"])
        status, msg, _ = run_case(sub, rep["case"], deadline_s=600)
        print(status, msg)
        if status == "fail":
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0 if status == "ok" else 2

    tier = a.tier
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3600)
    stop_at = t0 + budget
    tasks = []
    for i, sub in enumerate(mod.SUBS):
        if a.only and sub.name != a.only:
            continue
        n = int(math.ceil((sub.quick if tier == "quick" else sub.thorough) * a.scale))
        shards = min(sub.shards or 8, max(1, n // 4))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            tasks.append((pid, i, s, k, a.seed, stop_at, home))
    # interleave the shards of the sub-checks so that no sub-check starves another
    tasks.sort(key=lambda t: (t[2], t[1]))

    results, failure = [], None
    ctx = mp.get_context("fork")
    # Long-running worker processes are started before any case runs in the parent.
    pool = ctx.Pool(min(a.procs, max(1, len(tasks))), maxtasksperchild=8)
    try:
        pending = [pool.apply_async(worker, (t,)) for t in tasks]
        hard = stop_at + 300
        while pending and failure is None:
            time.sleep(0.05)
            still = []
            for p in pending:
                if p.ready():
                    r = p.get()
                    results.append(r)
                    if r["fail"] and failure is None:
                        failure = r["fail"]
                else:
                    still.append(p)
            pending = still
            if time.time() > hard and pending:
                raise HarnessError(f"{len(pending)} shards did not finish")
    finally:
        pool.terminate()
        pool.join()

    ev = {}
    tags = {}
    distinct = set()
    samples = []
    per_sub = {}
    for r in results:
        distinct |= {r["sub"] + ":" + h for h in r["distinct"]}
        d = per_sub.setdefault(
            r["sub"], {"evaluations": 0, "nontrivial": set(), "inconclusive": 0, "skipped": 0, "tags": {}}
        )
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] |= r["distinct"]
        d["inconclusive"] += r["inconclusive"]
        d["skipped"] += r["skipped"]
        for m, c in r["inc_msgs"].items():
            d.setdefault("inconclusive_reasons", {})
            d["inconclusive_reasons"][m] = d["inconclusive_reasons"].get(m, 0) + c
        for t, c in r["tags"].items():
            d["tags"][t] = d["tags"].get(t, 0) + c
            tags[t] = tags.get(t, 0) + c
        have = sum(1 for s in samples if s["sub"] == r["sub"])
        samples.extend(r["samples"][: max(0, 2 - have)])
    for d in per_sub.values():
        d["nontrivial"] = len(d["nontrivial"])
        d["tags"] = dict(sorted(d["tags"].items()))
    evaluations = sum(r["evaluations"] for r in results)

    # Known findings are replayed from their committed case (never added at run time).
    code = 0
    for kf in known_findings(pid):
        sub = next((s for s in mod.SUBS if s.name == kf["sub"]), None)
        if sub is None:
            continue
        status, _, _ = run_case(sub, dict(kf["case"], **{"__known__": True}))
        print(f"KNOWN-FINDING: property={pid} {kf['what']}" + ("" if status == "fail" else " (not reproduced)"))

    replay_path = None
    if failure is not None:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, f"{pid}-{failure['sub']}-seed{a.seed}.json")
        sub = next(s for s in mod.SUBS if s.name == failure["sub"])
        status, msg, _ = run_case(sub, failure["case"], deadline_s=120)
        failure["replayed_in_fresh_process"] = status
        failure["property"] = pid
        with open(replay_path, "w", encoding="utf-8") as f:
            json.dump(failure, f, indent=1, sort_keys=True)
        print(f"[{pid}/{failure['sub']}] {failure['message'][:1500]}")
        print(f"  case: {json.dumps(failure['case'])[:1500]}")
        print(f"  replay in a fresh process: {status}")
        print(f"VIOLATION property={pid} replay={replay_path}")
        code = 1

    ev = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:12] or [{"note": "no sample short enough"}],
            "per_subcheck": per_sub,
            "classes": dict(sorted(tags.items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    if not a.only:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
    if code == 0:
        print(
            f"OK property={pid} tier={tier} seed={a.seed} evaluations={evaluations} "
            f"nontrivial={len(distinct)} wall={ev['wall_s']}s"
        )
        for name, d in per_sub.items():
            if a.only or d["inconclusive"] or d["skipped"]:
                print(f"   {name}: {json.dumps(d)}")
        if evaluations == 0:
            raise HarnessError("nothing was evaluated")
    return code

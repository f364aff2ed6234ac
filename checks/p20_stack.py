"""P20: a combination behaves as an ordered mapping of its analyses."""
import numpy as np
from hypothesis import strategies as st

from harness import strategies as S
from harness.core import Sub, require, require_close

PROPERTY = "P20"
RULE = (
    "A case is a sequence of operations (append, remove, merge, index by position/name/slice, iterate, invalid variants) "
    "on one or several combinations, mirrored on ordered lists of (name, model); after every step the whole public view is "
    "compared. Non-trivial: at least one removal or merge and one rejected operation."
)
BUDGET = {"quick": 120, "thorough": 1800}

NAMES = ["A", "B", "C", "SR 1", "0", ""]


@st.composite
def case(draw):
    pool = draw(st.integers(3, 6))
    ops = []
    for _ in range(draw(st.integers(4, 25))):
        kind = draw(st.sampled_from(["append", "append", "append", "remove", "get", "slice", "matmul", "matmul_model", "bad_append",
                                     "bad_matmul", "name", "new", "sens", "sens", "like"]))
        ops.append([kind, draw(st.integers(0, 9)), draw(st.integers(0, 9)), draw(st.integers(-5, 5))])
    return {"ops": ops, "pool": [[draw(st.sampled_from(NAMES)), draw(S.num(1, 40, 1)), draw(S.num(20, 80, 0)), draw(S.num(0.1, 5, 2)),
                                  draw(st.sampled_from([True, True, False])), draw(S.num(0.6, 1.5, 2))] for _ in range(pool)],
            "start": draw(st.lists(st.integers(0, 9), max_size=3)), "idx": draw(st.sampled_from(["int", "int", "np"]))}


def check(c, ev):
    import spey
    from spey.system.exceptions import AnalysisQueryError

    w = spey.get_backend("default.poisson")
    pool = [w(signal_yields=[s if alive else 0.0], background_yields=[b], data=[round(b * r)], analysis=nm, xsection=xs)
            for nm, s, b, xs, alive, r in c["pool"]]
    info = {id(m): p for m, p in zip(pool, c["pool"])}
    stacks, mirrors = [], []
    cnt = {"rejected": 0, "changed": 0}

    def rejects(fn, exc, what):
        try:
            fn()
        except exc:
            cnt["rejected"] += 1
            return
        require(False, "accepted an invalid operation", what=what)

    def build(models):
        names = [m.analysis for m in models]
        if len(set(names)) != len(names):
            rejects(lambda: spey.UnCorrStatisticsCombiner(*models), AnalysisQueryError, "duplicate names in the constructor")
            seen, out = set(), []
            for m in models:
                if m.analysis not in seen:
                    out.append(m)
                    seen.add(m.analysis)
            models = out
        stacks.append(spey.UnCorrStatisticsCombiner(*models))
        mirrors.append(list(models))

    def compare(k):
        cb, mi = stacks[k], mirrors[k]
        require(len(cb) == len(mi), "number of models", got=len(cb), want=len(mi))
        require([m for m in cb] == mi and all(a is b for a, b in zip(cb, mi)), "iteration order")
        require(list(cb.analyses) == [m.analysis for m in mi], "analysis names", got=list(cb.analyses))
        sm = cb.statistical_models
        require(isinstance(sm, tuple) and len(sm) == len(mi) and all(a is b for a, b in zip(sm, mi)), "statistical_models")
        it = list(cb.items())
        require([n for n, _ in it] == [m.analysis for m in mi] and all(a is b for (_, a), b in zip(it, mi)), "items()")
        for i, m in enumerate(mi):
            require(cb[i] is m and cb[i - len(mi)] is m and cb[m.analysis] is m, "look-up by position and by name", i=i, name=m.analysis)
        require(cb.is_alive == any(info[id(m)][4] for m in mi), "is_alive")
        require(cb.is_toy_calculator_available is False and cb.is_asymptotic_calculator_available is True
                and cb.is_chi_square_calculator_available is True, "calculators of the combination")
        if mi:
            want = max(-info[id(m)][2] / info[id(m)][1] if info[id(m)][4] else -np.inf for m in mi)
            require_close(cb.minimum_poi, want, "smallest allowed strength", rtol=1e-12, atol=0) if np.isfinite(want) else require(
                cb.minimum_poi == want, "smallest allowed strength", got=cb.minimum_poi)

    build([pool[i % len(pool)] for i in c["start"]])
    compare(0)
    for kind, a, b, i in c["ops"]:
        k = a % len(stacks)
        cb, mi = stacks[k], mirrors[k]
        m = pool[b % len(pool)]
        idx = np.int64(i) if c["idx"] == "np" else i
        if kind == "append":
            if any(x.analysis == m.analysis for x in mi):
                rejects(lambda: cb.append(m), AnalysisQueryError, "append of an existing name")
            else:
                cb.append(m)
                mi.append(m)
        elif kind == "remove":
            nm = m.analysis
            if any(x.analysis == nm for x in mi):
                cb.remove(nm)
                mirrors[k] = [x for x in mi if x.analysis != nm]
                cnt["changed"] += 1
            else:
                rejects(lambda: cb.remove(nm), AnalysisQueryError, "removal of an unknown name")
        elif kind == "get":
            if -len(mi) <= i < len(mi):
                require(cb[idx] is mi[i], "look-up by position", i=i)
            else:
                rejects(lambda: cb[idx], AnalysisQueryError, "position out of range")
        elif kind == "name":
            nm = NAMES[b % len(NAMES)]
            found = [x for x in mi if x.analysis == nm]
            if found:
                require(cb[nm] is found[0], "look-up by name", name=nm)
            else:
                rejects(lambda: cb[nm], AnalysisQueryError, "unknown name")
        elif kind == "slice":
            got = cb[min(i, 0) : max(i, 0)] if b % 2 else cb[::-1]
            want = mi[min(i, 0) : max(i, 0)] if b % 2 else mi[::-1]
            require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "slice")
        elif kind in ("matmul", "matmul_model"):
            other, olist = (m, [m]) if kind == "matmul_model" else (stacks[b % len(stacks)], mirrors[b % len(stacks)])
            names = [x.analysis for x in mi + olist]
            if len(set(names)) == len(names):
                res = cb @ other
                require(res is not cb and res is not other, "merging must create a new combination")
                stacks.append(res)
                mirrors.append(list(mi) + list(olist))
                cnt["changed"] += 1
            else:
                rejects(lambda: cb @ other, AnalysisQueryError, "merge with a common name")
        elif kind == "bad_append":
            for bad in (None, "A", m.backend, cb, 3.0):
                rejects(lambda: cb.append(bad), TypeError, f"append of {type(bad).__name__}")
        elif kind == "bad_matmul":
            for bad in (None, "A", m.backend, 3.0, [m]):
                rejects(lambda: cb @ bad, ValueError, f"merge with {type(bad).__name__}")
        elif kind == "new":
            if len(stacks) < 4:
                build([pool[(b + j) % len(pool)] for j in range(1 + abs(i) % 3)])
        elif kind == "sens":
            alive = [x for x in mi if info[id(x)][4]]
            if alive and len(alive) == len(mi):
                best = cb.find_most_sensitive()
                s = {x.analysis: x.s95exp for x in mi}
                require(any(best is x for x in mi), "most sensitive model is not a member")
                require(s[best.analysis] <= min(s.values()) * (1 + 1e-3), "a more sensitive member exists", got=best.analysis, all=s)
                ev.tag("sensitivity")
        elif kind == "like":
            v = cb.likelihood(0.3)
            require_close(v, sum(x.likelihood(0.3) for x in mi), "likelihood of the current stack", rtol=1e-12, atol=1e-12)
        if len(stacks) > 6:
            stacks, mirrors = stacks[-3:], mirrors[-3:]
        for j in range(len(stacks)):
            compare(j)
    ev.tag("merged" if len(stacks) > 1 else "single")
    ev.mark(cnt["rejected"] > 0 and cnt["changed"] > 0)


SUBS = [Sub("stack", case, check, quick=1500, thorough=20000)]

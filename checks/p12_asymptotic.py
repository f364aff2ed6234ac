"""P12: asymptotic p-values against the normal distribution."""
import math

from hypothesis import strategies as st
from scipy.stats import norm

from harness import strategies as S
from harness.core import Sub, require, require_close

PROPERTY = "P12"
RULE = (
    "A case is (sqrt of the Asimov statistic, Delta, statistic name) or a pair of observed / Asimov statistics turned "
    "into Delta; p-values, expected bands, ordering and the distribution objects are compared with normal tails. "
    "Non-trivial: 0 < p_s+b and p_b < 1 and the ratio differs from both."
)


@st.composite
def case(draw):
    sA = draw(st.one_of(S.num(0, 8, 3), S.num(0, 38, 2), st.just(0.0)))
    mode = draw(st.sampled_from(["delta", "pair", "extreme"]))
    if mode == "delta":
        delta = draw(S.num(-6, 6, 3))
    elif mode == "extreme":
        delta = draw(S.num(-45, 45, 1))
    else:
        sq = draw(S.num(0, 9, 3))
        delta = sq - sA if sq <= sA or sA == 0 else (sq**2 - sA**2) / (2 * sA)
    return {"sA": sA, "delta": delta, "stat": draw(st.sampled_from(["q", "qmu", "qtilde", "qmutilde", "q0"]))}


def phi(x):
    # independent of scipy.stats.norm: complementary error function
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def check(c, ev):
    from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level
    from spey.hypothesis_testing.distributions import AsymptoticTestStatisticsDistribution
    from spey.hypothesis_testing.utils import expected_pvalues, pvalues

    sA, d, stat = c["sA"], c["delta"], c["stat"]
    sb, b = AsymptoticTestStatisticsDistribution(-sA), AsymptoticTestStatisticsDistribution(0.0)
    psb, pb = phi(-sA - d), phi(-d)
    ps = psb / pb if pb > 0 else 0.0
    T = dict(rtol=1e-7, atol=1e-290)
    if psb < 1e-290:
        # denormal tails: only the limits are meaningful
        g = pvalues(d, sb, b)
        require(all(0.0 <= float(v) <= 1.0 for v in g) and float(g[0]) < 1e-280, "denormal tails", got=g)
        ev.tag("underflow")
        return
    got = pvalues(d, sb, b)
    for g, w, n in zip(got, (psb, pb, ps), ("p_s+b", "p_b", "p_s")):
        require_close(g, w, n, **T, case=c)
    obs, exp = compute_asymptotic_confidence_level(sA, d, stat)
    require(len(obs) == 1 and len(exp) == 5, "one observed and five expected p-values", obs=obs, exp=exp)
    require_close(obs[0], psb if stat == "q0" else ps, "observed p-value of " + stat, **T, case=c)
    bands = expected_pvalues(sb, b)
    require(len(bands) == 3 and all(len(x) == 5 for x in bands), "expected p-values: three kinds of five bands")
    for i, n in enumerate((2.0, 1.0, 0.0, -1.0, -2.0)):
        wsb, wb = phi(-sA - n), phi(-n)
        for k, w in enumerate((wsb, wb, wsb / wb)):
            require_close(bands[k][i], w, f"expected p-value kind {k} band {i}", **T, case=c)
        require_close(exp[i], wsb if stat == "q0" else wsb / wb, f"expected band {i} of {stat}", **T, case=c)
    vals = list(got) + list(obs) + list(exp)
    require(all(0.0 <= float(v) <= 1.0 + 1e-12 for v in vals), "p-value outside [0, 1]", vals=vals)
    require(all(exp[i] <= exp[i + 1] * (1 + 1e-12) + 1e-300 for i in range(4)), "expected p-values are not ordered", exp=exp)
    require(got[2] >= got[0] or pb == 0.0, "ratio below p_s+b", got=got)
    for dist, sh in ((sb, -sA), (b, 0.0)):
        require_close(dist.pvalue(d), phi(sh - d), "distribution p-value", **T)
        require_close(dist.logcdf(d), norm.logcdf(sh - d), "distribution log p-value", rtol=1e-7, atol=1e-12)
        for n in (-2.0, 0.3, 2.0):
            require_close(dist.expected_value(n), n + sh, "expected value of the statistic", rtol=1e-12, atol=1e-12)
    ev.tag(stat, "underflow" if pb == 0 else "regular")
    ev.mark(0 < psb < pb < 1)


@st.composite
def mono_case(draw):
    sA = draw(S.num(0, 8, 3))
    ds = sorted(draw(st.lists(S.num(-6, 6, 3), min_size=3, max_size=8, unique=True)))
    return {"sA": sA, "ds": ds, "grow": draw(S.num(0.001, 2, 3))}


def check_mono(c, ev):
    from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level as f

    for stat in ("qtilde", "q", "q0"):
        ps = [f(c["sA"], d, stat)[0][0] for d in c["ds"]]
        require(all(a >= b - 1e-12 for a, b in zip(ps, ps[1:])), "p-value grows with the observed statistic", ps=ps, stat=stat)
        e0 = [f(c["sA"], d, stat)[1] for d in c["ds"]]
        require(all(list(e) == list(e0[0]) for e in e0), "expected p-values depend on the observed statistic", stat=stat)
        e1 = f(c["sA"] + c["grow"], c["ds"][0], stat)[1]
        require(all(x > y for x, y in zip(e0[0], e1)), "expected p-values do not fall with sensitivity", stat=stat)
    ev.mark(c["sA"] > 0)


SUBS = [
    Sub("pvalues", case, check, quick=6000, thorough=150000),
    Sub("monotone", mono_case, check_mono, quick=600, thorough=10000),
]

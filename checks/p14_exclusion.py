"""P14: exclusion confidence level end to end."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import analytic, inference, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close

PROPERTY = "P14"
RULE = (
    "analytic: a closed-form likelihood behind the public hypothesis-testing interface, tested strength, "
    "expectation, calculator; the result is recomputed exactly. real: a real model against a chain of reference "
    "fits with an error band from the optimiser accuracy. monotone: a scan above the best fit. no-signal: a signal "
    "without effect. Non-trivial: an exclusion strictly between 0 and 1."
)
ASSUMPTIONS = ["Optimiser accuracy: 5e-4 in twice the log-likelihood for single-optimum models."]
BUDGET = {"quick": 200, "thorough": 3000}


@st.composite
def an_case(draw):
    return {"d": draw(analytic.strategy()), "mu": draw(st.one_of(S.num(0.01, 6, 2), st.sampled_from([1, 2, 0.5]))),
            "neg": draw(st.booleans()), "calc": draw(st.sampled_from(["asymptotic", "asymptotic", "chi_square"])),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori", "all"])),
            "form": draw(st.sampled_from(["kw", "pos", "np"]))}


def expected_cls(c, cv, e, stat):
    x = cv.obs(e)
    mh = cv.muhat(x, c["neg"])
    f = lambda m: -cv.nll(m, x)  # noqa: E731
    q = analytic.q_stat(stat, c["mu"], mh, f(mh), f)
    if c["calc"] == "asymptotic":
        xa = cv.asimov(e, stat)
        ma = cv.muhat(xa, c["neg"])
        fa = lambda m: -cv.nll(m, xa)  # noqa: E731
        qA = analytic.q_stat(stat, c["mu"], ma, fa(ma), fa)
        r = analytic.cls_chain(q, qA, stat)
        return ([0.0], [0.0] * 5) if r is None else ([1 - r[0][0]], [1 - v for v in r[1]])
    null = f(0.0)
    top = f(mh) if mh >= 0 or stat == "q" else null
    b = max(0.0, 2 * (top - null))
    ob, ex = inference.chi_square_chain(q, b, stat)
    return [1 - ob[0]], [1 - v for v in ex]


def check_an(c, ev):
    m, cv = analytic.make(c["d"])
    stat = "q" if c["neg"] else "qtilde"
    e = c["e"] if c["e"] == "all" else models.expectation(c["e"])
    mu = c["mu"]
    if c["form"] == "np":
        mu = np.int64(mu) if mu == int(mu) else np.float64(mu)
    if c["form"] == "pos":
        got = m.exclusion_confidence_level(mu, e, c["neg"], c["calc"])
    else:
        got = m.exclusion_confidence_level(poi_test=mu, expected=e, allow_negative_signal=c["neg"], calculator=c["calc"])
    ob, ex = expected_cls(c, cv, "observed" if c["e"] == "all" else c["e"], stat)
    ob, ex = [0.0 if math.isnan(v) else v for v in ob], [0.0 if math.isnan(v) else v for v in ex]
    if c["e"] == "all":
        require(len(got) == 2 and len(got[0]) == 1 and len(got[1]) == 5, "observed and expected at once", got=got)
        pairs = list(zip(list(got[0]) + list(got[1]), ob + ex))
    elif c["e"] == "observed":
        require(len(got) == 1, "one observed value", got=got)
        pairs = list(zip(got, ob))
    else:
        require(len(got) == 5, "five expected values", got=got)
        pairs = list(zip(got, ex))
        require(all(got[i] >= got[i + 1] - 1e-12 for i in range(4)), "expected values are not ordered", got=got)
    for g, w in pairs:
        require_close(g, w, "exclusion confidence level", rtol=1e-9, atol=1e-9, case=c)
        require(-1e-9 <= g <= 1 + 1e-9, "outside [0, 1]", got=g)
    ev.tag(c["d"]["family"], c["calc"], c["e"], stat)
    ev.mark(any(1e-6 < float(g) < 1 - 1e-6 for g, _ in pairs))


@st.composite
def real_case(draw):
    spec = draw(S.model(kinds=inference.CONVEX, max_bins=3, tame=True, sig=(0.05, 0.8)))
    return {"spec": spec, "mu": draw(S.num(0.1, 3, 2)), "neg": draw(st.booleans()),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "calc": draw(st.sampled_from(["asymptotic", "asymptotic", "asymptotic", "chi_square"]))}


EPS = 5e-4


def check_real(c, ev):
    m = models.build(c["spec"])
    stat = "q" if c["neg"] else "qtilde"
    ch = inference.Chain(c["spec"], c["e"], stat)
    if ch.muhat > 9.9 or abs(ch.muhat - c["mu"]) < 0.02:
        raise Inconclusive("best fit at the bound or at the tested strength")
    got = [float(v) for v in m.exclusion_confidence_level(
        c["mu"], expected=models.expectation(c["e"]), allow_negative_signal=c["neg"], calculator=c["calc"])]
    require(all(0.0 <= v <= 1.0 for v in got), "outside [0, 1]", got=got)
    q = ch.q(c["mu"])
    if c["calc"] == "asymptotic":
        qA = ch.q(c["mu"], asimov=True)
        if qA < 20 * EPS:
            raise Inconclusive("no sensitivity")
        lohi = inference.cls_band(q, qA, stat, EPS)
        extra = {"q": q, "qA": qA}
    else:
        null = ch.logpdf(0.0)
        top = -ch.min_nll if ch.muhat >= 0 or stat == "q" else null
        b = max(0.0, 2 * (top - null))

        def fn(x, y):
            ob, ex = inference.chi_square_chain(x, y, stat)
            return [1 - ob[0]] + [1 - v for v in ex]
        if stat == "qtilde" and q < 20 * EPS:
            raise Inconclusive("degenerate chi-square ratio")
        lohi = inference.band(fn, q, b, EPS)
        extra = {"q": q, "null": b}
    if lohi is None:
        raise Inconclusive("degenerate")
    lo, hi = lohi
    sel = slice(0, 1) if c["e"] == "observed" else slice(1, 6)
    require(len(got) == len(lo[sel]), "number of values", got=got)
    for g, a, b2 in zip(got, lo[sel], hi[sel]):
        require(a - 2e-3 <= g <= b2 + 2e-3, "exclusion confidence level outside the reference band", got=got,
                low=lo[sel].tolist(), high=hi[sel].tolist(), muhat=ch.muhat, **extra)
    if c["calc"] == "asymptotic" and c["e"] == "observed":
        both = m.exclusion_confidence_level(c["mu"], expected="all", allow_negative_signal=c["neg"])
        require_close(both[0][0], got[0], "everything at once: observed", rtol=1e-9, atol=1e-9)
        post = m.exclusion_confidence_level(c["mu"], expected=models.expectation("aposteriori"), allow_negative_signal=c["neg"])
        require(len(both[1]) == 5 and all(abs(a - b3) < 1e-9 for a, b3 in zip(both[1], post)),
                "everything at once: expected", both=both, post=post)
    ev.tag(c["spec"]["kind"], c["calc"], c["e"], stat)
    ev.mark(any(0.01 < v < 0.99 for v in got))


@st.composite
def mono_case(draw):
    spec = draw(S.model(kinds=inference.CONVEX, max_bins=3, tame=True, sig=(0.05, 0.6)))
    return {"spec": spec, "steps": draw(st.lists(S.num(0.05, 1.0, 2), min_size=2, max_size=4)),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"]))}


def check_mono(c, ev):
    m = models.build(c["spec"])
    e = models.expectation(c["e"])
    mu = max(0.0, m.maximize_likelihood(expected=e)[0])
    prev = None
    for s in c["steps"]:
        mu += s
        cl = [float(v) for v in m.exclusion_confidence_level(mu, expected=e)]
        require(all(0 <= v <= 1 for v in cl), "outside [0, 1]", cl=cl)
        if c["e"] != "observed":
            require(all(cl[i] >= cl[i + 1] - 1e-9 for i in range(4)), "expected values not ordered", cl=cl)
        if prev is not None:
            require(all(a <= b + 5e-3 for a, b in zip(prev, cl)), "exclusion falls with the tested strength", mu=mu, prev=prev, now=cl)
        prev = cl
    ev.tag(c["spec"]["kind"])
    ev.mark(prev is not None and any(0.02 < v < 0.98 for v in prev))


@st.composite
def null_case(draw):
    kind = draw(st.sampled_from(["poisson", "normal", "mvn", "uncorrelated", "correlated"]))
    spec = draw(S.model(kinds=(kind,), max_bins=3, tame=True))
    spec["s"] = [0.0] * len(spec["b"])
    return {"spec": spec, "mu": draw(S.num(0.0, 5, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"]))}


def check_null(c, ev):
    m = models.build(c["spec"])
    require(not m.is_alive, "a model without signal is reported alive")
    cl = m.exclusion_confidence_level(c["mu"], expected=models.expectation(c["e"]))
    want = 1 if c["e"] == "observed" else 5
    require(len(cl) == want, "number of values", cl=cl)
    mid = cl[0] if c["e"] == "observed" else cl[2]
    require(0.0 <= mid <= 0.02, "exclusion of a signal without effect", cl=cl)
    lim = m.poi_upper_limit(expected=models.expectation(c["e"]))
    require(lim == np.inf, "upper limit without signal", limit=lim)
    ev.tag(c["spec"]["kind"])
    ev.mark()


@st.composite
def bad_case(draw):
    return draw(st.sampled_from(["", "asym", "toys", "chi2", "Asymptotic", "alive", "hypotest"]))


def check_bad(name, ev):
    from spey.system.exceptions import CalculatorNotAvailable

    m, _ = analytic.make({"family": "gauss", "x": 0.3, "sigma": 1.0})
    try:
        m.exclusion_confidence_level(1.0, calculator=name)
    except CalculatorNotAvailable:
        ev.mark()
        return
    require(False, "unknown calculator accepted", name=name)


SUBS = [
    Sub("analytic", an_case, check_an, quick=4000, thorough=60000),
    Sub("real", real_case, check_real, quick=700, thorough=6000),
    Sub("monotone", mono_case, check_mono, quick=200, thorough=2000),
    Sub("no-signal", null_case, check_null, quick=60, thorough=1000),
    Sub("calculator", bad_case, check_bad, quick=16, thorough=50),
]

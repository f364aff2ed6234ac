"""P11: test statistics against their likelihood-ratio definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import analytic, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close

PROPERTY = "P11"
RULE = (
    "statistic: (name, tested mu, best fit, maximum, log-likelihood curve) including ties, negative best fits and "
    "maxima below the tested likelihood. compute: two curves (data, Asimov) through compute_teststatistics in both "
    "regimes. front-end: a closed-form or real model through the exclusion test. Non-trivial: the statistic is "
    "neither zero nor an error."
)
NAMES = ["q", "qmu", "qtilde", "qmutilde", "q0", "qmu_left"]
KIND = {"q": "q", "qmu": "q", "qtilde": "qtilde", "qmutilde": "qtilde", "q0": "q0", "qmu_left": "qmu_left"}


def curve_st():
    return st.fixed_dictionaries({"a": S.num(0.01, 4, 2), "c": S.num(-3, 3, 2), "off": S.num(-20, 20, 1), "k": S.num(-0.2, 0.2, 2)})


def logpdf_of(d, calls):
    def f(mu):
        calls.append(float(mu))
        t = float(mu) - d["c"]
        return d["off"] - d["a"] * t * t - d["k"] * t**3
    return f


@st.composite
def stat_case(draw):
    c = draw(curve_st())
    mu = draw(st.one_of(S.num(-1, 4, 2), st.just(0.0), st.just(1.0)))
    muhat = draw(st.one_of(S.num(-3, 4, 2), st.just(mu), st.just(0.0), st.just(-0.01), st.just(round(mu + 0.01, 2)),
                           st.just(c["c"])))
    return {"curve": c, "mu": mu, "muhat": muhat, "name": draw(st.sampled_from(NAMES)),
            "top": draw(st.one_of(st.none(), S.num(-5, 15, 2)))}


def check_stat(c, ev):
    from spey.hypothesis_testing.test_statistics import get_test_statistic, q0, qmu, qmu_left, qmu_tilde

    calls = []
    f = logpdf_of(c["curve"], calls)
    top = c["curve"]["off"] + (c["top"] if c["top"] is not None else 0.0)
    kind = KIND[c["name"]]
    want = analytic.q_stat(kind, c["mu"], c["muhat"], top, logpdf_of(c["curve"], []))
    got = get_test_statistic(c["name"])(c["mu"], c["muhat"], top, f)
    require_close(got, want, "test statistic " + c["name"], rtol=1e-12, atol=1e-12, mu=c["mu"], muhat=c["muhat"], top=top)
    direct = {"q": qmu, "qtilde": qmu_tilde, "q0": q0, "qmu_left": qmu_left}[kind](c["mu"], c["muhat"], top, f)
    require_close(direct, want, "test statistic function of " + c["name"], rtol=1e-12, atol=1e-12)
    require(float(got) >= 0.0, "test statistic is negative", got=got)
    allowed = {0.0} if kind == "q0" else {c["mu"], 0.0}
    require(set(calls) <= allowed, "likelihood evaluated at an unrelated strength", at=calls)
    ev.tag(kind, "zero" if want == 0 else "positive")
    ev.mark(want > 0)


def unknown_case():
    return st.sampled_from(["", "qq", "q_mu", "q1", "Q", "tilde", "qmu_right", "q0 ", "qmutilde_", "None", "q\u03bc", "qtild", "_"])


def check_unknown(name, ev):
    from spey.hypothesis_testing.test_statistics import compute_teststatistics, get_test_statistic
    from spey.system.exceptions import UnknownTestStatistics

    for call in (
        lambda: get_test_statistic(name),
        lambda: compute_teststatistics(1.0, (0.0, 1.0), lambda m: -1.0 - m, (0.0, 1.0), lambda m: -1.0 - m, name),
    ):
        try:
            call()
        except UnknownTestStatistics:
            continue
        require(False, "unknown test statistic accepted", name=name)
    ev.mark()


@st.composite
def compute_case(draw):
    c = draw(curve_st())
    d = draw(curve_st())
    if draw(st.booleans()):
        d["c"] = 0.0
    if draw(st.integers(0, 5)) == 0:
        d["c"] = draw(S.num(1.5, 3, 2))
    mu = draw(S.num(0.0, 3, 2))
    return {"data": c, "asimov": d, "mu": mu, "name": draw(st.sampled_from(NAMES[:5])), "noise": draw(S.num(-0.01, 0.01, 3))}


def check_compute(c, ev):
    from spey.hypothesis_testing.test_statistics import compute_teststatistics
    from spey.system.exceptions import AsimovTestStatZero

    kind = KIND[c["name"]]
    pair = []
    for k in ("data", "asimov"):
        d = dict(c[k], k=0.0)
        muhat = d["c"] if kind == "q" else max(0.0, d["c"])
        f = logpdf_of(d, [])
        pair.append((muhat, f(muhat) + c["noise"], f))
    (mh, top, f), (mhA, topA, fA) = pair
    q = analytic.q_stat(kind, c["mu"], mh, top, f)
    qA = analytic.q_stat(kind, c["mu"], mhA, topA, fA)
    sq, sA = math.sqrt(q), math.sqrt(qA)
    try:
        got = compute_teststatistics(c["mu"], (mh, -top), f, (mhA, -topA), fA, c["name"])
    except AsimovTestStatZero:
        require(kind == "qtilde" and qA == 0.0 and q > 0.0, "AsimovTestStatZero raised", q=q, qA=qA)
        ev.tag("asimov-zero")
        return
    if kind in ("q", "q0") or sq <= sA:
        delta = sq - sA
        ev.tag(kind + ":inside")
    else:
        require(sA > 0, "zero Asimov statistic was not reported", q=q, qA=qA)
        delta = (q - qA) / (2 * sA)
        ev.tag(kind + ":outside")
    for g, w, n in zip(got, (sq, sA, delta), ("sqrt(q)", "sqrt(qA)", "Delta")):
        require_close(g, w, n + " of " + c["name"], rtol=1e-10, atol=1e-10, case=c)
    ev.mark(q > 0 and qA > 0)


# ---- the statistics as used by the exclusion test: which likelihoods are asked for
@st.composite
def front_case(draw):
    return {"d": draw(analytic.strategy()), "mu": draw(S.num(0.05, 4, 2)), "neg": draw(st.booleans()),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "what": draw(st.sampled_from(["cls", "significance", "limit"])),
            "kw": draw(st.sampled_from([{}, {"init_pars": [1.0]}, {"par_bounds": [[0, 7]], "ntrials": 3}]))}


def check_front(c, ev):
    calls = []
    m, _ = analytic.make(c["d"], calls=calls)
    e = models.expectation(c["e"])
    what = c["what"]
    if what == "cls":
        m.exclusion_confidence_level(c["mu"], expected=e, allow_negative_signal=c["neg"], **c["kw"])
        stat = {"q"} if c["neg"] else {"qtilde", "qmutilde"}
        neg = c["neg"]
    elif what == "significance":
        m.significance(expected=e, **c["kw"])
        stat, neg = {"q0"}, False
    else:
        m.poi_upper_limit(expected=e, optimiser_arguments=dict(c["kw"]))
        stat, neg = {"qtilde", "qmutilde"}, False
    for call in calls:
        if call[0] == "maximize_likelihood":
            require(call[1] == neg, "negative best fits allowed only for the unbounded statistic", call=call)
            require(call[2] == c["e"], "expectation type not passed to the maximised likelihood", call=call)
        elif call[0] in ("asimov_likelihood", "maximize_asimov_likelihood"):
            s = call[3] if call[0] == "asimov_likelihood" else call[1]
            require(s in stat, "Asimov likelihood of another test statistic", call=call)
            require(call[2] == c["e"], "expectation type not passed to the Asimov likelihood", call=call)
        else:
            require(call[2] == c["e"], "expectation type not passed to the likelihood", call=call)
        require(call[-1] == c["kw"], "optimiser arguments were not passed on unchanged", call=call, want=c["kw"])
    ev.tag(what)
    ev.mark(any(x[0] == "maximize_asimov_likelihood" for x in calls))


SUBS = [
    Sub("statistic", stat_case, check_stat, quick=4000, thorough=100000),
    Sub("unknown", unknown_case, check_unknown, quick=40, thorough=100),
    Sub("compute", compute_case, check_compute, quick=4000, thorough=100000),
    Sub("front-end", front_case, check_front, quick=600, thorough=10000),
]

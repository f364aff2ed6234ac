"""P16: upper limits invert the exclusion confidence level."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from harness import analytic, inference, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close

PROPERTY = "P16"
RULE = (
    "analytic: closed-form likelihoods, the limit recomputed by bisection of the exact curve. real: a model, its "
    "limits of every kind fed back into the exclusion test, ordering, scaling of the signal, confidence levels. "
    "Non-trivial: a finite limit."
)
ASSUMPTIONS = ["Limits are located to a relative 1e-4 (documented solver tolerance) plus optimiser accuracy."]
BUDGET = {"quick": 240, "thorough": 3600}


@st.composite
def an_case(draw):
    return {"d": draw(analytic.strategy()), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "cl": draw(st.one_of(st.sampled_from([0.95, 0.9, 0.68]), S.num(0.55, 0.99, 3))),
            "pv": draw(st.sampled_from(["nominal", "1sigma", "2sigma"])),
            "init": draw(st.sampled_from([[1.0, 1.0], [None, None], [0.5, 3.0], [4.0, 0.2], [None, 2.0], [0.01, None]])),
            "hess": draw(st.booleans()), "mag": draw(st.one_of(st.just(0), st.integers(-6, 4)))}


def exact_cls(cv, e, mu, idx):
    x, xa = cv.obs(e), cv.asimov(e, "qtilde")
    f, fa = (lambda m: -cv.nll(m, x)), (lambda m: -cv.nll(m, xa))
    mh, ma = cv.muhat(x, False), cv.muhat(xa, False)
    q = analytic.q_stat("qtilde", mu, mh, f(mh), f)
    qA = analytic.q_stat("qtilde", mu, ma, fa(ma), fa)
    r = analytic.cls_chain(q, qA, "qtilde")
    if r is None:
        return 0.0
    ob, ex = r
    return 1 - ob[0] if e == "observed" else 1 - ex[idx]


def check_an(c, ev):
    d, k = dict(c["d"]), c.get("mag", 0)
    if k and d["family"] == "gauss":
        # the same curve at another magnitude of the signal strength (limits from 1e-7 to beyond the ceiling 1e5)
        d["x"], d["sigma"] = d["x"] * 10.0**k, d["sigma"] * 10.0**k
        ev.tag("magnitude")
    else:
        k = 0
    m, cv = analytic.make(d, hessian=c["hess"])
    kw = {}
    if c["init"] != [1.0, 1.0]:
        kw = {"low_init": c["init"][0], "hig_init": c["init"][1]}
    if c["pv"] != "nominal":
        kw["expected_pvalue"] = c["pv"]
    if c["cl"] != 0.95:
        kw["confidence_level"] = c["cl"]
    got = m.poi_upper_limit(expected=models.expectation(c["e"]), **kw)
    idx = {"nominal": [2], "1sigma": [1, 2, 3], "2sigma": [0, 1, 2, 3, 4]}[c["pv"]]
    if c["e"] == "observed":
        idx = [2]
    res = [got] if len(idx) == 1 else got
    require(np.ndim(got) == (0 if len(idx) == 1 else 1) and len(res) == len(idx), "number of limits", got=got, want=len(idx))
    for g, i in zip(res, idx):
        fn = lambda mu: exact_cls(cv, c["e"], mu, i) - c["cl"]  # noqa: E731,B023
        hi = 1e-6
        while fn(hi) < 0 and hi < 1e5:
            hi *= 2
        hi = min(hi, 1e5)
        if abs(fn(1e5)) < 1e-3:
            raise Inconclusive("limit at the search ceiling")
        if fn(hi) < 0:
            require(math.isinf(g), "limit beyond the search ceiling must be infinite", got=g)
            ev.tag("infinite")
            continue
        lo = max(cv.muhat(cv.obs(c["e"]), False), 1e-10) if c["e"] == "observed" else 1e-10
        if fn(lo) > 0:
            lo = 1e-10
        if fn(lo) > 0:
            raise Inconclusive("every strength is excluded in floating point (the p-values underflow)")
        want = brentq(fn, lo, hi, xtol=1e-13, rtol=1e-12)
        if d["family"] == "gauss" and want < 1e-4 * abs(d["x"]):
            raise Inconclusive("likelihood differences at the limit cancel below double precision")
        require(abs(g - want) <= 3e-4 * abs(want) + 1e-7 * min(1.0, 10.0**k), "upper limit", got=g, want=want, band=i, case=c)
        ev.mark()
    require(all(a <= b + 1e-9 for a, b in zip(res, res[1:])), "bands are not ascending", got=res)
    ev.tag(c["d"]["family"], c["e"], c["pv"])


@st.composite
def real_case(draw):
    spec = draw(S.model(kinds=inference.CONVEX, max_bins=3, tame=True, sig=(0.1, 0.9)))
    return {"spec": spec, "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "cl": draw(st.one_of(st.sampled_from([0.95]), S.num(0.6, 0.98, 2))), "cl2": draw(S.num(0.005, 0.018, 3)),
            "pv": draw(st.sampled_from(["nominal", "1sigma", "2sigma"])), "scale": draw(S.num(0.3, 3, 2)),
            "init": draw(st.sampled_from([[1.0, 1.0], [None, None], [0.5, 3.0]])), "xsec": draw(S.num(0.001, 9, 3))}


def check_real(c, ev):
    m = models.build(c["spec"], xsection=c["xsec"])
    e = models.expectation(c["e"])
    obs = c["e"] == "observed"
    kw = {"low_init": c["init"][0], "hig_init": c["init"][1]}
    got = m.poi_upper_limit(expected=e, confidence_level=c["cl"], expected_pvalue=c["pv"], **kw)
    idx = [2] if obs or c["pv"] == "nominal" else {"1sigma": [1, 2, 3], "2sigma": [0, 1, 2, 3, 4]}[c["pv"]]
    res = [got] if len(idx) == 1 else list(got)
    require(len(res) == len(idx), "number of limits", got=got)
    require(all(a <= b * (1 + 1e-3) for a, b in zip(res, res[1:])), "bands are not ascending", got=res)
    for g, i in zip(res, idx):
        if not math.isfinite(g):
            # an infinite limit is right only when a huge strength is not excluded
            cl = m.exclusion_confidence_level(1e4, expected=e)
            require(cl[0 if obs else i] < c["cl"], "infinite limit although large strengths are excluded", cl=cl)
            ev.tag("infinite")
            continue
        require(g > 0, "limit must be positive", got=g)
        k = 0 if obs else i
        at = float(m.exclusion_confidence_level(g, expected=e)[k])
        d = 2e-3 * max(g, 1e-6)
        lo = float(m.exclusion_confidence_level(g - d, expected=e)[k])
        hi = float(m.exclusion_confidence_level(g + d, expected=e)[k])
        slack = 4e-3
        require(min(lo, at, hi) - slack <= c["cl"] <= max(lo, at, hi) + slack,
                "exclusion at the limit is not the requested level", limit=g, at=at, below=lo, above=hi, want=c["cl"], band=i)
        ev.mark()
    med = res[idx.index(2)]
    if math.isfinite(med):
        up = m.poi_upper_limit(expected=e, confidence_level=c["cl"] + c["cl2"])
        require(up > med * (1 - 1e-3), "limit falls with the confidence level", low=med, high=up)
        spec2 = dict(c["spec"], s=[x * c["scale"] for x in c["spec"]["s"]])
        muhat = m.maximize_likelihood(expected=e)[0]
        if muhat / c["scale"] < 8 and muhat < 8:
            lim2 = models.build(spec2).poi_upper_limit(expected=e, confidence_level=c["cl"])
            require(abs(lim2 * c["scale"] - med) <= 1.5e-2 * med, "limit does not scale inversely with the signal", base=med,
                    scaled=lim2, factor=c["scale"])
            ev.tag("scaled")
    ref = m.poi_upper_limit(expected=e)
    xs = m.excluded_cross_section(expected=e)
    require(xs == ref * c["xsec"] or abs(xs - ref * c["xsec"]) <= 2e-3 * xs, "excluded cross section = limit x cross section",
            got=xs, limit=ref, xsec=c["xsec"])
    if c["e"] != "aposteriori":
        short = m.s95obs if obs else m.s95exp
        require(short == xs or abs(short - xs) <= 2e-3 * xs, "s95 shorthand", got=short, want=xs)
    ev.tag(c["spec"]["kind"], c["e"], c["pv"])


@st.composite
def mag_case(draw):
    kinds = ("uncorrelated", "correlated", "poisson", "normal")
    spec = draw(S.model(kinds=kinds, max_bins=2, tame=True, sig=(0.1, 0.9)))
    # no excess in any bin: the best fit stays at zero whatever the magnitude of the signal
    f = draw(S.vec(len(spec["b"]), 0.8, 1.0, 2))
    spec = dict(spec, data=[float(math.floor(b * x)) for b, x in zip(spec["b"], f)])
    return {"spec": spec, "exp": draw(S.num(-4.9, 3.0, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"]))}


def check_mag(c, ev):
    """Limits of signals over eight orders of magnitude: limit x magnitude is constant up to the ceiling of the search."""
    e, f = models.expectation(c["e"]), 10.0 ** c["exp"]
    base = float(models.build(c["spec"]).poi_upper_limit(expected=e))
    spec = dict(c["spec"], s=[x * f for x in c["spec"]["s"]])
    if not math.isfinite(base):
        raise Inconclusive("no limit at the base magnitude")
    want = base / f
    if 0.7e5 < want < 1.4e5:
        raise Inconclusive("limit at the search ceiling")
    got = float(models.build(spec).poi_upper_limit(expected=e))
    if want > 1e5:
        require(math.isinf(got), "limit beyond the search ceiling must be infinite", got=got, want=want)
        ev.tag("infinite")
    else:
        require(abs(got - want) <= 2e-2 * want, "limit does not scale inversely with the signal over orders of magnitude",
                got=got, want=want)
        ev.tag("tiny" if want < 1e-3 else "huge" if want > 1e3 else "moderate")
    ev.tag(spec["kind"], c["e"])
    ev.mark(abs(c["exp"]) > 1)


SUBS = [
    Sub("magnitude", mag_case, check_mag, quick=200, thorough=5000, case_timeout=90),
    Sub("analytic", an_case, check_an, quick=1500, thorough=30000),
    Sub("real", real_case, check_real, quick=80, thorough=3000, case_timeout=90),
]

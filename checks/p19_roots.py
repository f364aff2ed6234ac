"""P19: root finding for limits."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from harness import models, strategies as S
from harness.core import Sub, require, require_close

PROPERTY = "P19"
RULE = (
    "bracket: monotone curves with a known crossing over 15 orders of magnitude, random levels, starts and bounds. "
    "limit: exclusion curves built from an increasing Asimov curve g(mu) with a known inverse, so that every observed "
    "and expected limit has a closed form. anchor/narrow: intervals of profiles with a deeper minimum elsewhere, or far narrower than the scan. Non-trivial: a crossing inside the search range that is not the start."
)
BUDGET = {"quick": 200, "thorough": 3000}


def mag(lo, hi):
    return st.builds(lambda m, e: round(m, 4) * 10.0**e, S.num(1, 9.99, 3), st.integers(lo, hi))


@st.composite
def br_case(draw):
    return {"x": draw(mag(-9, 6)), "shape": draw(st.sampled_from(["linear", "log", "tanh", "step", "power"])),
            "loc": draw(st.one_of(st.just(0.0), S.num(-2, 2, 2))), "amp": draw(S.num(0.1, 5, 1)),
            "lo": draw(st.one_of(st.none(), mag(-8, 4))), "hi": draw(st.one_of(st.none(), mag(-8, 4))),
            "lb": draw(st.one_of(st.none(), mag(-9, -3))), "hb": draw(st.one_of(st.none(), mag(1, 5)))}


def curve(shape, x0, amp):
    if shape == "linear":
        return lambda x: amp * (x - x0) / x0
    if shape == "log":
        return lambda x: amp * math.log(x / x0)
    if shape == "tanh":
        return lambda x: amp * math.tanh(math.log(x / x0))
    if shape == "power":
        return lambda x: amp * ((x / x0) ** 0.3 - 1)
    return lambda x: amp if x >= x0 else -amp


def check_br(c, ev):
    from spey.hypothesis_testing.upper_limits import find_root_limits

    f0 = curve(c["shape"], c["x"], c["amp"])
    seen = []

    def f(x):
        seen.append(float(x))
        return f0(float(x)) + c["loc"]

    kw = {}
    for k, n in (("lo", "low_ini"), ("hi", "hig_ini"), ("lb", "low_bound"), ("hb", "hig_bound")):
        if c[k] is not None:
            kw[n] = c[k]
    if c["loc"] != 0.0:
        kw["loc"] = c["loc"]
    low, hig = find_root_limits(f, **kw)
    a, b, fa, fb = low.get_value(-1), hig.get_value(-1), low[-1], hig[-1]
    lb, hb = c["lb"] or 1e-10, c["hb"] or 1e5
    li, hi = c["lo"] or 1.0, c["hi"] or 1.0
    require_close(fa, f0(a) + c["loc"], "stored value of the low end", rtol=1e-12, atol=1e-14)
    require_close(fb, f0(b) + c["loc"], "stored value of the high end", rtol=1e-12, atol=1e-14)
    require(a <= li and b >= hi, "the brackets move away from the start in their own direction", low=a, high=b, case=c)
    require(a >= min(li, lb) and b <= max(hi, hb), "search left its bounds", low=a, high=b, case=c)
    require(all(x > 0 for x in seen), "evaluated a non-positive point", seen=seen[:9])
    if min(li, lb) * 1.0000001 < c["x"]:
        require(fa <= c["loc"] + 1e-12, "low end does not bracket a crossing that lies above the lower bound", low=a, value=fa, case=c)
    if max(hi, hb) > c["x"] * 1.0000001:
        require(fb >= c["loc"] - 1e-12, "high end does not bracket a crossing that lies below the ceiling", high=b, value=fb, case=c)
    inside = min(li, lb) * 1.0000001 < c["x"] < max(hi, hb) / 1.0000001
    if inside:
        require(a <= c["x"] * (1 + 1e-9) and b >= c["x"] * (1 - 1e-9), "bracket does not contain the crossing", low=a, high=b, x=c["x"])
    elif c["x"] > max(hi, hb):
        require(fb < c["loc"], "reported a crossing that does not exist below the ceiling", high=b, value=fb)
        require_close(b, max(hi, hb), "search must stop at the ceiling", rtol=1e-12, atol=0)
    ev.tag(c["shape"], "inside" if inside else "outside")
    ev.mark(inside and len(seen) > 2)


@st.composite
def lim_case(draw):
    return {"scale": draw(mag(-7, 5)), "p": draw(st.sampled_from([1.0, 1.0, 0.5, 0.7, 1.4, 2.0])),
            "shift": draw(S.num(-2, 2.5, 2)), "cl": draw(st.one_of(st.just(0.95), S.num(0.55, 0.99, 3))),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])), "neg": draw(st.booleans()),
            "pv": draw(st.sampled_from(["nominal", "1sigma", "2sigma"])),
            "init": draw(st.sampled_from([[1.0, 1.0], [1e-3, 10.0], [5.0, 0.1], [100.0, 100.0]])), "dflt": draw(st.booleans())}


def check_lim(c, ev):
    """Asimov: q_A = g^2 with g = (mu/scale)^p and muhat_A = 0.  Observed: q = max(g - shift, 0)^2, muhat = g^-1(shift)."""
    from spey.hypothesis_testing.upper_limits import find_poi_upper_limit

    sc, p, d = c["scale"], c["p"], c["shift"]
    g = lambda mu: (max(mu, 0.0) / sc) ** p  # noqa: E731
    ginv = lambda t: sc * t ** (1.0 / p)  # noqa: E731
    muhat = ginv(d) if d > 0 else 0.0
    dd = max(d, 0.0)
    obs = lambda mu: -0.5 * (g(mu) - dd) ** 2 - 7.0  # noqa: E731
    if d < 0:
        # a deficit: the best fit stays at zero (muhat = 0), q = g^2 + 2 |d| g
        obs = lambda mu: -0.5 * (g(mu) ** 2 + 2 * abs(d) * g(mu)) - 7.0  # noqa: E731
    asim = lambda mu: -0.5 * g(mu) ** 2 + 3.0  # noqa: E731
    pv = "nominal" if c["e"] == "observed" else c["pv"]
    kw = {}
    if not (c["dflt"] and c["init"] == [1.0, 1.0]):
        kw = {"low_init": c["init"][0], "hig_init": c["init"][1]}
    got = find_poi_upper_limit(maximum_likelihood=(muhat, -obs(muhat)), logpdf=obs, maximum_asimov_likelihood=(0.0, -asim(0.0)),
                               asimov_logpdf=asim, expected=models.expectation(c["e"]), confidence_level=c["cl"],
                               allow_negative_signal=c["neg"], expected_pvalue=c["pv"], **kw)
    alpha = 1 - c["cl"]
    wants = []
    if c["e"] == "observed":
        from scipy.optimize import brentq

        from harness import analytic

        def excl(t):
            q = 0.0 if t < dd else ((t - dd) ** 2 if d >= 0 else t * t + 2 * abs(d) * t)
            ob, _ = analytic.cls_chain(q, t * t, "q" if c["neg"] else "qtilde")
            return (1 - ob[0]) - c["cl"]

        wants.append(ginv(brentq(excl, max(dd, 1e-9), 30.0, xtol=1e-13, rtol=1e-13)))
    else:
        for n in {"nominal": [0], "1sigma": [1, 0, -1], "2sigma": [2, 1, 0, -1, -2]}[pv]:
            t = -norm.ppf(alpha * norm.cdf(-n)) - n
            wants.append(ginv(t))
    res = [got] if len(wants) == 1 else list(got)
    require(len(res) == len(wants), "number of limits", got=got, want=wants)
    fin = 0
    for r, w in zip(res, wants):
        if w > 1.0001e5 and max(c["init"]) <= 1e5:
            require(math.isinf(r) and r > 0, "a crossing above the ceiling must be reported as infinite", got=r, want=w, case=c)
            ev.tag("above-ceiling")
        elif 1e-9 < w < 0.9999e5:
            require(abs(r - w) <= 2.5e-4 * w + 1e-11, "limit is not the crossing", got=r, want=w, case=c)
            fin += 1
        else:
            ev.tag("edge")
    ev.tag(c["e"], pv)
    ev.mark(fin > 0)


@st.composite
def multi_case(draw):
    """A likelihood with two separated minima: every crossing must be found by a fine scan."""
    return {"a": draw(S.num(-3, -0.5, 2)), "w": draw(S.num(0.3, 1.0, 2)), "gap": draw(S.num(2.5, 6, 2)), "w2": draw(S.num(0.3, 1.0, 2)),
            "depth": draw(S.num(0, 1.2, 2)), "cl": draw(st.sampled_from([0.95, 0.9, 0.68])), "side": draw(st.sampled_from(["two-sided", "right", "left"]))}


def check_multi(c, ev):
    from spey.base.hypotest_base import HypothesisTestingBase
    from scipy.optimize import brentq
    from scipy.stats import chi2 as chi2d

    m1, m2 = c["a"], c["a"] + c["gap"]

    def nll(x):
        u, v = 0.5 * ((x - m1) / c["w"]) ** 2, 0.5 * ((x - m2) / c["w2"]) ** 2 + c["depth"]
        return -np.logaddexp(-u, -v)

    class M(HypothesisTestingBase):
        is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True

        def likelihood(self, poi_test=1.0, **kw):
            return float(nll(poi_test))

        def maximize_likelihood(self, **kw):
            return best, float(nll(best))

        def asimov_likelihood(self, poi_test=1.0, **kw):
            return 0.5 * poi_test**2

        def maximize_asimov_likelihood(self, **kw):
            return 0.0, 0.0

        def fixed_poi_sampler(self, *a, **k):
            raise NotImplementedError

    from scipy.optimize import minimize_scalar

    best = minimize_scalar(nll, bounds=(m1 - 0.5, m1 + 0.5), method="bounded", options={"xatol": 1e-12}).x
    thr = chi2d.isf(1 - c["cl"], 1)
    f = lambda x: 2 * (nll(x) - nll(best)) - thr  # noqa: E731
    xs = np.linspace(m1 - 12, m2 + 12, 40001)
    v = np.array([f(x) for x in xs])
    i = np.nonzero(v[:-1] * v[1:] < 0)[0]
    exact = [brentq(f, xs[k], xs[k + 1], xtol=1e-12) for k in i]
    if any(b - a < 0.25 for a, b in zip(exact, exact[1:])):
        ev.tag("narrow")
        return
    if c["side"] == "left":
        exact = [x for x in exact if x < best]
    if c["side"] == "right":
        exact = [x for x in exact if x > best]
    # the automatic window is +-3 around the best fit (unit Asimov width gives +-6): only crossings inside are promised
    hi = best + 6.0
    if any(x > hi - 0.1 for x in exact):
        ev.tag("window")
        return
    got = M(ntoys=2).chi2_test(confidence_level=c["cl"], limit_type=c["side"], n_scan=241, n_multistart=9, allow_negative_signal=True)
    require(len(got) == len(exact), "every crossing of a non-convex profile is returned", got=got, want=exact, case=c)
    for a, b in zip(got, exact):
        require(abs(a - b) <= 3e-4 * abs(b) + 1e-6, "crossing", got=got, want=exact)
    ev.tag("multi" if len(exact) > 2 or (c["side"] != "two-sided" and len(exact) > 1) else "single", c["side"])
    ev.mark(len(exact) > 1)


@st.composite
def solve_case(draw):
    """Walks of the interval search on either side of a peak at the origin; ``sign`` mirrors the axis."""
    return {"x": draw(mag(-4, 4)), "shape": draw(st.sampled_from(["linear", "log", "tanh", "power", "cubic"])), "amp": draw(S.num(0.1, 5, 1)),
            "sign": draw(st.sampled_from([1.0, -1.0])), "inner": draw(mag(-4, 4)), "outer": draw(mag(-4, 4)),
            "grow": draw(S.num(1.3, 3, 1)), "shrink": draw(S.num(0.2, 0.8, 1)), "cap": draw(mag(0, 4)), "floor": draw(mag(-5, -1)),
            "retry": draw(st.one_of(st.none(), mag(-4, 4))), "rfloor": draw(mag(-5, -1)),
            "tol": draw(st.sampled_from([{}, {}, {"rtol": 1e-9}, {"xtol": 1e-12, "rtol": 1e-6}, {"maxiter": 300}]))}


def check_solve(c, ev):
    """The documented walk, followed independently, and the root against the known crossing."""
    from spey.hypothesis_testing.upper_limits import bracket_and_solve

    sg, x0 = c["sign"], c["x"]
    f0 = (lambda x: c["amp"] * ((x / x0) ** 3 - 1)) if c["shape"] == "cubic" else curve(c["shape"], x0, c["amp"])
    calls = []

    def f(x):
        require(x * sg > 0, "the search left its side of the peak", x=x, sign=sg)
        calls.append(float(x))
        return f0(abs(float(x)))

    grow, shrink = (lambda h: h * c["grow"]), (lambda h: h * c["shrink"])
    kw = dict(c["tol"])
    if c["retry"] is not None:
        kw.update(retry_inner=sg * c["retry"], retry_stop=lambda v: abs(v) <= c["rfloor"])
    got = bracket_and_solve(f, sg * c["inner"], sg * c["outer"], grow, shrink, lambda v: abs(v) >= c["cap"], lambda v: abs(v) <= c["floor"], **kw)
    out = c["outer"]
    while f0(out) < 0 and out < c["cap"]:
        out = grow(out)
    inn = c["inner"]
    while f0(inn) > 0 and inn > c["floor"]:
        inn = shrink(inn)
    if np.sign(f0(inn)) == np.sign(f0(out)) and c["retry"] is not None:
        inn = c["retry"]
        while f0(inn) > 0 and inn > c["rfloor"]:
            inn = shrink(inn)
        ev.tag("retry")
    near = min(abs(f0(v) / c["amp"]) for v in (inn, out)) < 1e-9
    if near or any(abs(v - e) < 1e-9 * e for v, e in ((out, c["cap"]), (inn, c["floor"]), (inn, c["rfloor"]))):
        return
    require_close(got[0] * sg, inn, "inner end of the walk", rtol=1e-12, atol=0)
    require_close(got[1] * sg, out, "outer end of the walk", rtol=1e-12, atol=0)
    if np.sign(f0(inn)) == np.sign(f0(out)):
        require(math.isnan(got[2]), "a root without a bracket", got=got)
        ev.tag("no-bracket")
        return
    rt = c["tol"].get("rtol", 1e-4)
    require(abs(got[2] * sg - x0) <= 2.1 * rt * x0 + 5e-12, "root of the interval search", got=got, want=sg * x0, tol=c["tol"])
    ev.tag("root")
    ev.mark(inn != c["inner"] or out != c["outer"])


def one_dim(nll, asim, best):
    """A user-written calculator whose profile likelihood is a given function of the signal strength."""
    from spey.base.hypotest_base import HypothesisTestingBase

    class M(HypothesisTestingBase):
        is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True

        def likelihood(self, poi_test=1.0, **kw):
            return float(nll(poi_test))

        def maximize_likelihood(self, **kw):
            return best, float(nll(best))

        def asimov_likelihood(self, poi_test=1.0, **kw):
            return float(asim(poi_test))

        def maximize_asimov_likelihood(self, **kw):
            return 0.0, float(asim(0.0))

        def fixed_poi_sampler(self, *a, **k):
            raise NotImplementedError

    return M(ntoys=2)


@st.composite
def anchor_case(draw):
    """Two minima, the fit reports the shallower one: the interval is still measured from the deeper one."""
    return {"a": draw(S.num(-3, -0.5, 2)), "w": draw(S.num(0.4, 1.0, 2)), "gap": draw(S.num(2.5, 4, 2)), "w2": draw(S.num(0.4, 1.0, 2)),
            "depth": draw(st.one_of(S.num(0.06, 0.2, 3), S.num(0.06, 1.2, 2))), "cl": draw(st.sampled_from([0.95, 0.9, 0.68])),
            "mirror": draw(st.booleans())}


def check_anchor(c, ev):
    from scipy.optimize import brentq, minimize_scalar
    from scipy.stats import chi2 as chi2d

    sg = -1.0 if c["mirror"] else 1.0
    m1, m2 = c["a"], c["a"] + c["gap"]

    def nll0(x):
        u, v = 0.5 * ((x - m1) / c["w"]) ** 2, 0.5 * ((x - m2) / c["w2"]) ** 2 + c["depth"]
        return -np.logaddexp(-u, -v)

    nll = lambda x: nll0(sg * x)  # noqa: E731
    best, local = (sg * minimize_scalar(nll0, bounds=(m - 0.3, m + 0.3), method="bounded", options={"xatol": 1e-12}).x for m in (m1, m2))
    if nll(local) - nll(best) < 0.06:
        ev.tag("level")
        return
    thr = chi2d.isf(1 - c["cl"], 1)
    f = lambda x: 2 * (nll(x) - nll(best)) - thr  # noqa: E731
    lo, hi = min(sg * m1, sg * m2) - 12, max(sg * m1, sg * m2) + 12
    xs = np.linspace(lo, hi, 30001)
    v = np.array([f(x) for x in xs])
    exact = [brentq(f, xs[k], xs[k + 1], xtol=1e-12) for k in np.nonzero(v[:-1] * v[1:] < 0)[0]]
    if any(b - a < 0.25 for a, b in zip(exact, exact[1:])) or any(abs(x - local) > 5.9 for x in exact):
        ev.tag("window")
        return
    got = one_dim(nll, lambda x: 0.5 * x * x, local).chi2_test(confidence_level=c["cl"], limit_type="two-sided", n_scan=241, n_multistart=81,
                                                               allow_negative_signal=True)
    require(len(got) == len(exact), "the interval is not measured from the deeper minimum", got=got, want=exact, case=c)
    for a, b in zip(got, exact):
        require(abs(a - b) <= 3e-4 * abs(b) + 1e-6, "the interval is not measured from the deeper minimum", got=got, want=exact, case=c)
    ev.tag(f"n{len(exact)}")
    ev.mark(True)


@st.composite
def narrow_case(draw):
    """A peak much narrower than the scan, possibly exactly at zero or far from it."""
    return {"b": draw(st.one_of(st.just(0.0), S.num(-3, 3, 2), S.num(5, 80, 2))), "w": draw(st.one_of(mag(-3, -2), S.num(0.1, 0.5, 2))),
            "skew": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), "n": draw(st.sampled_from([24, 61, 120, 121])),
            "cl": draw(st.sampled_from([0.95, 0.9, 0.68])), "side": draw(st.sampled_from(["two-sided", "right", "left"]))}


def check_narrow(c, ev):
    from scipy.stats import chi2 as chi2d

    b, wl, wr = c["b"], c["w"], c["w"] * c["skew"]
    nll = lambda x: 0.5 * ((x - b) / (wl if x < b else wr)) ** 2 + 11.0  # noqa: E731
    t = math.sqrt(chi2d.isf(1 - c["cl"], 1))
    want = {"two-sided": [b - t * wl, b + t * wr], "left": [b - t * wl], "right": [b + t * wr]}[c["side"]]
    got = one_dim(nll, lambda x: 0.5 * x * x, b).chi2_test(confidence_level=c["cl"], limit_type=c["side"], n_scan=c["n"], allow_negative_signal=True)
    require(len(got) == len(want), "ends of a narrow interval", got=got, want=want, case=c)
    for x, y in zip(got, want):
        require(abs(x - y) <= 2.5e-4 * abs(y) + 1e-9, "ends of a narrow interval", got=got, want=want, case=c)
    ev.tag("at-zero" if b == 0 else ("far" if b > 4 else "near"), c["side"])
    ev.mark(c["w"] < 0.1)


SUBS = [
    Sub("anchor", anchor_case, check_anchor, quick=120, thorough=4000),
    Sub("narrow", narrow_case, check_narrow, quick=400, thorough=20000),
    Sub("interval", solve_case, check_solve, quick=3000, thorough=100000),
    Sub("bracket", br_case, check_br, quick=6000, thorough=200000),
    Sub("limit", lim_case, check_lim, quick=800, thorough=40000),
    Sub("crossings", multi_case, check_multi, quick=150, thorough=3000),
]

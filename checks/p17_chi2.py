"""P17: chi-square, pull and chi-square intervals agree with the profile likelihood."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq
from scipy.stats import chi2 as chi2dist

from harness import analytic, inference, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P17"
RULE = (
    "analytic: closed-form likelihoods, chi-square/pull/intervals against exact values and bisection. "
    "real: generated models, chi-square in every addressing form against reference fits. intervals: limits of the "
    "signal strength and of nuisances, the reference profile evaluated at the returned points. "
    "Non-trivial: a non-zero chi-square or an interval with a crossing."
)
BUDGET = {"quick": 240, "thorough": 3600}


@st.composite
def an_case(draw):
    d = draw(analytic.strategy())
    if d["family"] == "poisson":
        d["x"] = max(1.0, d["x"])
    return {"d": d, "mu": draw(S.num(-2, 6, 2)), "scan": draw(st.lists(S.num(-2, 6, 2), min_size=1, max_size=4)),
            "den": draw(st.one_of(st.none(), S.num(-1, 3, 2), st.just(0.0))), "neg": draw(st.booleans()),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "cl": draw(st.one_of(st.sampled_from([0.95, 0.68, 0.9]), S.num(0.1, 0.99, 3))),
            "side": draw(st.sampled_from(["left", "right", "two-sided"])), "negl": draw(st.sampled_from([None, None, True, False])),
            "nscan": draw(st.sampled_from([None, None, 3, 4, 5, 8, 21, 121])), "nms": draw(st.sampled_from([None, None, 2, 3, 9])),
            "hess": draw(st.booleans())}


def crossing(f, start, sign):
    """The exact point on that side of a convex curve's minimum where f crosses zero."""
    t = 1e-9
    while f(start + sign * t) < 0:
        t *= 2
        if t > 2e5:
            return None
    return brentq(f, start, start + sign * t, xtol=1e-13, rtol=1e-13)


def check_an(c, ev):
    if c.get("__known__"):  # replay of the recorded finding: the documented dictionary form of pull()
        import spey

        m = spey.get_backend("default.uncorrelated_background")(**c["model"])
        m.pull(poi_test={0: c["value"]})
        return
    m, cv = analytic.make(c["d"], hessian=c["hess"])
    e, x = models.expectation(c["e"]), cv.obs(c["e"])
    ref = cv.nll(cv.muhat(x, c["neg"]), x) if c["den"] is None else cv.nll(c["den"], x)
    want = lambda p: 2 * (cv.nll(p, x) - ref)  # noqa: E731
    kw = {"expected": e, "allow_negative_signal": c["neg"]}
    if c["den"] is not None:
        kw["poi_test_denominator"] = c["den"]
    tol = dict(rtol=1e-9, atol=1e-8)
    require_close(float(m.chi2(c["mu"], **kw)), want(c["mu"]), "chi2", case=c, **tol)
    for scan in (list(c["scan"]), np.array(c["scan"]), tuple(c["scan"])):
        got = m.chi2(scan, **kw)
        require(np.shape(got) == (len(c["scan"]),), "shape of a chi2 scan", shape=np.shape(got))
        for g, p in zip(got, c["scan"]):
            require_close(float(g), want(p), "chi2 scan element", case=c, **tol)
    got = m.chi2({0: list(c["scan"])}, **kw)
    for g, p in zip(got, c["scan"]):
        require_close(float(g), want(p), "chi2 dictionary scan element", case=c, **tol)
    mh = cv.muhat(x, c["neg"])
    pull = lambda p: math.copysign(math.sqrt(max(0.0, 2 * (cv.nll(p, x) - cv.nll(mh, x)))), mh - p) if mh != p else 0.0  # noqa: E731
    ptol = dict(rtol=1e-7, atol=2e-7)
    require_close(float(m.pull(c["mu"], expected=e, allow_negative_signal=c["neg"])), pull(c["mu"]), "pull", case=c, **ptol)
    got = m.pull(list(c["scan"]), expected=e, allow_negative_signal=c["neg"])
    for g, p in zip(got, c["scan"]):
        require_close(float(g), pull(p), "pull of several points", case=c, **ptol)
    # intervals
    side, cl = c["side"], c["cl"]
    negp = bool(c["negl"]) or side != "right"
    mh = cv.muhat(x, negp)
    thr = chi2dist.isf(1 - cl, 1)
    f = lambda p: 2 * (cv.nll(p, x) - cv.nll(mh, x)) - thr  # noqa: E731
    exact = []
    if side != "right":
        exact.append(crossing(f, mh, -1))
    if side != "left":
        exact.append(crossing(f, mh, 1))
    kw = {"n_scan": c["nscan"], "n_multistart": c["nms"], "allow_negative_signal": c["negl"]}
    kw = {k: v for k, v in kw.items() if v is not None}
    got = m.chi2_test(expected=e, confidence_level=cl, limit_type=side, **kw)
    require(len(got) == len(exact), "number of interval ends", got=got, want=exact, case=c)
    for g, w in zip(got, exact):
        require(abs(g - w) <= 3e-4 * abs(w) + 1e-6, "chi-square interval end", got=got, want=exact, muhat=mh, case=c)
    ev.tag(c["d"]["family"], side, c["e"])
    ev.mark()


def named(model, ref):
    cfg = model.backend.config()
    if cfg.parameter_names is None:
        cfg.parameter_names = ["mu"] + [f"n{i}" for i in range(1, ref.npar)]
    return list(cfg.parameter_names)


@st.composite
def real_case(draw):
    spec = draw(S.model(kinds=inference.CONVEX, max_bins=3, tame=True, sig=(0.1, 0.9)))
    return {"spec": spec, "mu": draw(S.num(0, 3, 2)), "mu2": draw(S.num(0, 3, 2)), "theta": draw(S.num(-1, 1, 2)), "den": draw(st.one_of(st.none(), S.num(0, 2, 2))),
            "dtheta": draw(st.one_of(st.none(), S.num(-1, 1, 2))),
            "neg": draw(st.booleans()), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])), "which": draw(st.integers(0, 9))}


def check_real(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    m = models.build(spec)
    e = models.expectation(c["e"])
    data = ref.b if c["e"] == "apriori" else ref.data
    lo = ref.minimum_poi if c["neg"] else 0.0
    cache = {}

    def nll(fixed):
        key = tuple(sorted(fixed.items()))
        if key not in cache:
            v, p = ref.minimise(data, fixed=fixed)
            if p is None:
                raise Inconclusive("reference fit failed")
            cache[key] = v
        return cache[key]

    def phys(fixed):
        return all(ref.b[i - ref.th0] + unc * fixed[i] > 0.3 for i, unc in
                   ((i, (ref.unc if ref.kind == "uncorrelated" else ref.B)[i - ref.th0]) for i in fixed if ref.constrained and i >= ref.th0))

    best, pars = ref.minimise(data, poi_bounds=(lo, 10.0))
    if pars is None:
        raise Inconclusive("reference fit failed")
    names = named(m, ref)
    kw = {"expected": e, "allow_negative_signal": c["neg"]}
    tol = 1.5e-3
    mu, mu2 = c["mu"], c["mu2"]
    if c["den"] is not None:
        den = {0: c["den"]}
        kw["poi_test_denominator"] = c["den"]
        if c["dtheta"] is not None and ref.constrained:
            den[1 + c["which"] % ref.n_theta] = c["dtheta"]
            if not phys(den):
                raise Inconclusive("unphysical reference point")
            kw["poi_test_denominator"] = dict(den) if names is None else {names[i]: v for i, v in den.items()}
            ev.tag("named-denominator")
        base = nll(den)
    else:
        base = best
    want = 2 * (nll({0: mu}) - base)
    want2 = 2 * (nll({0: mu2}) - base)
    require(abs(float(m.chi2(mu, **kw)) - want) < tol + 1e-3 * abs(want), "chi2", got=float(m.chi2(mu, **kw)), want=want)
    for form in ([mu, mu2], {0: [mu, mu2]}) + (({names[0]: np.array([mu, mu2])},) if names else ()):
        got = m.chi2(form, **kw)
        require(np.shape(got) == (2,), "shape of a scan", shape=np.shape(got))
        for g, w in zip(got, (want, want2)):
            require(abs(float(g) - w) < tol + 1e-3 * abs(w), "chi2 scan", form=str(form), got=list(map(float, got)), want=[want, want2])
    if ref.constrained:
        i = 1 + c["which"] % ref.n_theta
        if phys({i: c["theta"]}):
            w = 2 * (nll({0: mu, i: c["theta"]}) - base)
            for form in ({0: mu, i: c["theta"]}, {names[0]: mu, names[i]: c["theta"]}, {0: mu, names[i]: c["theta"]}):
                g = float(m.chi2(form, **kw))
                require(abs(g - w) < tol + 1e-3 * abs(w), "chi2 of two pinned parameters", form=str(form), got=g, want=w)
            g = m.chi2({names[0]: [mu, mu2], i: c["theta"]}, **kw)
            for a, v in zip(g, (mu, mu2)):
                w = 2 * (nll({0: v, i: c["theta"]}) - base)
                require(abs(float(a) - w) < tol + 1e-3 * abs(w), "scan with another pinned parameter", got=list(map(float, g)), want=w)
            # a pinned nuisance alone: the strength is profiled over the region of the denominator
            lo2 = ref.minimum_poi if c["den"] is not None else lo
            v, p = ref.minimise(data, fixed={i: c["theta"]}, poi_bounds=(lo2, 10.0))
            if p is not None and (lo2 == 0.0 or p[0] > 0.95 * lo2):
                w = 2 * (v - base)
                for form in ({i: c["theta"]}, {names[i]: [c["theta"]]}):
                    g = float(np.ravel(m.chi2(form, **kw))[0])
                    require(abs(g - w) < tol + 1e-3 * abs(w), "chi2 of a pinned nuisance", form=str(form), got=g, want=w, negative=c["neg"], strength=float(p[0]))
                ev.tag("nuisance-only" + ("-negative" if p[0] < -0.05 else "-at-zero" if abs(p[0]) < 1e-6 else ""))
            # scanned nuisance at fixed strength
            g = m.chi2({0: mu, names[i]: [c["theta"], 0.0]}, **kw)
            for a, v in zip(g, (c["theta"], 0.0)):
                w = 2 * (nll({0: mu, i: v}) - base)
                require(abs(float(a) - w) < tol + 1e-3 * abs(w), "scan of a nuisance", got=list(map(float, g)), want=w)
            ev.tag("nuisance")
    if c["den"] is None:
        got = m.pull([mu, mu2], **kw)
        for g, p, w in zip(got, (mu, mu2), (want, want2)):
            require(abs(float(g) ** 2 - max(w, 0.0)) < tol + 1e-3 * abs(w), "pull squared is not the chi-square", got=float(g), chi2=w)
            require(abs(g) < 0.05 or (g > 0) == (pars[0] > p), "sign of the pull", got=float(g), muhat=pars[0], mu=p)
    ev.tag(ref.kind, c["e"], "reference" if c["den"] is not None else "best-fit")
    ev.mark(abs(want) > 0.05)


@st.composite
def int_case(draw):
    par = draw(st.sampled_from([None, "index", "name"]))
    kinds = inference.CONVEX if par is None else ("uncorrelated", "correlated")
    spec = draw(S.model(kinds=kinds, max_bins=3, tame=True, sig=(0.1, 0.9)))
    if par is not None:
        # the scan starts 10 standard deviations away from the best fit: keep the background positive there
        if spec["kind"] == "uncorrelated":
            f = min([1.0] + [0.07 * b / u for b, u in zip(spec["b"], spec["unc"])])
            spec["unc"] = [round(f * u, 5) for u in spec["unc"]]
        else:
            f = min([1.0] + [0.07 * b / math.sqrt(spec["cov"][i][i]) for i, b in enumerate(spec["b"])])
            spec["cov"] = (np.array(spec["cov"]) * f * f).tolist()
    return {"spec": spec, "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "cl": draw(st.one_of(st.sampled_from([0.95, 0.68]), S.num(0.3, 0.97, 2))),
            "side": draw(st.sampled_from(["left", "right", "two-sided"])),
            "par": par, "which": draw(st.integers(0, 9)),
            "poi": draw(st.one_of(st.none(), st.sampled_from([0.0, 1.0]), S.num(0, 2, 1)))}


def check_int(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    m = models.build(spec)
    e = models.expectation(c["e"])
    data = ref.b if c["e"] == "apriori" else ref.data
    thr = chi2dist.isf(1 - c["cl"], 1)
    side = c["side"]
    kw = dict(expected=e, confidence_level=c["cl"], limit_type=side)
    if c["par"] is None or not ref.constrained:
        i, fixed = 0, {}
        neg = side != "right"
        lo = ref.minimum_poi if neg else 0.0
        best, pars = ref.minimise(data, poi_bounds=(lo, 10.0))
        floor, top = 0.97 * ref.minimum_poi, 40.0
    else:
        i = 1 + c["which"] % ref.n_theta
        fixed = {} if c["poi"] is None else {0: c["poi"]}
        if c["poi"] is None:
            best, pars = ref.minimise(data)
        else:
            best, pars = ref.minimise(data, fixed=fixed)
        unc = (ref.unc if ref.kind == "uncorrelated" else ref.B)[i - 1]
        floor, top = -0.97 * ref.b[i - 1] / unc, 9.5
        name = named(m, ref)[i]
        kw.update(parameter=i if c["par"] == "index" else name, poi_value=c["poi"])
    if pars is None:
        raise Inconclusive("reference fit failed")
    if i != 0 and c["poi"] is None and not ref.minimum_poi + 0.05 < pars[0] < 9.5:
        raise Inconclusive("best fit at the bound of the strength")
    if i == 0 and pars[0] > 9.5:
        raise Inconclusive("best fit at the bound of the strength")

    def f(v):
        fx = dict(fixed)
        fx[i] = float(v)
        val, p = ref.minimise(data, fixed=fx, starts=[pars])
        if p is None:
            raise Inconclusive("reference profile failed")
        return 2 * (val - best)

    centre = pars[i]
    need = (["left"] if side != "right" else []) + (["right"] if side != "left" else [])
    for s in need:
        edge = floor if s == "left" else top
        if (s == "left" and centre <= edge) or f(edge) < thr + 0.3:
            raise Inconclusive("no crossing inside the physical region")
    got = m.chi2_test(**kw)
    require(len(got) == len(need), "number of interval ends", got=got)
    for s, g in zip(need, got):
        require(math.isfinite(g), "interval end is not finite", got=got)
        require(g < centre + 1e-2 if s == "left" else g > centre - 1e-2, "interval end on the wrong side", side=s, got=g, best=centre)
        at = f(g)
        require(abs(at - thr) < 6e-3 + 6e-3 * thr, "profile chi-square at the interval end", at=at, want=thr, end=g, side=s, best=centre)
    ev.tag(ref.kind, side, "strength" if i == 0 else f"nuisance-{c['par']}-{'free' if c['poi'] is None else 'pinned'}")
    ev.mark()


@st.composite
def dis_case(draw):
    n = draw(st.integers(2, 3))
    return {"x": [draw(S.num(-2.5, -1.5, 2)), draw(S.num(-0.3, 0.3, 2)), draw(S.num(1.5, 2.5, 2))][:n],
            "w": [draw(S.num(0.15, 0.45, 2)) for _ in range(n)], "d": [draw(S.num(0.0, 1.3, 2)) for _ in range(n)],
            "best": draw(st.integers(0, n - 1)), "cl": draw(st.sampled_from([0.9, 0.8, 0.68, 0.95])),
            "side": draw(st.sampled_from(["two-sided", "right", "left"])), "k": draw(S.num(0.5, 20, 1)),
            "fit": draw(st.one_of(st.none(), st.integers(0, n - 1)))}


def check_dis(c, ev):
    """Disjoint allowed regions: a fine scan returns every crossing on the requested side."""
    from scipy.optimize import brentq, minimize_scalar
    from scipy.stats import chi2 as chi2d
    from spey.base.hypotest_base import HypothesisTestingBase

    depth = [0.0 if i == c["best"] else 0.05 + d for i, d in enumerate(c["d"])]

    def nll(x):
        return float(-np.logaddexp.reduce([-0.5 * ((x - m) / w) ** 2 - d for m, w, d in zip(c["x"], c["w"], depth)])) + c["k"]

    def well(m0):
        return float(minimize_scalar(nll, bounds=(m0 - 0.2, m0 + 0.2), method="bounded", options={"xatol": 1e-12}).x)

    best = well(c["x"][c["best"]])
    # the fit may have ended in another well: the multi-start scan then finds the deepest one
    fit = best if c.get("fit") is None else well(c["x"][c["fit"]])

    class M(HypothesisTestingBase):
        is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True

        def likelihood(self, poi_test=1.0, return_nll=True, **kw):
            return nll(float(poi_test)) if return_nll else math.exp(-nll(float(poi_test)))

        def maximize_likelihood(self, **kw):
            return fit, nll(fit)

        def asimov_likelihood(self, poi_test=1.0, **kw):
            return 0.5 * poi_test**2

        def maximize_asimov_likelihood(self, **kw):
            return 0.0, 0.0

        def fixed_poi_sampler(self, *a, **k):
            raise NotImplementedError

    thr = chi2d.ppf(c["cl"], 1)
    f = lambda x: 2 * (nll(x) - nll(best)) - thr  # noqa: E731
    # the automatic window reaches at least three (unit Asimov width: six) to both sides of the best fit
    xs = np.linspace(fit - 6.0, fit + 6.0, 12001)
    v = np.array([f(x) for x in xs])
    i = np.nonzero(v[:-1] * v[1:] < 0)[0]
    exact = [brentq(f, xs[k], xs[k + 1], xtol=1e-12) for k in i]
    if any(b - a < 0.15 for a, b in zip(exact, exact[1:])) or np.min(np.abs(v[np.r_[False, (v[1:-1] - v[:-2]) * (v[2:] - v[1:-1]) < 0, False]])) < 1e-2:
        raise Inconclusive("crossings closer than the scan step, or a tangential one")
    if c["side"] != "two-sided":
        exact = [x for x in exact if (x < best) == (c["side"] == "left")]
    got = M(ntoys=2).chi2_test(confidence_level=c["cl"], limit_type=c["side"], n_scan=301, n_multistart=9 if fit == best else 201, allow_negative_signal=True)
    require(len(got) == len(exact), "crossings of disjoint regions", got=got, want=exact)
    for a, b in zip(got, exact):
        require(abs(a - b) <= 3e-4 * abs(b) + 1e-6, "crossing of a disjoint region", got=got, want=exact)
    ev.tag(c["side"], f"{len(exact)}-crossings", "fitted" if fit == best else "other-well")
    ev.mark(len(exact) > (2 if c["side"] == "two-sided" else 1))


@st.composite
def far_case(draw):
    size = lambda lo, hi: round(draw(S.num(1, 9.9, 2)) * 10.0 ** draw(st.integers(lo, hi)), 8)  # noqa: E731
    return {"mh": draw(st.one_of(st.just(0.0), st.builds(lambda s, v: s * v, st.sampled_from([1.0, 1.0, -1.0]), st.just(size(-2, 3))))),
            "wl": size(-3, 3), "wr": size(-3, 3), "wa": size(-3, 3), "cl": draw(st.one_of(st.sampled_from([0.95, 0.68]), S.num(0.3, 0.99, 2))),
            "side": draw(st.sampled_from(["left", "right", "two-sided"])), "neg": draw(st.booleans()), "k": draw(S.num(-50, 50, 1)),
            "kw": draw(st.sampled_from([{}, {}, {"xtol": 1e-9}, {"rtol": 1e-6}, {"maxiter": 500}, {"xtol": 1e-9, "rtol": 1e-6, "maxiter": 500}]))}


def check_far(c, ev):
    """The width of the profile is unrelated to the Asimov width: the ends lie far outside the automatic scan window, or close together in it."""
    from spey.base.hypotest_base import HypothesisTestingBase

    neg = c["neg"] or c["side"] != "right"
    mh = c["mh"] if neg else max(c["mh"], 0.0)

    def nll(x):
        return 0.5 * ((x - c["mh"]) / (c["wl"] if x < c["mh"] else c["wr"])) ** 2 + c["k"]

    seen = []

    class M(HypothesisTestingBase):
        is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True

        def likelihood(self, poi_test=1.0, return_nll=True, **kw):
            return nll(float(poi_test)) if return_nll else math.exp(-nll(float(poi_test)))

        def maximize_likelihood(self, allow_negative_signal=True, **kw):
            seen.append(allow_negative_signal)
            return mh, nll(mh)

        def asimov_likelihood(self, poi_test=1.0, **kw):
            return 0.5 * (poi_test / c["wa"]) ** 2

        def maximize_asimov_likelihood(self, **kw):
            return 0.0, 0.0

        def fixed_poi_sampler(self, *a, **k):
            raise NotImplementedError

    thr = chi2dist.ppf(c["cl"], 1)
    exact = []
    if c["side"] != "right":
        exact.append(c["mh"] - c["wl"] * math.sqrt(thr))
    if c["side"] != "left":
        exact.append(c["mh"] + c["wr"] * math.sqrt(thr + ((mh - c["mh"]) / c["wl"]) ** 2) if mh == c["mh"] else
                     brentq(lambda x: 2 * (nll(x) - nll(mh)) - thr, mh, mh + 1e5))
    got = M(ntoys=2).chi2_test(confidence_level=c["cl"], limit_type=c["side"], allow_negative_signal=c["neg"], **c["kw"])
    require(seen[0] == neg, "negative signals in the fit of the interval", got=seen[0], want=neg)
    require(len(got) == len(exact), "number of interval ends", got=got, want=exact)
    for g, w in zip(got, exact):
        require(abs(g - w) <= 3e-4 * abs(w) + 1e-6, "chi-square interval end", got=got, want=exact, muhat=mh)
    ev.tag(c["side"])
    ev.mark()


SUBS = [
    Sub("far", far_case, check_far, quick=600, thorough=20000),
    Sub("disjoint", dis_case, check_dis, quick=200, thorough=5000),
    Sub("analytic", an_case, check_an, quick=1500, thorough=30000),
    Sub("real", real_case, check_real, quick=160, thorough=4000, case_timeout=90),
    Sub("intervals", int_case, check_int, quick=200, thorough=5000, case_timeout=90),
]

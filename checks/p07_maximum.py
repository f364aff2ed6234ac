"""P07: maximum likelihood = optimum of the allowed region."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P07"
RULE = (
    "A case is a model, a data choice (observed, pre-fit, supplied), whether negative signals are "
    "allowed, optional caller bounds / start values, optional requested parameters and a list of "
    "probe signal strengths. Non-trivial: the best fit is strictly inside the bounds or the case "
    "has nuisance parameters. many_bins: 15-80 bins against a bounded quasi-Newton search, to 0.05."
)
ASSUMPTIONS = [
    "Global optimality is required for models with a single optimum (log-concave, no signal-side "
    "parameters) to 1e-4; for others the maximum must not be beaten by the profile at the best fit.",
    "edge: models with uncertainties of 40-250% of the background are searched with at least one event in every bin; "
    "with empty bins the fit may stop up to 0.25 short once a bin runs out of background (one such input is listed as known).",
]
CONVEX = ("uncorrelated", "correlated", "poisson", "normal", "mvn")


@st.composite
def case(draw):
    spec = draw(S.model(max_bins=4, tame=True, modifiers=True, signal_fn=True, sig=(0.08, 1.0)))
    n = len(spec["b"])
    c = {
        "spec": spec,
        "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
        "neg": draw(st.sampled_from([True, False, None])),
        "data": draw(st.one_of(st.none(), st.just(True).flatmap(lambda _: S.vec(n, 0.5, 1.6, 2)))),
        "bounds": draw(st.one_of(st.none(), st.tuples(S.num(-0.4, 0.3, 2), S.num(0.4, 4, 2)))),
        "init": draw(st.one_of(st.none(), S.num(0.0, 2, 2))),
        "grad": draw(st.sampled_from([True, True, True, False])),
        "probe": draw(S.vec(3, 0.0, 1.0, 3)),
    }
    return c


def check(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    data = None if c["data"] is None else [round(r * b, 2) for r, b in zip(c["data"], spec["b"])]
    rdata = np.array(data) if data is not None else (ref.b if c["expected"] == "apriori" else ref.data)
    allow = True if c["neg"] is None else c["neg"]
    lo = ref.minimum_poi if allow else 0.0
    hi = 10.0
    kw = dict(expected=exp, data=data, do_grad=c["grad"])
    if c["neg"] is not None:
        kw["allow_negative_signal"] = c["neg"]
    if c["bounds"] is not None:
        b = [list(x) for x in model.backend.config().suggested_bounds]
        lo, hi = max(c["bounds"][0], ref.minimum_poi), c["bounds"][1]
        b[0] = [lo, hi]
        kw["par_bounds"] = [tuple(x) for x in b]
        ev.tag("caller-bounds")
    if c["init"] is not None:
        init = [1.0] * ref.npar
        init[0] = min(max(c["init"], lo), hi)
        kw["init_pars"] = init
        ev.tag("caller-start")
    muhat, nll = model.maximize_likelihood(**kw)
    muhat, nll = float(muhat), float(nll)
    require(lo - 1e-8 <= muhat <= hi + 1e-8, "best fit outside the allowed bounds", muhat=muhat, lo=lo, hi=hi)
    convex = ref.kind in CONVEX and not ref.nsp and not ref.mods
    # all parameters
    keys = list(range(ref.npar))
    res, nll2 = model.maximize_likelihood(poi_indices=keys, **kw)
    require(list(res) == keys, "requested keys", got=list(res))
    pars = np.array([res[k] for k in keys], float)
    require_close(float(nll2), nll, "value with requested parameters", rtol=0, atol=1e-10)
    require_close(pars[0], muhat, "best-fit signal strength with requested parameters", rtol=0, atol=1e-10)
    t = 2e-6 if ref.kind == "third" else 1e-9
    require_close(nll, float(ref.nll(pars, rdata)), "maximum is not the likelihood at the best-fit parameters", rtol=t, atol=1e-6)
    names = model.backend.config().parameter_names
    if names is not None:
        sub = [names[-1], 0, names[0]]
        r3, _ = model.maximize_likelihood(poi_indices=sub, **kw)
        require(set(r3) == set(sub), "requested names", got=list(r3))
        require_close(r3[names[-1]], pars[-1], "best-fit value by name", rtol=0, atol=1e-10)
        require_close(r3[names[0]], muhat, "best-fit value by name", rtol=0, atol=1e-10)
        ev.tag("names")
    lik = float(model.maximize_likelihood(return_nll=False, **kw)[1])
    require_close(lik, math.exp(-nll), "likelihood is not exp(-nll)", rtol=1e-7, atol=1e-300)
    # optimality
    tol = 1e-4 if convex else 5e-3
    if ref.nsp:
        # signal-side parameters multiply the signal strength: only descent from the start is guaranteed
        start = np.array(kw.get("init_pars", [1.0] * ref.npar), float)
        if lo <= start[0] <= hi and np.all(np.asarray(ref.rate(start)) > 0) and np.all(np.asarray(ref.background(start)) > 0):
            require(nll <= float(ref.nll(start, rdata)) + 1e-3, "worse than the start values", got=nll)
            ev.tag("descent-only")
    else:
        prof, at = model.likelihood(muhat, expected=exp, data=data, return_parameters=True)
        prof = float(prof)
        if abs(prof - nll) > tol and (ref.beside_kink(pars) or ref.beside_kink(np.asarray(at, float))):
            raise Inconclusive("a fit stopped beside the kink of a one-sided source")
        require(nll <= prof + tol, "profiled likelihood at the best fit exceeds the maximum", got=nll, profiled=prof, muhat=muhat)
        start = np.r_[muhat, np.ones(ref.npar - 1)]
        if ref.mods and not (np.all(np.asarray(ref.rate(start)) > 0) and np.all(np.asarray(ref.background(start)) > 0)):
            # the fixed start of the profile fit has a bin of non-positive yield (log-likelihood of the clipped
            # rate is flat there): no descent is promised from such a point
            raise Inconclusive("the profile fit starts in an unphysical point")
        require(prof <= nll + tol, "profiled likelihood at the best fit does not reach the maximum", got=nll, profiled=prof, muhat=muhat)
    if convex:
        a, b = max(lo, -2.0) if math.isfinite(lo) else -2.0, min(hi, 4.0)
        for x in c["probe"]:
            mu = a + (b - a) * x
            v = float(model.likelihood(mu, expected=exp, data=data))
            require(nll <= v + tol, "a fixed-parameter likelihood exceeds the maximum", got=nll, better=v, mu=mu)
        best, bp = ref.minimise(rdata, starts=[pars, np.r_[muhat, np.zeros(ref.npar - 1)]],
                                poi_bounds=(lo if math.isfinite(lo) else None, hi), mu_hi=hi)
        require(nll <= best + tol, "a better point exists in the allowed region", got=nll, better=best,
                at=None if bp is None else [float(v) for v in bp], muhat=muhat)
        ev.tag("global-optimum")
    at_lo, at_hi = abs(muhat - lo) < 1e-6, abs(muhat - hi) < 1e-6
    ev.tag(ref.kind, "at-lower" if at_lo else "at-upper" if at_hi else "interior")
    if not allow:
        ev.tag("no-negative")
    ev.mark(ref.npar > 1 or not (at_lo or at_hi))


@st.composite
def edge_case(draw):
    return {"spec": draw(S.edge_model(mods=False, floor=1)), "neg": False, "expected": draw(st.sampled_from(["observed", "observed", "apriori"])),
            "hi": draw(st.sampled_from([None, None, 0.5, 20.0]))}


def check_edge(c, ev):
    """Large uncertainties and few events: the best fit may lie where a bin has no background left."""
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    data = ref.b if c["expected"] == "apriori" else ref.data
    lo, hi = (ref.minimum_poi if c["neg"] else 0.0), c["hi"] or 10.0
    kw = dict(expected=models.expectation(c["expected"]), allow_negative_signal=c["neg"])
    if c["hi"]:
        kw["par_bounds"] = [(lo, hi)] + [(None, None)] * (ref.npar - 1)
    keys = list(range(ref.npar))
    res, nll = model.maximize_likelihood(poi_indices=keys, **kw)
    pars, nll = np.array([res[k] for k in keys], float), float(nll)
    require(lo - 1e-8 <= pars[0] <= hi + 1e-8, "best fit outside the allowed bounds", muhat=pars[0], lo=lo, hi=hi)
    bkg = np.asarray(ref.background(pars), float)
    require(bkg.min() >= -1e-5 * np.max(ref.b), "negative background at the best fit", bkg=bkg.tolist())
    best, bp = ref.minimise(data, starts=[pars, pars * 0.5], poi_bounds=(lo, hi), mu_hi=hi)
    require(nll <= best + 3e-3, "a better point exists in the allowed region", got=nll, better=best, at=pars.tolist(),
            better_at=None if bp is None else [float(v) for v in bp])
    low = float(np.min(bkg / ref.b))
    ev.tag(ref.kind, "at-edge" if low < 1e-3 else "near-edge" if low < 0.3 else "inside")
    ev.mark(low < 0.3)


# ------------------------------------------------------------------ many bins
@st.composite
def many_case(draw):
    return {"m": draw(S.many_model(hi=60)), "expected": draw(st.sampled_from(["observed", "apriori"])), "neg": draw(st.booleans())}


def check_many(c, ev):
    from checks.p06_profile import many_best

    spec = S.many_spec(c["m"])
    ref, model = Ref(spec), models.build(spec)
    exp = models.expectation(c["expected"])
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    lo = ref.minimum_poi if c["neg"] else 0.0
    keys = list(range(ref.npar))
    res, nll = model.maximize_likelihood(expected=exp, allow_negative_signal=c["neg"], poi_indices=keys)
    pars, nll = np.array([res[k] for k in keys], float), float(nll)
    require(lo - 1e-8 <= pars[0] <= 10 + 1e-8, "best fit outside the allowed bounds", muhat=pars[0], lo=lo)
    t = 1e-5 if ref.kind == "third" else 1e-8
    require_close(nll, float(ref.nll(pars, rdata)), "maximum is not the likelihood at the best-fit parameters", rtol=t, atol=1e-5)
    probe = [0.0, 0.5, 1.0] + ([max(lo * 0.5, -0.5)] if c["neg"] else [])
    for mu in probe if ref.kind != "poisson_unc" or np.abs(pars[1:]).max() < 8 else []:  # see the assumptions of P06
        v = float(model.likelihood(float(mu), expected=exp))
        require(nll <= v + 0.05 + t * abs(v), "the profile is better than the maximum", mu=mu, profile=v, maximum=nll)
    if ref.kind not in ("poisson_unc",):
        best, at = many_best(ref, rdata, [pars, np.zeros(ref.npar)])
        if np.isfinite(best) and at[0] >= lo:
            require(nll <= best + 0.05 + t * abs(best), "a better point exists", got=nll, better=best, at=float(at[0]), muhat=pars[0])
            ev.tag("oracle")
    ev.tag(ref.kind)
    ev.mark(ref.n >= 25)


SUBS = [
    Sub("many_bins", many_case, check_many, quick=120, thorough=2500, case_timeout=120),
    Sub("edge", edge_case, check_edge, quick=600, thorough=12000),
    Sub("maximum", case, check, quick=1000, thorough=15000),
]

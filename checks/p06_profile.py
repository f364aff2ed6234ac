"""P06: profiled likelihood = optimum over the nuisances at the pinned parameter."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Inconclusive, Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P06"
RULE = (
    "A case is a model with nuisances (and possibly a functional signal or signal uncertainties), "
    "a tested signal strength, an expectation type and a data choice. Non-trivial: at least one free "
    "nuisance whose optimum is away from the start value."
)
ASSUMPTIONS = [
    "Optimality is compared against an independent multi-start bounded minimiser (started also from "
    "the returned point); single-optimum models must match to 1e-4 in the log-likelihood, models "
    "with signal-dependent products of parameters must be locally optimal to 2e-3.",
    "A source of signal uncertainty with a variation on one side only makes a kink at zero; a fit that stops beside it "
    "(within 1e-3, not at it) is a recorded limitation of the gradient minimiser and not judged on optimality.",
    "many_bins: models with many unconstrained nuisances (default.poisson with absolute uncertainties) are not judged on "
    "optimality, as the fit may stop short when the optimum is tens of units from the start (one such input is listed as known).",
]
CONVEX = ("uncorrelated", "correlated", "poisson", "normal", "mvn", "third")


@st.composite
def case(draw):
    spec = draw(S.model(max_bins=4, tame=True, modifiers=True, signal_fn=True, sig=(0.05, 1.0)))
    n = len(spec["b"])
    lo = -0.6 if "sfun" in spec else max(-0.6, 0.6 * Ref(spec).minimum_poi)
    return {
        "spec": spec,
        "mu": draw(st.one_of(S.num(lo, 3, 2), st.sampled_from([0.0, 1.0]), S.num(3, 12, 1))),
        "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
        "data": draw(st.one_of(st.none(), st.just(True).flatmap(lambda _: S.vec(n, 0.5, 1.6, 2)))),
        "grad": draw(st.sampled_from([True, True, True, False])),
        "box": draw(st.one_of(st.none(), st.fixed_dictionaries({
            "poi": st.sampled_from([[0, 10], [-0.3, 0.5], [1, 2], [None, 1.5], [0.5, None], [None, None]]),
            "width": S.num(0.2, 3, 1), "init": st.one_of(st.none(), S.vec(8, -1, 1, 2)), "alias": st.booleans()}))),
    }


def check(c, ev):
    spec, mu = c["spec"], float(c["mu"])
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    data = None if c["data"] is None else [round(r * b, 2) for r, b in zip(c["data"], spec["b"])]
    rdata = np.array(data) if data is not None else (ref.b if c["expected"] == "apriori" else ref.data)
    kw = dict(expected=exp, data=data)
    nll, pars = model.likelihood(mu, return_parameters=True, do_grad=c["grad"], **kw)
    nll, pars = float(nll), np.asarray(pars, float)
    require(len(pars) == ref.npar, "number of returned parameters", got=len(pars), want=ref.npar)
    require_close(pars[0], mu, "returned parameters do not hold the tested value", rtol=0, atol=1e-9)
    t = 2e-6 if ref.kind == "third" else 1e-9
    require_close(nll, float(ref.nll(pars, rdata)), "value is not the likelihood at the returned parameters", rtol=t, atol=1e-6)
    if ref.nsp:
        for p, b in zip(pars[1 : 1 + ref.nsp], ref.bounds()[1 : 1 + ref.nsp]):
            require((b[0] is None or p >= b[0] - 1e-8) and (b[1] is None or p <= b[1] + 1e-8), "parameter outside its bounds", p=p, bounds=b)
    poissonian = ref.kind not in ("normal", "mvn")
    bkg = np.asarray(ref.background(pars), float)
    if poissonian:
        require(bkg.min() >= -1e-5 * max(1, np.max(ref.b)), "negative background at the returned parameters", bkg=bkg.tolist())
    convex = ref.kind in CONVEX and not ref.nsp and not ref.mods
    # a different start for the reference: the returned point itself and its neighbourhood
    best, bp = ref.minimise(rdata, fixed={0: mu}, starts=[pars, pars * 0.5, pars + 0.3])
    if convex or np.isfinite(best):
        tol = 1e-4 if convex else 2e-3
        if not convex:
            # only improvements reachable downhill from the returned point count
            best, bp = local(ref, rdata, pars, {0: mu})
        if best < nll - tol and not c.get("__known__") and ref.beside_kink(pars):
            raise Inconclusive("the fit stopped beside the kink of a one-sided source")
        require(not np.isfinite(best) or nll <= best + tol, "a better nuisance point exists", got=nll, better=best,
                better_at=None if bp is None else [float(v) for v in bp], at=pars.tolist())
    # forms
    lik = float(model.likelihood(mu, return_nll=False, do_grad=c["grad"], **kw))
    require_close(lik, math.exp(-nll), "likelihood is not exp(-nll)", rtol=1e-7, atol=1e-300)
    v, p = model.likelihood({0: mu}, return_parameters=True, do_grad=c["grad"], **kw)
    require_close(float(v), nll, "addressing the signal strength by index", rtol=0, atol=2e-5)
    names = model.backend.config().parameter_names
    if names is not None:
        v = model.likelihood({names[0]: mu}, do_grad=c["grad"], **kw)
        require_close(float(v), nll, "addressing the signal strength by name", rtol=0, atol=2e-5)
        ev.tag("named")
    if mu == int(mu):
        require_close(float(model.likelihood(int(mu), do_grad=c["grad"], **kw)), nll, "integer tested value", rtol=0, atol=2e-5)
        ev.tag("int-mu")
        # the tested value is given by poi_test; another pin of it is documented (in the log) to be ignored
        v = model.likelihood(mu, fixed_poi_value=1.0 if mu != 1 else 0.3, do_grad=c["grad"], **kw)
        require_close(float(v), nll, "a second pin of the signal strength is not ignored", rtol=0, atol=2e-5)
    if c.get("box") and convex:
        # start values and bounds of the caller: the tested value counts wherever the bounds lie, the box holds the optimum
        q = c["box"]
        bounds = [tuple(q["poi"])] + [(float(x - q["width"]), float(x + q["width"])) for x in pars[1:]]
        kb = {"par_bounds": bounds}
        if q["init"] is not None:
            kb["init_pars"] = [mu if q["alias"] else 0.7] + [float(x + q["width"] * z * 0.9) for x, z in zip(pars[1:], q["init"])]
        v, p = model.likelihood(mu, return_parameters=True, do_grad=c["grad"], **kb, **kw)
        require_close(p[0], mu, "tested value with caller bounds", rtol=0, atol=1e-9)
        require(float(v) <= nll + 2e-3, "caller bounds around the optimum make the fit worse", got=float(v), free=nll, at=np.asarray(p).tolist(), was=pars.tolist(), opts=kb)
        require(float(v) >= nll - 2e-3, "caller bounds around the optimum make the fit better", got=float(v), free=nll, at=np.asarray(p).tolist(), was=pars.tolist(), opts=kb)
        for x, b in zip(p[1:], bounds[1:]):
            require(b[0] - 1e-8 <= x <= b[1] + 1e-8, "fit left the bounds of the caller", got=float(x), bounds=b)
        out = (q["poi"][0] is not None and mu < q["poi"][0]) or (q["poi"][1] is not None and mu > q["poi"][1])
        ev.tag("caller-bounds-beside" if out else "caller-bounds")
    if not c["grad"]:
        v = float(model.likelihood(mu, **kw))
        require_close(v, nll, "with and without gradients", rtol=0, atol=1e-3)
        ev.tag("no-gradient")
    ev.tag(ref.kind, c["expected"] if data is None else "data")
    if ref.mods:
        ev.tag("sources")
    if ref.nsp:
        ev.tag("functional")
    if mu > 10:
        ev.tag("beyond-default-bound")
    ev.mark(ref.npar > 1 and np.abs(pars[1:] - 1.0).max() > 1e-3)


def local(ref, data, pars, fixed):
    """Downhill polish from the returned point (same basin)."""
    from scipy import optimize

    free = [i for i in range(ref.npar) if i not in fixed]
    if not free:
        return math.inf, None
    x0 = np.array(pars, float)
    bnds = ref.bounds()

    def f(z):
        x = x0.copy()
        x[free] = z
        for i, v in fixed.items():
            x[i] = v
        bad = 0.0
        if ref.kind not in ("normal", "mvn"):
            bad = float(np.minimum(np.asarray(ref.background(x), float), 0).sum())
        return float(ref.nll(x, data)) + (1e6 * bad * bad if bad < 0 else 0.0)

    # trust region: far-away improvements along almost flat directions are below optimiser accuracy
    bb = [(max(x0[i] - 0.5, -np.inf if bnds[i][0] is None else bnds[i][0]),
           min(x0[i] + 0.5, np.inf if bnds[i][1] is None else bnds[i][1])) for i in free]
    r = optimize.minimize(f, x0[free], method="Nelder-Mead", bounds=bb, options={
        "maxiter": 60 * len(free), "xatol": 1e-7, "fatol": 1e-9,
        "initial_simplex": np.vstack([x0[free]] + [x0[free] + 0.01 * np.eye(len(free))[k] for k in range(len(free))])})
    x = x0.copy()
    x[free] = r.x
    if ref.kind not in ("normal", "mvn") and np.asarray(ref.background(x), float).min() < 0:
        return math.inf, None
    return float(ref.nll(x, data)), x


@st.composite
def pin_case(draw):
    spec = draw(S.model(max_bins=3, tame=True, modifiers=True, signal_fn=True, small_unc=True, sig=(0.05, 1.0)))
    n = Ref(spec).npar
    pins = draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=max(1, n - 1), unique=True)) if n > 1 else []
    vals = [draw(st.one_of(st.sampled_from([0, 0.0, 1.0, -0.0]), S.num(-0.9, 0.9, 2))) for _ in pins]
    return {"spec": spec, "pins": pins, "vals": vals, "mu": draw(st.one_of(st.none(), st.sampled_from([0, 0.0, 1]), S.num(-0.2, 2, 2))),
            "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])), "grad": draw(st.booleans())}


def check_pins(c, ev):
    """Any set of parameters can be pinned; the result holds the pins and optimises the rest (the strength included)."""
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    fixed = dict(zip(c["pins"], c["vals"]))
    if c["mu"] is not None or not fixed:
        mu = c["mu"] if c["mu"] is not None else 0.5
        fixed[0] = max(mu, 0.5 * ref.minimum_poi)
    x = np.zeros(ref.npar)
    for i, v in fixed.items():
        x[i] = v
    lam = np.asarray(ref.rate(x), float)
    if not (np.all(np.isfinite(lam)) and np.all(lam > 0.03 * np.array(spec["b"]))):
        fixed = {i: 0.2 * abs(v) for i, v in fixed.items()}
    nll, pars = model.likelihood(dict(fixed), expected=exp, return_parameters=True, do_grad=c["grad"])
    nll, pars = float(nll), np.asarray(pars, float)
    for i, v in fixed.items():
        require_close(pars[i], v, "pinned parameter does not hold its value", rtol=0, atol=1e-9, index=i)
    t = 2e-6 if ref.kind == "third" else 1e-9
    require_close(nll, float(ref.nll(pars, rdata)), "value is not the likelihood at the returned parameters", rtol=t, atol=1e-6)
    if len(fixed) < ref.npar:
        if ref.kind in CONVEX and not ref.nsp and not ref.mods:
            best, bp = ref.minimise(rdata, fixed={int(i): float(v) for i, v in fixed.items()}, starts=[pars])
            ok = bp is not None and (0 in fixed or ref.minimum_poi + 1e-3 < bp[0] < 9.9)
        elif 0 in fixed:
            best, bp = local(ref, rdata, pars, {int(i): float(v) for i, v in fixed.items()})
            ok = np.isfinite(best)
        else:
            ok = False
        if ok:
            if best < nll - 2e-3 and ref.beside_kink(pars):
                raise Inconclusive("the fit stopped beside the kink of a one-sided source")
            require(nll <= best + 2e-3, "the other parameters are not profiled", got=nll, better=best, at=pars.tolist(), fixed=fixed)
            ev.tag("optimal")
    v = model.maximize_likelihood(expected=exp, fixed_poi_value=dict(fixed), do_grad=c["grad"])[1]
    require_close(float(v), nll, "fit with the same pinned parameters", rtol=1e-9, atol=1e-8)
    ev.tag(ref.kind, "zero-pin" if any(v == 0 for i, v in fixed.items() if i) else "pin")
    ev.mark(any(i for i in fixed))


@st.composite
def edge_case(draw):
    return {"spec": draw(S.edge_model()), "mu": draw(S.num(0.1, 9, 2)), "expected": draw(st.sampled_from(["observed", "observed", "apriori"])),
            "data": None, "grad": True, "con": draw(st.sampled_from([None, None, "vacuous", "cap"]))}


def check_edge(c, ev):
    spec, mu = c["spec"], float(c["mu"])
    ref = Ref(spec)
    model = models.build(spec)
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    nll, pars = model.likelihood(mu, expected=models.expectation(c["expected"]), return_parameters=True)
    nll, pars = float(nll), np.asarray(pars, float)
    bkg = np.asarray(ref.background(pars), float)
    require(bkg.min() >= -1e-5 * np.max(ref.b), "negative background at the returned parameters", bkg=bkg.tolist())
    if bkg.min() > -1e-9:
        require_close(nll, float(ref.nll(pars, rdata)), "value is not the likelihood at the returned parameters", rtol=1e-9, atol=1e-6)
    if ref.mods:
        best, bp = local(ref, rdata, pars, {0: mu})
        if best < nll - 2e-3 and not c.get("__known__") and ref.beside_kink(pars):
            raise Inconclusive("the fit stopped beside the kink of a one-sided source")
    else:
        best, bp = ref.minimise(rdata, fixed={0: mu}, starts=[pars, pars * 0.5, pars + 0.3])
    require(not np.isfinite(best) or nll <= best + 2e-3, "a better nuisance point exists", got=nll, better=best,
            better_at=None if bp is None else [float(v) for v in bp], at=pars.tolist())
    if c.get("con"):
        # constraints of the caller are added to those of the model
        last = ref.npar - 1
        floor = -math.inf if ref.mods else -0.5 * float(ref.b[-1]) / float(sigmas(ref)[-1])  # room for a non-negative background
        cap = 1e3 if c["con"] == "vacuous" else max(float(pars[last]) - 0.2, floor)
        con = {"type": "ineq", "fun": lambda v: cap - v[last]}
        v2, p2 = model.likelihood(mu, expected=models.expectation(c["expected"]), return_parameters=True, constraints=[con])
        b2 = np.asarray(ref.background(np.asarray(p2, float)), float)
        require(p2[last] <= cap + 1e-5, "a constraint of the caller is not respected", cap=cap, got=float(p2[last]))
        require(b2.min() >= -1e-5 * np.max(ref.b), "negative background with a constraint of the caller", bkg=b2.tolist(), con=c["con"])
        if not ref.mods:
            require(float(v2) >= nll - 2e-3, "a constraint of the caller improves the fit", got=float(v2), free=nll)
            if c["con"] == "vacuous":
                require(float(v2) <= nll + 5e-3, "a constraint without effect makes the fit worse", got=float(v2), free=nll)
        ev.tag("constraint:" + c["con"])
    ev.tag(ref.kind, "sources" if ref.mods else "plain", "edge" if bkg.min() < 1e-3 * np.max(ref.b) else "inside")
    ev.mark(bkg.min() < 1e-3 * np.max(ref.b))


# ------------------------------------------------------------------ many bins
@st.composite
def many_case(draw):
    return {"m": draw(S.many_model(("uncorrelated", "correlated", "effsig", "third", "poisson_unc"), hi=60)), "mu": draw(S.num(0, 2, 2)),
            "expected": draw(st.sampled_from(["observed", "apriori"])), "grad": draw(st.sampled_from([True, True, True, True, False]))}


def many_best(ref, rdata, starts, mu=None):
    """Bounded quasi-Newton minimum of the reference; the background stays non-negative through bounds where that is exact."""
    from autograd import value_and_grad
    import autograd.numpy as anp
    from scipy import optimize

    lo = [-float(b) / float(u) if ref.kind in ("uncorrelated", "correlated", "poisson_unc") else None for b, u in zip(ref.b, sigmas(ref))][: ref.npar - 1]
    if mu is None:
        f = value_and_grad(lambda p: ref.nll(p, rdata))
        bnds = [(ref.minimum_poi, 10.0)] + [(x, None) for x in lo]
        starts = [np.asarray(x, float) for x in starts]
    else:
        f = value_and_grad(lambda p: ref.nll(anp.concatenate([anp.array([mu]), p]), rdata))
        bnds = [(x, None) for x in lo]
        starts = [np.asarray(x, float)[1:] for x in starts]
    best, at = math.inf, None
    for x0 in starts:
        r = optimize.minimize(f, x0, jac=True, method="L-BFGS-B", bounds=bnds, options={"maxiter": 5000, "maxfun": 20000, "ftol": 1e-14, "gtol": 1e-7})
        if np.isfinite(r.fun) and r.fun < best:
            best, at = float(r.fun), np.asarray(r.x)
    if at is not None and ref.kind not in ("normal", "mvn"):
        full = at if mu is None else np.append(mu, at)
        if np.asarray(ref.background(full), float).min() < -1e-9:
            return math.inf, None
    return best, at


def sigmas(ref):
    spec = ref.spec
    return spec["unc"] if "unc" in spec else np.sqrt(np.diag(np.array(spec["cov"]))) if "cov" in spec else [1.0] * ref.n


def check_many(c, ev):
    spec = S.many_spec(c["m"])
    ref, model, mu = Ref(spec), models.build(spec), float(c["mu"])
    exp = models.expectation(c["expected"])
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    nll, pars = model.likelihood(mu, expected=exp, return_parameters=True, do_grad=c["grad"] or ref.n > 20)
    nll, pars = float(nll), np.asarray(pars, float)
    require(len(pars) == ref.npar and abs(pars[0] - mu) <= 1e-9, "returned parameters")
    t = 1e-5 if ref.kind == "third" else 1e-8
    require_close(nll, float(ref.nll(pars, rdata)), "value is not the likelihood at the returned parameters", rtol=t, atol=1e-5)
    bkg = np.asarray(ref.background(pars), float)
    require(bkg.min() >= -1e-5 * np.max(ref.b), "negative background at the returned parameters", bkg=float(bkg.min()))
    best = math.inf
    if ref.kind != "poisson_unc" or c.get("__known__"):
        best, _ = many_best(ref, rdata, [pars, np.append(mu, np.zeros(ref.npar - 1))], mu=mu)
    require(not np.isfinite(best) or nll <= best + 0.05 + t * abs(best), "a better nuisance point exists", got=nll, better=best)
    lik = float(model.likelihood(mu, expected=exp, return_nll=False, do_grad=c["grad"] or ref.n > 20))
    require(lik == 0.0 if nll > 746 else abs(lik - math.exp(-nll)) <= 1e-7 * math.exp(-nll) + 1e-300, "likelihood is not exp(-nll)", got=lik, nll=nll)
    ev.tag(ref.kind, "oracle" if np.isfinite(best) else "no-oracle")
    ev.mark(np.isfinite(best) and ref.n >= 25)


SUBS = [
    Sub("many_bins", many_case, check_many, quick=120, thorough=2500, case_timeout=120),
    Sub("edge", edge_case, check_edge, quick=800, thorough=10000),
    Sub("profile", case, check, quick=800, thorough=12000),
    Sub("pins", pin_case, check_pins, quick=600, thorough=12000),
]

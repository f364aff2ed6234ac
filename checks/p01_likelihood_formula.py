"""P01: log-likelihood == documented formula (independent reference + scipy.stats oracle)."""
import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P01"
RULE = (
    "A case is a built-in model (kind, 1-5 bins, yields, uncertainties / covariance / third moments "
    "/ envelopes, optionally functional signal, width or covariance), a parameter point with positive "
    "rates and a data choice (observed, pre-fit, caller-supplied integer or continuous). Non-trivial: "
    "at least two bins or a functional ingredient, and non-zero nuisances/extra parameters where the "
    "model has any. many_bins: 15-80 bins, the formula and its gradient."
)
ASSUMPTIONS = ["Poisson rates positive at the tested point (documented physical region)."]


@st.composite
def case(draw):
    c = draw(S.point(S.model(max_bins=5, signal_fn=True, cov_fn=True), wild=True))
    n = len(c["spec"]["b"])
    mode = draw(st.sampled_from(["observed", "aposteriori", "apriori", "int", "float", "long"]))
    c["mode"] = mode
    c["expected"] = draw(st.sampled_from(["observed", "aposteriori", "apriori"]))
    if mode in ("int", "long"):
        c["data"] = draw(st.lists(st.integers(0, 200), min_size=n, max_size=n))
    elif mode == "float":
        c["data"] = draw(S.vec(n, 0, 200, 3))
    return c


def tol(ref):
    return 2e-6 if ref.kind == "third" else 1e-9


def check(c, ev):
    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    model = models.build(spec)
    be = model.backend
    require(be.config().npar == ref.npar, "number of parameters", got=be.config().npar, want=ref.npar)
    mode = c["mode"]
    if mode in ("observed", "aposteriori", "apriori"):
        exp, data = models.expectation(mode), None
        rdata = ref.b if mode == "apriori" else ref.data
    else:
        exp = models.expectation(c["expected"])
        data = np.array(c["data"], dtype=int if mode in ("int", "long") else float)
        rdata = np.array(c["data"], float)
        if mode == "long" and spec["kind"] in S.KINDS_SL:
            # expected data come with the auxiliary entries appended; these are not bins
            data = np.concatenate([data.astype(float), np.zeros(ref.n_theta)])
    want = float(ref.logpdf(pars, rdata))
    t = tol(ref)
    got = float(be.get_logpdf_func(expected=exp, data=data)(pars))
    require_close(got, want, "log-likelihood", rtol=t, atol=t * 100, kind=spec["kind"], mode=mode)
    nll = float(be.get_objective_function(expected=exp, data=data, do_grad=False)(pars))
    require_close(nll, -want, "objective without gradient", rtol=t, atol=t * 100, kind=spec["kind"], mode=mode)
    if np.all(rdata == np.round(rdata)):
        ev.tag("scipy-oracle")
        require_close(got, ref.scipy_logpdf(pars, rdata), "log-likelihood (scipy)", rtol=max(t, 1e-8), atol=max(t * 100, 1e-6))
    ev.tag(spec["kind"], "mode:" + mode)
    fun = "sfun" in spec or "uncfun" in spec or "covfun" in spec
    if fun:
        ev.tag("functional")
    moved = len(pars) == 1 or any(abs(p) > 1e-6 for p in pars[1:])
    ev.mark((ref.n > 1 or fun) and moved and pars[0] != 0)


@st.composite
def small_case(draw):
    kind = draw(st.sampled_from(["uncorrelated", "correlated", "effsig", "poisson", "poisson_unc"]))
    n = draw(st.integers(1, 3))
    b = draw(S.vec(n, 0.0, 2.0, 3))
    b = [max(x, 1e-3) for x in b]
    s = draw(S.vec(n, 0.001, 2.0, 3))
    spec = {"kind": kind, "b": b, "s": s, "data": [float(x) for x in draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))]}
    u = draw(S.vec(n, 0.01, 0.5, 3))
    if kind in ("uncorrelated", "poisson_unc"):
        spec["unc"] = u
    elif kind == "correlated":
        spec["cov"] = np.diag(np.array(u) ** 2).tolist()
    elif kind == "effsig":
        spec["corr"] = np.eye(n).tolist()
        spec["env"] = [[x, round(x * 1.2, 4)] for x in u]
    return {"spec": spec, "mu": draw(S.num(0, 2, 3)), "th": draw(st.sampled_from([0.0, 0.0, -3.0, 0.5]))}


def check_small(c, ev):
    """Low-count region incl. zero observed events and rates near zero (clipping at a tiny floor)."""
    spec = c["spec"]
    ref = Ref(spec)
    pars = np.array([c["mu"]] + [c["th"]] * (ref.npar - 1))
    lam = np.asarray(ref.rate(pars), float)
    model = models.build(spec)
    got = float(model.backend.get_logpdf_func()(pars))
    require(np.isfinite(got), "log-likelihood is not finite", got=got)
    want = float(ref.logpdf(pars))
    require_close(got, want, "log-likelihood at low counts", rtol=1e-9, atol=1e-7)
    ev.tag("clipped" if (lam <= 0).any() else "positive", "zero-data" if 0.0 in spec["data"] else "data")
    ev.mark(0.0 in spec["data"] or (lam < 0.5).any())


@st.composite
def many_case(draw):
    return {"m": draw(S.many_model()), "mu": draw(S.num(-0.5, 3, 2)), "seed": draw(st.integers(0, 10**6)), "mode": draw(st.sampled_from(["observed", "apriori", "data"]))}


def check_many(c, ev):
    """Many bins: products of probabilities leave the range of doubles, their logarithms do not."""
    from autograd import grad

    spec, rng = S.many_spec(c["m"]), np.random.RandomState(c["seed"])
    ref, model = Ref(spec), models.build(spec)
    pars = np.append(c["mu"], rng.uniform(-1.0, 1.0, ref.npar - 1))
    for _ in range(40):
        if ref.kind in ("normal", "mvn") or np.all(np.asarray(ref.rate(pars)) > 0.02 * ref.b):
            break
        pars = pars * 0.7
    data = [float(x) for x in rng.poisson(ref.b)] if c["mode"] == "data" else None
    rdata = np.array(data) if data is not None else (ref.b if c["mode"] == "apriori" else ref.data)
    exp = models.expectation("observed" if data is not None else c["mode"])
    want, t = float(ref.logpdf(pars, rdata)), 1e-5 if ref.kind == "third" else 1e-8
    got = float(model.backend.get_logpdf_func(expected=exp, data=data)(pars))
    require(np.isfinite(got), "log-likelihood is not finite", got=got, want=want)
    require_close(got, want, "log-likelihood of many bins", rtol=t, atol=t * 100, kind=spec["kind"])
    val, g = model.backend.get_objective_function(expected=exp, data=data, do_grad=True)(pars)
    require_close(float(val), -want, "objective of many bins", rtol=t, atol=t * 100)
    wg = grad(lambda p: ref.nll(p, rdata))(pars)
    require_allclose(g, wg, "gradient of many bins", rtol=max(t, 1e-7), atol=10 * t * max(1.0, np.abs(wg).max()))
    ev.tag(spec["kind"], "below-exp-range" if want < -745 else "in-range")
    ev.mark(ref.n >= 30)


SUBS = [
    Sub("formula", case, check, quick=4000, thorough=60000),
    Sub("low_counts", small_case, check_small, quick=1600, thorough=20000),
    Sub("many_bins", many_case, check_many, quick=240, thorough=4000),
]

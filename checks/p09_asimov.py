"""P09: Asimov data = profiled background-only (signal, for discovery) expectation."""
import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P09"
RULE = (
    "A case is a model, an expectation type, a test statistic, a tested strength and optional optimiser "
    "options. The Asimov data set is decoded back to nuisance values where the mean is invertible and "
    "must be optimal at the prescribed strength. Non-trivial: the model has nuisances or the Asimov "
    "strength is one."
)
ASSUMPTIONS = ["Optimiser accuracy: 1e-4 in the log-likelihood for single-optimum models."]


@st.composite
def case(draw):
    spec = draw(S.model(kinds=("uncorrelated", "correlated", "third", "effsig", "poisson", "normal", "mvn"),
                        max_bins=4, tame=True, modifiers=True, sig=(0.1, 1.0)))
    return {
        "spec": spec,
        "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
        "stat": draw(st.sampled_from(["q", "qmu", "qtilde", "qmutilde", "q0"])),
        "mu": draw(S.num(0.0, 3, 2)),
        "init": draw(st.one_of(st.none(), S.num(0.2, 1.8, 2))),
        "bounds": draw(st.sampled_from([False, False, True, True, "tight"])),
        "box": [draw(S.num(-0.4, 0.6, 2)), draw(S.num(0.9, 2.5, 2))],
    }


def check(c, ev):
    spec, stat, mu = c["spec"], c["stat"], c["mu"]
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    mu0 = 1.0 if stat == "q0" else 0.0
    kw = {}
    if c["init"] is not None:
        kw["init_pars"] = [c["init"]] * ref.npar
        ev.tag("caller-start")
    tight = c["bounds"] == "tight" and ref.npar > 1
    if tight:
        # bounds that cut into the nuisances: the constrained optimum differs from the free one
        kw["par_bounds"] = [(0.0, 20.0)] + [tuple(c["box"])] * (ref.npar - 1)
        kw["init_pars"] = [0.75] * ref.npar
        ev.tag("tight-bounds")
    elif c["bounds"]:
        kw["par_bounds"] = [(max(ref.minimum_poi, -5.0) if stat in ("q", "qmu") else 0.0, 20.0)] + [(None, None)] * (ref.npar - 1)
        ev.tag("caller-bounds")
    asimov = np.asarray(model.generate_asimov_data(expected=exp, test_statistic=stat, **kw), float)
    want_len = len(ref.expected_data(np.r_[mu0, np.zeros(ref.npar - 1)]))
    require(asimov.shape == (want_len,), "length of the Asimov data", got=asimov.shape, want=want_len)
    require_allclose(asimov[ref.n :], np.zeros(want_len - ref.n), "auxiliary part of the Asimov data", rtol=0, atol=0)
    convex = ref.kind in ("uncorrelated", "correlated", "poisson", "normal", "mvn") and not ref.mods
    # the same profiled point through the other public entry point
    nll0, pars = model.likelihood(mu0, expected=exp, return_parameters=True, **kw)
    tolA = 2e-2 if convex else 6e-2
    same = ref.expected_data(np.asarray(pars), aux=False)
    require_allclose(asimov[: ref.n], same, "Asimov data vs expectation at the profiled point", rtol=1e-9 if tight else tolA,
                     atol=1e-9 if tight else 0.1)
    if tight:
        p = np.asarray(pars, float)[1:]
        require(np.all(p >= c["box"][0] - 1e-8) and np.all(p <= c["box"][1] + 1e-8), "profiled nuisances outside the bounds of the caller", pars=p.tolist())
    elif convex:
        if ref.n_theta:
            width = ref.unc if ref.kind == "uncorrelated" else ref.B
            th = (asimov[: ref.n] - mu0 * ref.s - ref.b) / width
            x = np.r_[mu0, th]
        else:
            x = np.array([mu0])
            require_allclose(asimov[: ref.n], ref.expected_data(x, aux=False), "Asimov data without nuisances", rtol=1e-7, atol=1e-7)
        best, _ = ref.minimise(rdata, fixed={0: mu0}, starts=[x])
        require(float(ref.nll(x, rdata)) <= best + 1e-4, "Asimov nuisances are not the profiled ones",
                got=float(ref.nll(x, rdata)), better=best, theta=x.tolist())
    # likelihoods on Asimov data = likelihoods with that data set supplied
    neg = stat in ("q", "qmu")
    a = float(model.asimov_likelihood(mu, expected=exp, test_statistics=stat, **kw))
    b = float(model.likelihood(mu, expected=exp, data=asimov, **kw))
    require_close(a, b, "Asimov likelihood vs likelihood of the Asimov data", rtol=0, atol=1e-5)
    a = float(model.asimov_likelihood(mu, expected=exp, test_statistics=stat, return_nll=False, **kw))
    require_close(a, np.exp(-b), "Asimov likelihood value", rtol=1e-4, atol=1e-300)
    ma, na = model.maximize_asimov_likelihood(expected=exp, test_statistics=stat, **kw)
    mb, nb = model.maximize_likelihood(expected=exp, data=asimov, allow_negative_signal=neg, **kw)
    require_close(na, nb, "maximum on Asimov data vs maximum with the data supplied", rtol=0, atol=1e-5)
    require_close(ma, mb, "best fit on Asimov data vs with the data supplied", rtol=1e-4, atol=1e-4)
    if tight:
        full, _ = model.maximize_asimov_likelihood(expected=exp, test_statistics=stat, poi_indices=list(range(ref.npar)), **kw)
        p = np.array([float(full[i]) for i in range(1, ref.npar)])
        require(np.all(p >= c["box"][0] - 1e-8) and np.all(p <= c["box"][1] + 1e-8), "Asimov best fit outside the bounds of the caller", pars=p.tolist())
    lik = model.maximize_asimov_likelihood(expected=exp, test_statistics=stat, return_nll=False, **kw)[1]
    require_close(lik, np.exp(-na), "maximum Asimov likelihood value", rtol=1e-6, atol=1e-300)
    if convex and not ref.n_theta and not tight:
        at = float(model.likelihood(mu0, expected=exp, data=asimov))
        require(abs(na - at) <= 1e-4, "the Asimov strength does not maximise the Asimov likelihood", at_mu0=at, best=na, muhat=ma)
    if convex and not tight and ref.n_theta and c["expected"] == "apriori" and mu0 == 0.0:
        at = float(model.likelihood(0.0, expected=exp, data=asimov))
        require(abs(na - at) <= 2e-4, "zero does not maximise the Asimov likelihood", at_zero=at, best=na, muhat=ma)
        ev.tag("zero-best-fit")
    if not neg:
        require(ma >= -1e-8, "negative best fit on Asimov data for a bounded statistic", muhat=ma)
    ev.tag(spec["kind"], stat, c["expected"])
    ev.mark(ref.npar > 1 or mu0 == 1.0)


SUBS = [Sub("asimov", case, check, quick=1000, thorough=15000)]

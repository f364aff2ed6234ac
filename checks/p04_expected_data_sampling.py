"""P04: expected data and pseudo-data."""
import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P04"
RULE = (
    "A case is a model, a parameter point with positive rates, a sample size and an auxiliary-data "
    "flag (expected / shape sub-checks), or a model with 3000 seeded pseudo-experiments whose means, "
    "variances and covariances are compared with the analytic ones at 6.5 standard errors. "
    "Non-trivial: signal and background both contribute and the model has a nuisance or >= 2 bins, "
    "or the sample size is one."
)
ASSUMPTIONS = ["The samplers draw from numpy's global generator, which the harness seeds per case."]
NSIG = 6.5


@st.composite
def case(draw):
    c = draw(S.point(S.model(max_bins=4, signal_fn=True, cov_fn=True, modifiers=True)))
    c["n"] = draw(st.sampled_from([1, 1, 2, 3, 7, 20]))
    c["aux"] = draw(st.sampled_from([None, True, False]))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def has_aux(spec, aux):
    return spec["kind"] in S.KINDS_SL and aux in (None, True)


def check(c, ev):
    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    be = models.build(spec).backend
    t = 2e-6 if ref.kind == "third" else 1e-9
    kw = {} if c["aux"] is None or spec["kind"] not in S.KINDS_SL else {"include_auxiliary": c["aux"]}
    want = ref.expected_data(pars, has_aux(spec, c["aux"]))
    require_allclose(np.asarray(be.expected_data(pars, **kw), float), want, "expected data", rtol=t, atol=t)
    require_allclose(np.asarray(be.expected_data(list(c["pars"]), **kw), float) if "sfun" not in spec and not spec.get("mods") and spec["kind"] in ("poisson", "normal", "mvn") and "uncfun" not in spec and "covfun" not in spec else want, want, "expected data (list)", rtol=t, atol=t)
    sampler = be.get_sampler(pars)
    np.random.seed(c["seed"])
    a = np.asarray(sampler(c["n"], **kw))
    np.random.seed(c["seed"])
    b = np.asarray(sampler(c["n"], **kw))
    require(a.shape == (c["n"], len(want)), "sample shape", got=a.shape, want=(c["n"], len(want)))
    require(np.array_equal(a, b), "sampling is not reproducible for a fixed seed")
    require(np.all(np.isfinite(a)), "non-finite samples")
    if spec["kind"] not in ("normal", "mvn"):
        m = a[:, : ref.n]
        require(np.all(m >= 0) and np.all(m == np.round(m)), "counts are not non-negative integers", got=m.tolist())
        lam = want[: ref.n]
        require(np.all(np.abs(m - lam) <= 9 * np.sqrt(lam) + 15), "count absurdly far from its mean", got=m.tolist(), lam=lam.tolist())
    ev.tag(spec["kind"], f"n:{min(c['n'], 3)}", f"aux:{c['aux']}", f"bins:{min(ref.n, 2)}")
    ev.mark(pars[0] != 0 and (ref.npar > 1 or ref.n > 1 or c["n"] == 1))


@st.composite
def stat_case(draw):
    c = draw(S.point(S.model(max_bins=3, signal_fn=True, cov_fn=True, modifiers=True)))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


N = 3000


def check_stat(c, ev):
    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    be = models.build(spec).backend
    np.random.seed(c["seed"])
    x = np.asarray(be.get_sampler(pars)(N), float)
    lam = np.asarray(ref.rate(pars), float)
    n = ref.n
    aux = spec["kind"] in S.KINDS_SL
    if spec["kind"] == "normal":
        cov = np.diag(np.asarray(ref.sigma(pars), float) ** 2)
        m4 = 3 * np.diag(cov) ** 2
    elif spec["kind"] == "mvn":
        cov = np.asarray(ref.sigma(pars), float)
        m4 = 3 * np.diag(cov) ** 2
    else:
        cov = np.diag(lam)
        m4 = lam * (1 + 3 * lam)
    mean = lam
    if aux:
        k = ref.n_theta
        R = (ref.rho + ref.rho.T) / 2
        full = np.zeros((n + k + ref.n_mod,) * 2)
        full[:n, :n] = cov
        full[n : n + k, n : n + k] = R
        full[n + k :, n + k :] = np.eye(ref.n_mod)
        cov = full
        mean = np.concatenate([lam, np.zeros(k + ref.n_mod)])
        m4 = np.concatenate([m4, 3 * np.diag(cov)[n:] ** 2])
    require(x.shape == (N, len(mean)), "sample shape", got=x.shape)
    sd = np.sqrt(np.diag(cov))
    got = x.mean(axis=0)
    require(np.all(np.abs(got - mean) <= NSIG * sd / np.sqrt(N) + 1e-3 * sd), "sample means", got=got.tolist(), want=mean.tolist())
    d = x - mean
    emp = d.T @ d / N
    # standard error of each second moment
    se = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov**2) / N)
    np.fill_diagonal(se, np.sqrt(np.maximum(m4 - np.diag(cov) ** 2, 0) / N))
    slack = 2e-3 * np.outer(sd, sd)
    if spec["kind"] not in ("normal", "mvn"):  # rare-count skewness of the variance estimator
        slack[:n, :n] += np.diag(3.0 * (lam < 1.0) * np.sqrt(lam) / np.sqrt(N) + 0.0)
    bad = np.abs(emp - cov) > NSIG * se + slack
    require(not bad.any(), "sample (co)variances", got=emp.tolist(), want=cov.tolist())
    if c["seed"] % 3 == 0:  # pseudo-experiments drawn one at a time
        k = 300
        one = be.get_sampler(pars)
        y = np.array([np.asarray(one(1), float)[0] for _ in range(k)])
        require(np.all(np.abs(y.mean(0) - mean) <= NSIG * sd / np.sqrt(k) + 5 / k), "mean of samples drawn one at a time", got=y.mean(0).tolist(), want=mean.tolist())
        v = np.mean((y - mean) ** 2, axis=0)
        err = np.sqrt(np.maximum(m4 - np.diag(cov) ** 2, 0) / k)
        require(np.all(np.abs(v - np.diag(cov)) <= 8 * err + 60 / k), "variance of samples drawn one at a time", got=v.tolist(), want=np.diag(cov).tolist())
        if np.all(sd > 1):
            require(np.all(v > 0.2 * np.diag(cov)), "samples drawn one at a time do not vary", got=v.tolist(), want=np.diag(cov).tolist())
        ev.tag("one-at-a-time")
    ev.tag(spec["kind"], "correlated" if np.abs(cov - np.diag(np.diag(cov))).max() > 0.05 else "diagonal")
    ev.mark(pars[0] != 0 and len(mean) > 1)


@st.composite
def fixed_case(draw):
    spec = draw(S.model(max_bins=3, tame=True, modifiers=False))
    return {
        "spec": spec, "mu": draw(S.num(0, 1.5, 2)), "seed": draw(st.integers(0, 10**6)),
        "expected": draw(st.sampled_from(["observed", "apriori"])), "size": draw(st.sampled_from([None, 1, 5])),
    }


def check_fixed(c, ev):
    """fixed_poi_sampler == sampling at the profiled nuisances of the tested point."""
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    mu = float(c["mu"])
    if spec["kind"] in ("poisson_unc",):
        ev.tag("skipped-degenerate")
        return
    s = model.fixed_poi_sampler(mu, size=c["size"], expected=exp)
    n = 2000
    if c["size"] is None:
        require(callable(s), "a sampler is expected without a size")
        np.random.seed(c["seed"])
        x = np.asarray(s(n), float)
    else:
        require(np.asarray(s).shape[0] == c["size"], "sample size", got=np.asarray(s).shape)
        np.random.seed(c["seed"])
        x = np.asarray(model.fixed_poi_sampler(mu, size=n, expected=exp), float)
    data = ref.b if c["expected"] == "apriori" else ref.data
    if ref.npar == 1:
        lam = np.asarray(ref.rate(np.array([mu])), float)
    else:
        _, best = ref.minimise(data=data, fixed={0: mu})
        if best is None:
            return
        lam = np.asarray(ref.rate(best), float)
    var = lam if spec["kind"] not in ("normal", "mvn") else (
        ref.unc**2 if spec["kind"] == "normal" else np.diag(ref.cov))
    got = x[:, : ref.n].mean(axis=0)
    # 2% allowance for the accuracy of the fitted nuisances
    require(
        np.all(np.abs(got - lam) <= NSIG * np.sqrt(var / n) + 0.02 * np.abs(lam) + 0.02),
        "means of pseudo-data at the profiled point", got=got.tolist(), want=lam.tolist(), kind=spec["kind"],
    )
    ev.tag(spec["kind"], c["expected"])
    ev.mark(ref.npar > 1 and mu > 0)


SUBS = [
    Sub("shape_and_mean", case, check, quick=1200, thorough=16000),
    Sub("statistics", stat_case, check_stat, quick=500, thorough=6000),
    Sub("profiled_sampler", fixed_case, check_fixed, quick=240, thorough=2400),
]

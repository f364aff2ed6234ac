"""P18: uncertainty on the signal strength."""
import math

import numpy as np
from autograd import hessian as ahess
from hypothesis import strategies as st

from harness import analytic, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P18"
RULE = (
    "analytic: closed-form likelihoods with and without a Hessian, every statistic. real: generated models, curvature "
    "from the reference likelihood's exact Hessian at the profiled point, second differences of the profile and closed "
    "forms. Non-trivial: a finite non-zero uncertainty that is not the fallback."
)
BUDGET = {"quick": 200, "thorough": 3000}


@st.composite
def an_case(draw):
    return {"d": draw(analytic.strategy()), "mu": draw(st.one_of(S.num(-2, 6, 3), st.integers(0, 4), st.just(0.0))),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "stat": draw(st.sampled_from(["qtilde", "q", "q0"])), "hess": draw(st.booleans()), "dflt": draw(st.booleans())}


def check_an(c, ev):
    m, cv = analytic.make(c["d"], hessian=c["hess"])
    e, mu = models.expectation(c["e"]), c["mu"]
    kw = {} if (c["dflt"] and c["stat"] == "qtilde") else {"test_statistics": c["stat"]}
    if not (c["e"] == "observed" and c["dflt"]):
        kw["expected"] = e
    got = float(m.sigma_mu(mu, **kw))
    if c["hess"]:
        want = cv.sigma_hess(mu, cv.obs(c["e"]))
        require_close(got, want, "the curvature must be used when it is available", rtol=1e-12, atol=0, case=c)
        ev.tag("curvature")
        ev.mark()
        return
    xa = cv.asimov(c["e"], c["stat"])
    mh = cv.muhat(xa, c["stat"] == "q")
    f = lambda v: -cv.nll(v, xa)  # noqa: E731
    q = analytic.q_stat(c["stat"], mu, mh, f(mh), f)
    if q == 0.0:
        require(got == 1.0, "fallback of a vanishing Asimov statistic", got=got)
        ev.tag("fallback")
        return
    if q < 1e-9:
        raise Inconclusive("vanishing Asimov statistic")
    at = 0.0 if c["stat"] == "q0" else mu
    require_close(got, abs(at - mh) / math.sqrt(q), "Asimov estimate", rtol=1e-6, atol=1e-9, case=c, muhatA=mh, q=q)
    if c["d"]["family"] == "gauss" and not (c["stat"] == "qtilde" and mu < 0):
        require_close(got, c["d"]["sigma"], "Gaussian width", rtol=1e-5, atol=0)
        ev.tag("gauss-width")
    ev.tag("asimov", c["stat"], c["d"]["family"])
    ev.mark()


@st.composite
def real_case(draw):
    spec = draw(S.model(max_bins=4, tame=True, modifiers=True, signal_fn=draw(st.integers(0, 4)) == 0, sig=(0.1, 0.9), cov_fn=True))
    return {"spec": spec, "mu": draw(S.num(0.05, 3, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "form": draw(st.sampled_from(["number", "index", "name"])), "theta": draw(st.one_of(st.none(), st.none(), S.num(-1, 1, 2))),
            "which": draw(st.integers(0, 9))}


def check_real(c, ev):
    spec, mu = c["spec"], c["mu"]
    ref = Ref(spec)
    m = models.build(spec)
    e = models.expectation(c["e"])
    data = ref.b if c["e"] == "apriori" else ref.data
    cfg = m.backend.config()
    if cfg.parameter_names is None:
        cfg.parameter_names = ["mu"] + [f"n{i}" for i in range(1, ref.npar)]
    poi = {"number": mu, "index": {0: mu}, "name": {cfg.parameter_names[0]: mu}}[c["form"]]
    if c["theta"] is not None and ref.constrained:
        i = ref.th0 + c["which"] % ref.n_theta
        if not isinstance(poi, dict):
            poi = {0: mu}
        poi = dict(poi, **{cfg.parameter_names[i]: c["theta"]}) if c["form"] == "name" else {**poi, i: c["theta"]}
    _, pars = m.likelihood(poi, expected=e, return_parameters=True)
    H = ahess(lambda p: ref.nll(p, data))(np.array(pars, float))
    if not np.all(np.isfinite(H)):
        raise Inconclusive("reference Hessian is not finite")
    with np.errstate(all="ignore"):
        try:
            cond = np.linalg.cond(H)
            v = np.linalg.inv(H)[0, 0]
        except np.linalg.LinAlgError:
            raise Inconclusive("singular Hessian") from None
    if not cond < 1e7:
        raise Inconclusive("ill-conditioned Hessian")
    if np.linalg.eigvalsh(H).min() <= 1e-7 * np.abs(H).max() or v <= 1e-8:
        raise Inconclusive("not a proper minimum")
    t = 2e-3 if ref.kind == "third" else 1e-5
    t = max(t, 1e-10 * cond)
    got = float(m.sigma_mu_from_hessian(poi, expected=e))
    require_close(got, math.sqrt(v), "curvature uncertainty", rtol=t, atol=1e-10, pars=[float(x) for x in pars])
    require_close(float(m.sigma_mu(poi, expected=e)), got, "sigma_mu must use the curvature", rtol=1e-6, atol=1e-10)
    ev.tag(ref.kind, c["e"], c["form"])
    if not ref.mods and not ref.nsp and "uncfun" not in spec and "covfun" not in spec:
        if ref.kind == "normal":
            w = 1 / math.sqrt(np.sum((ref.s / ref.unc) ** 2))
            require_close(got, w, "closed form of independent Gaussian bins", rtol=1e-6, atol=0)
            ev.tag("closed-form")
        elif ref.kind == "mvn":
            w = 1 / math.sqrt(ref.s @ ref.cov_inv @ ref.s)
            require_close(got, w, "closed form of correlated Gaussian bins", rtol=1e-6, atol=0)
            ev.tag("closed-form")
        elif ref.kind == "poisson":
            lam = ref.b + mu * ref.s
            w = 1 / math.sqrt(np.sum(data * (ref.s / lam) ** 2))
            require_close(got, w, "closed form of Poisson bins", rtol=1e-6, atol=0)
            ev.tag("closed-form")
        elif ref.kind in ("uncorrelated", "correlated") and c["theta"] is None:
            # second difference of the reference profile
            h = 0.05 * got
            if mu - h > ref.minimum_poi:
                f = [ref.minimise(data, fixed={0: x}, starts=[pars]) for x in (mu - h, mu, mu + h)]
                # on the boundary background = 0 the profile is not smooth and the Hessian does not describe it
                inside = all(np.min(np.asarray(ref.background(p)) / ref.b) > 1e-3 for _, p in f)
                if inside:
                    d2 = (f[0][0] - 2 * f[1][0] + f[2][0]) / h**2
                    if d2 > 0:
                        require_close(got, 1 / math.sqrt(d2), "curvature of the profile", rtol=0.03, atol=0)
                        ev.tag("profile-curvature")
    ev.mark()


SUBS = [
    Sub("analytic", an_case, check_an, quick=3000, thorough=60000),
    Sub("real", real_case, check_real, quick=600, thorough=15000),
]

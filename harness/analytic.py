"""A hypothesis-testing front end over likelihoods with closed forms.

``make(desc)`` returns an object deriving from spey's public ``HypothesisTestingBase`` whose
profiled, maximised and Asimov likelihoods are analytic.  Everything the base class derives
(exclusion, limits, significance, chi-square intervals, ...) then has an exact reference.

families (data are one number x):
  gauss   x ~ N(mu, sigma)                     muhat = x
  poisson n ~ Pois(mu s + b)                   muhat = (n - b) / s
  skew    nll = (x-mu)^2/(2 sigma^2) + k*exp(a*(mu-x)) - k*a*(mu-x): convex, asymmetric, muhat = x
"""
import math

import numpy as np


class Curve:
    """Closed-form model."""

    def __init__(self, d):
        self.d = d
        self.fam = d["family"]

    def nll(self, mu, x):
        d = self.d
        if self.fam == "gauss":
            return 0.5 * ((x - mu) / d["sigma"]) ** 2 + math.log(d["sigma"]) + 0.5 * math.log(2 * math.pi)
        if self.fam == "poisson":
            lam = mu * d["s"] + d["b"]
            lam = max(lam, 1e-20)
            return lam - x * math.log(lam) + math.lgamma(x + 1.0)
        t = mu - x
        return 0.5 * (t / d["sigma"]) ** 2 + d["k"] * math.exp(min(d["a"] * t, 600.0)) - d["k"] * d["a"] * t

    def muhat(self, x, negative):
        m = (x - self.d["b"]) / self.d["s"] if self.fam == "poisson" else x
        return m if negative else max(0.0, m)

    def obs(self, expected):
        return self.null() if expected == "apriori" else self.d["x"]

    def null(self):
        return self.d["b"] if self.fam == "poisson" else 0.0

    def asimov(self, expected, stat):
        base = 1.0 if stat == "q0" else 0.0
        return base * self.d["s"] + self.d["b"] if self.fam == "poisson" else base

    def sample(self, mu, size, rng):
        d = self.d
        if self.fam == "poisson":
            return rng.poisson(max(mu * d["s"] + d["b"], 0.0), size=size).astype(float)
        return rng.normal(mu, d["sigma"], size=size)

    def sigma_hess(self, mu, x):
        d = self.d
        if self.fam == "gauss":
            return d["sigma"]
        if self.fam == "poisson":
            lam = mu * d["s"] + d["b"]
            return lam / (d["s"] * math.sqrt(x)) if x > 0 else math.inf
        return 1.0 / math.sqrt(1.0 / d["sigma"] ** 2 + d["k"] * d["a"] ** 2 * math.exp(min(d["a"] * (mu - x), 600)))


def make(desc, hessian=False, calls=None, ntoys=50, seed=0):
    import spey
    from spey.base.hypotest_base import HypothesisTestingBase

    curve = Curve(desc)
    calls = calls if calls is not None else []

    class Analytic(HypothesisTestingBase):
        is_alive = True
        is_asymptotic_calculator_available = True
        is_toy_calculator_available = True
        is_chi_square_calculator_available = True

        def __init__(self):
            super().__init__(ntoys=ntoys)
            self.rng = np.random.default_rng(seed)
            self.samples = []

        @staticmethod
        def _x(expected, data):
            return curve.obs(str(expected)) if data is None else float(np.ravel(data)[0])

        def likelihood(self, poi_test=1.0, expected=spey.ExpectationType.observed, return_nll=True, data=None, **kw):
            if isinstance(poi_test, dict):
                poi_test = poi_test[0]
            calls.append(("likelihood", float(poi_test), str(expected), None if data is None else True, dict(kw)))
            v = curve.nll(float(poi_test), self._x(expected, data))
            return v if return_nll else math.exp(-v)

        def maximize_likelihood(self, return_nll=True, expected=spey.ExpectationType.observed,
                                allow_negative_signal=True, data=None, **kw):
            calls.append(("maximize_likelihood", bool(allow_negative_signal), str(expected), None if data is None else True, dict(kw)))
            x = self._x(expected, data)
            m = curve.muhat(x, allow_negative_signal)
            v = curve.nll(m, x)
            return m, (v if return_nll else math.exp(-v))

        def asimov_likelihood(self, poi_test=1.0, expected=spey.ExpectationType.observed, return_nll=True,
                              test_statistics="qtilde", **kw):
            calls.append(("asimov_likelihood", float(poi_test), str(expected), test_statistics, dict(kw)))
            v = curve.nll(float(poi_test), curve.asimov(str(expected), test_statistics))
            return v if return_nll else math.exp(-v)

        def maximize_asimov_likelihood(self, return_nll=True, expected=spey.ExpectationType.observed,
                                       test_statistics="qtilde", **kw):
            calls.append(("maximize_asimov_likelihood", test_statistics, str(expected), dict(kw)))
            x = curve.asimov(str(expected), test_statistics)
            m = curve.muhat(x, test_statistics in ("q", "qmu"))
            v = curve.nll(m, x)
            return m, (v if return_nll else math.exp(-v))

        def fixed_poi_sampler(self, poi_test, size=None, expected=spey.ExpectationType.observed, **kw):
            calls.append(("fixed_poi_sampler", float(poi_test), str(expected), dict(kw)))

            def draw(n):
                out = curve.sample(float(poi_test), n, self.rng)
                self.samples.append((float(poi_test), str(expected), out.tolist()))
                return out.reshape(n, 1)
            return draw if size is None else draw(size)

    if hessian:
        def sigma_mu_from_hessian(self, poi_test, expected=spey.ExpectationType.observed, **kw):
            calls.append(("sigma_mu_from_hessian", float(poi_test), str(expected), dict(kw)))
            return curve.sigma_hess(float(poi_test), curve.obs(str(expected)))

        Analytic.sigma_mu_from_hessian = sigma_mu_from_hessian
    return Analytic(), curve


def strategy(families=("gauss", "poisson", "skew")):
    from hypothesis import strategies as st

    from .strategies import num

    gauss = st.fixed_dictionaries({"family": st.just("gauss"), "x": num(-4, 6, 3), "sigma": num(0.05, 5, 3)})
    pois = st.fixed_dictionaries({"family": st.just("poisson"), "x": st.integers(0, 160).map(float),
                                  "b": num(2, 120, 2), "s": num(0.3, 40, 2)})
    skew = st.fixed_dictionaries({"family": st.just("skew"), "x": num(-3, 5, 3), "sigma": num(0.2, 4, 2),
                                  "k": num(0, 1, 2), "a": num(-1.5, 1.5, 2)})
    return st.one_of(*[{"gauss": gauss, "poisson": pois, "skew": skew}[f] for f in families])


# ---------------------------------------------------------------- independent statistics
def q_stat(kind, mu, muhat, max_logpdf, logpdf):
    """Definitions of 1007.1727 (twice the log-likelihood ratio, clipped)."""
    if kind == "q0":
        return 0.0 if muhat < 0 else max(0.0, 2.0 * (max_logpdf - logpdf(0.0)))
    if kind == "qmu_left":
        return 0.0 if muhat < mu else max(0.0, 2.0 * (max_logpdf - logpdf(mu)))
    if muhat > mu:
        return 0.0
    top = max_logpdf if (kind in ("q", "qmu") or muhat >= 0) else logpdf(0.0)
    return max(0.0, 2.0 * (top - logpdf(mu)))


def ncdf(x):
    from scipy.stats import norm

    return float(norm.cdf(x))


def cls_chain(q, qA, kind):
    """(observed confidence levels, expected confidence levels, degenerate)."""
    sq, sA = math.sqrt(q), math.sqrt(qA)
    if kind in ("q", "qmu", "q0") or sq <= sA:
        delta = sq - sA
    elif sA == 0.0:
        return None
    else:
        delta = (q - qA) / (2.0 * sA)
    return chain_from(sA, delta, kind)


def chain_from(sA, delta, kind):
    psb, pb = ncdf(-sA - delta), ncdf(-delta)
    ps = psb / pb if pb > 0 else 0.0
    ob = [psb if kind == "q0" else ps]
    ex = []
    for n in (2, 1, 0, -1, -2):
        a, b = ncdf(-sA - n), ncdf(-n)
        ex.append(a if kind == "q0" else a / b)
    return ob, ex

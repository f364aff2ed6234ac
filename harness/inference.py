"""Reference inference chain on real models: independent likelihood ingredients -> intervals."""
import math

import numpy as np

from . import analytic
from .core import Inconclusive
from .reference import Ref

CONVEX = ("uncorrelated", "correlated", "poisson", "normal", "mvn")


class Chain:
    """Maximised, profiled and Asimov likelihoods from the reference model only."""

    def __init__(self, spec, expected, stat):
        self.ref = Ref(spec)
        self.stat = stat
        self.data = self.ref.b if expected == "apriori" else self.ref.data
        neg = stat in ("q", "qmu")
        lo = self.ref.minimum_poi if neg else 0.0
        self.bounds = (lo, 10.0)
        self.cache = {}
        nll, pars = self.ref.minimise(self.data, poi_bounds=self.bounds)
        if pars is None:
            raise Inconclusive("reference fit failed")
        self.muhat, self.min_nll, self.pars = float(pars[0]), nll, pars
        mu0 = 1.0 if stat == "q0" else 0.0
        _, p0 = self.ref.minimise(self.data, fixed={0: mu0}, starts=[pars])
        if p0 is None:
            raise Inconclusive("reference Asimov fit failed")
        self.asimov = np.asarray(self.ref.expected_data(p0, aux=False))
        nllA, parsA = self.ref.minimise(self.asimov, poi_bounds=self.bounds, starts=[p0])
        if parsA is None:
            raise Inconclusive("reference fit to Asimov data failed")
        self.muhatA, self.min_nllA, self.p0 = float(parsA[0]), nllA, p0

    def logpdf(self, mu, asimov=False):
        key = (float(mu), asimov)
        if key not in self.cache:
            start = np.array(self.p0 if asimov else self.pars)
            d = self.asimov if asimov else self.data
            v, _ = self.ref.minimise(d, fixed={0: float(mu)}, starts=[start])
            self.cache[key] = -v
        return self.cache[key]

    def q(self, mu, asimov=False):
        mh, top = (self.muhatA, -self.min_nllA) if asimov else (self.muhat, -self.min_nll)
        if self.stat in ("qtilde", "qmutilde", "q", "qmu") and mh > mu:
            return 0.0
        kind = "q0" if self.stat == "q0" else ("q" if self.stat in ("q", "qmu") else "qtilde")
        return analytic.q_stat(kind, mu, mh, top, lambda m: self.logpdf(m, asimov))


def band(fn, q, qA, eps):
    """[min, max] of every component of fn over the +-eps box around (q, qA)."""
    out = None
    for dq in (-eps, -eps / 2, 0.0, eps / 2, eps):
        for dA in (-eps, -eps / 2, 0.0, eps / 2, eps):
            v = fn(max(0.0, q + dq), max(0.0, qA + dA))
            if v is None:
                return None
            v = np.asarray(v, float)
            out = (v, v) if out is None else (np.minimum(out[0], v), np.maximum(out[1], v))
    return out


def cls_band(q, qA, stat, eps):
    """Tolerance bands of (observed CL, five expected CLs)."""
    def fn(a, b):
        r = analytic.cls_chain(a, b, stat)
        if r is None:
            return None
        ob, ex = r
        return [1 - ob[0]] + [1 - x for x in ex]
    return band(fn, q, qA, eps)


def chi_square_chain(ts_sb, ts_b, stat):
    """The chi_square calculator: tested statistic vs the null statistic."""
    s, b = math.sqrt(ts_sb), math.sqrt(ts_b)
    if stat in ("q", "qmu") or s <= b:
        delta = b - s
    else:
        delta = (ts_b - ts_sb) / (2 * s)
    return analytic.chain_from(s, delta, stat)

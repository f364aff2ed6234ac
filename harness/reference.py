"""Independent reference implementation of the documented statistical models.

Written from the documented formulae (never calls spey).  ``autograd.numpy`` is used only so
that the reference can be minimised with exact gradients.
"""
import math

import autograd.numpy as anp
import numpy as np
from autograd import grad, hessian
from autograd.scipy.special import gammaln
from scipy import optimize, stats

from .core import Inconclusive

LOG2PI = math.log(2 * math.pi)


def third_moment_abc(m1, cov, m3, eps=1e-5):
    """A, B, C, rho of arXiv:1809.05548, by solving the defining cubic 6*S*C - 4*C^3 = m3."""
    m1 = np.asarray(m1, float)
    cov = np.asarray(cov, float)
    n = len(m1)
    C = np.zeros(n)
    for i in range(n):
        S = cov[i, i]
        if m3[i] == 0 or 8 * S**3 < m3[i] ** 2:
            continue
        top = math.sqrt(S / 2)
        f = lambda c: 6 * S * c - 4 * c**3 - m3[i]  # noqa: E731
        if f(top) <= 0:
            C[i] = top
        elif f(-top) >= 0:
            C[i] = -top
        else:
            C[i] = optimize.brentq(f, -top, top, xtol=1e-15, rtol=1e-14)
    S = np.diag(cov)
    B = np.sqrt(np.maximum(S - 2 * C**2, 0.0))
    A = m1 - C
    Ce = np.where(C >= 0, C + eps, C - eps)
    rho = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            cc = Ce[i] * Ce[j]
            bb = B[i] * B[j]
            disc = bb * bb + 8 * C[i] * C[j] * cov[i, j]
            if disc >= 0 and math.sqrt(disc) + bb > 0:
                rho[i, j] = 2 * cov[i, j] / (math.sqrt(disc) + bb)
            else:  # no solution: the documented regularised form
                rho[i, j] = (np.sqrt(abs(bb * bb + 8 * cc * cov[i, j])) - bb) / (4 * cc)
    return A, B, C, rho


def signal_fn(sf):
    """The signal as a function of its extra parameters (autograd compatible)."""
    c0 = anp.array(sf["c0"])
    c1 = [anp.array(c) for c in sf["c1"]]
    nsp = sf["nsp"]

    def fn(p):
        if sf["type"] == "linear":
            out = c0
            for k in range(nsp):
                out = out + 0.3 * c1[k] * p[k]
            return out
        if sf["type"] == "quad":
            out = c0
            for k in range(nsp):
                out = out + 0.1 * (1 + c1[k] ** 2) * p[k] ** 2 + 0.2 * c1[k] * p[k]
            return out
        out = 0.0
        for k in range(nsp):
            out = out + 0.3 * c1[k] * p[k]
        return c0 * anp.exp(out)

    return fn


class Ref:
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.b = np.array(spec["b"], float)
        self.n = len(self.b)
        self.data = np.array(spec["data"], float)
        self.sfun = signal_fn(spec["sfun"]) if "sfun" in spec else None
        self.s = None if self.sfun else np.array(spec["s"], float)
        self.nsp = spec["sfun"]["nsp"] if "sfun" in spec else 0
        self.mods = spec.get("mods") or []
        self.n_theta = self.n if self.kind in ("uncorrelated", "correlated", "third", "effsig", "poisson_unc") else 0
        self.th0 = 1 + self.nsp
        self.mod0 = self.th0 + self.n_theta
        self.n_mod = sum(1 if m["type"] == "normalization" else self.n for m in self.mods)
        self.npar = self.mod0 + self.n_mod
        self.constrained = self.kind in ("uncorrelated", "correlated", "third", "effsig")
        if self.kind in ("uncorrelated", "poisson_unc", "normal"):
            self.unc = np.array(spec["unc"], float)
        if self.kind in ("correlated", "mvn", "third"):
            self.cov = np.array(spec["cov"], float)
        self.rho = None
        if self.kind == "uncorrelated":
            self.rho = np.eye(self.n)
        elif self.kind == "correlated":
            d = np.sqrt(np.diag(self.cov))
            self.B = d
            self.rho = self.cov / np.outer(d, d)
        elif self.kind == "third":
            self.A, self.B, self.C, self.rho = third_moment_abc(self.b, self.cov, np.array(spec["m3"], float))
        elif self.kind == "effsig":
            self.rho = np.array(spec["corr"], float)
            env = np.abs(np.array(spec["env"], float))
            self.sp, self.sm = env[:, 0], env[:, 1]
        if self.rho is not None:
            self.rho_inv = np.linalg.inv(self.rho)
            self.rho_logdet = np.linalg.slogdet(self.rho)[1]
        if self.kind == "mvn" and "covfun" not in spec:
            self.cov_inv = np.linalg.inv(self.cov)
            self.cov_logdet = np.linalg.slogdet(self.cov)[1]

    # ---- documented bookkeeping
    @property
    def minimum_poi(self):
        if self.sfun is not None:
            return -math.inf
        pos = self.s > 0
        if not pos.any():
            return -math.inf
        return -float(np.min(self.b[pos] / self.s[pos]))

    def signal(self, pars):
        if self.sfun is not None:
            return self.sfun(pars[1 : 1 + self.nsp])
        return anp.array(self.s)

    def modifier(self, pars):
        idx = self.mod0
        logf = anp.zeros(self.n)
        for m in self.mods:
            u = np.array(m["uncertainties"], float)
            up = u if u.ndim == 1 else u[:, 0]
            dn = u if u.ndim == 1 else u[:, 1]
            with np.errstate(all="ignore"):
                lu = np.where(self.s > 0, np.log1p(np.where(self.s > 0, up / np.where(self.s > 0, self.s, 1), 0)), 0.0)
                ld = np.where(self.s > 0, np.log1p(np.where(self.s > 0, dn / np.where(self.s > 0, self.s, 1), 0)), 0.0)
            if m["type"] == "normalization":
                a = pars[idx]
                idx += 1
                logf = logf + anp.where(a >= 0, a * lu, a * ld)
            else:
                a = pars[idx : idx + self.n]
                idx += self.n
                logf = logf + anp.where(a >= 0, a * lu, a * ld)
        return anp.exp(logf)

    def background(self, pars):
        th = pars[self.th0 : self.th0 + self.n_theta]
        if self.kind in ("uncorrelated", "poisson_unc"):
            return self.b + self.unc * th
        if self.kind == "correlated":
            return self.b + self.B * th
        if self.kind == "third":
            return self.A + self.B * th + self.C * th**2
        if self.kind == "effsig":
            eff = anp.sqrt(anp.clip(self.sp * self.sm + (self.sp - self.sm) * (th - self.b), 1e-10, None))
            return self.b + eff * th
        return self.b

    def rate(self, pars):
        sig = self.signal(pars)
        if self.mods:
            sig = sig * self.modifier(pars)
        return pars[0] * sig + self.background(pars)

    def sigma(self, pars):
        """Per-bin width (normal) or covariance matrix (mvn) at the parameter point."""
        f = 1.0
        if "uncfun" in self.spec:
            return self.unc * anp.sqrt(1.0 + self.spec["uncfun"] * pars[0] ** 2)
        if "covfun" in self.spec:
            return self.cov * (1.0 + self.spec["covfun"] * pars[0] ** 2)
        return (self.unc if self.kind == "normal" else self.cov) * f

    def log_constraint(self, pars):
        out = 0.0
        if self.constrained:
            th = pars[self.th0 : self.th0 + self.n_theta]
            out = out - 0.5 * anp.dot(th, anp.dot(self.rho_inv, th)) - 0.5 * (self.n * LOG2PI + self.rho_logdet)
        if self.n_mod:
            al = pars[self.mod0 :]
            out = out - 0.5 * anp.sum(al**2) - 0.5 * self.n_mod * LOG2PI
        return out

    def log_main(self, pars, data=None):
        data = self.data if data is None else np.asarray(data, float)
        data = data[: self.n]
        lam = self.rate(pars)
        if self.kind == "normal":
            sg = self.sigma(pars)
            return anp.sum(-0.5 * ((data - lam) / sg) ** 2 - anp.log(sg) - 0.5 * LOG2PI)
        if self.kind == "mvn":
            d = data - lam
            if "covfun" in self.spec:
                cov = self.sigma(pars)
                f = 1.0 + self.spec["covfun"] * pars[0] ** 2
                inv = np.linalg.inv(self.cov) / f
                logdet = np.linalg.slogdet(self.cov)[1] + self.n * anp.log(f)
                del cov
            else:
                inv, logdet = self.cov_inv, self.cov_logdet
            return -0.5 * anp.dot(d, anp.dot(inv, d)) - 0.5 * (self.n * LOG2PI + logdet)
        lam = anp.clip(lam, 1e-20, None)
        return anp.sum(data * anp.log(lam) - lam - gammaln(data + 1.0))

    def logpdf(self, pars, data=None):
        return self.log_main(pars, data) + self.log_constraint(pars)

    def nll(self, pars, data=None):
        return -self.logpdf(anp.array(pars) if isinstance(pars, list) else pars, data)

    def scipy_logpdf(self, pars, data=None):
        """Second, fully scipy.stats-based evaluation (integer data only for the Poisson part)."""
        pars = np.asarray(pars, float)
        data = (self.data if data is None else np.asarray(data, float))[: self.n]
        lam = np.asarray(self.rate(pars), float)
        if self.kind == "normal":
            out = stats.norm.logpdf(data, lam, np.asarray(self.sigma(pars))).sum()
        elif self.kind == "mvn":
            out = stats.multivariate_normal.logpdf(data, lam, np.asarray(self.sigma(pars)))
        else:
            out = stats.poisson.logpmf(data, np.clip(lam, 1e-20, None)).sum()
        if self.constrained:
            th = pars[self.th0 : self.th0 + self.n_theta]
            out += stats.multivariate_normal.logpdf(th, np.zeros(self.n), self.rho)
        if self.n_mod:
            out += stats.norm.logpdf(pars[self.mod0 :]).sum()
        return float(out)

    def apriori(self):
        return self.b.copy()

    def expected_data(self, pars, aux=True):
        lam = np.asarray(self.rate(np.asarray(pars, float)), float)
        if self.kind not in ("normal", "mvn"):
            lam = np.clip(lam, 1e-20, None)
        if aux and self.kind in ("uncorrelated", "correlated", "third", "effsig"):
            lam = np.concatenate([lam, np.zeros(self.n_theta + self.n_mod)])
        return lam

    # ---- reference minimisation
    def bounds(self, poi_bounds=None, mu_hi=10.0):
        lo = self.minimum_poi
        out = [poi_bounds or ((lo if math.isfinite(lo) else None), mu_hi)]
        sb = self.spec.get("sfun", {}).get("bounds") if self.sfun else None
        for k in range(self.nsp):
            out.append(tuple(sb[k]) if sb else (None, None))
        out += [(None, None)] * (self.npar - 1 - self.nsp)
        # the documented constraint: the background yield of every bin stays non-negative
        width = {"uncorrelated": getattr(self, "unc", None), "poisson_unc": getattr(self, "unc", None), "correlated": getattr(self, "B", None)}.get(self.kind)
        if width is not None:
            for k in range(self.n):
                if width[k] > 0:
                    out[self.th0 + k] = (-self.b[k] / width[k], None)
        return out

    def beside_kink(self, pars):
        """A nuisance of a one-sided source of signal uncertainty that stopped close to, but not at, its kink at zero."""
        idx = self.mod0
        for m in self.mods:
            u = np.array(m["uncertainties"], float)
            one = np.zeros(self.n, bool) if u.ndim == 1 else (u[:, 0] == 0) != (u[:, 1] == 0)
            if m["type"] == "normalization":
                if one.any() and 0 < abs(pars[idx]) < 1e-3:
                    return True
                idx += 1
            else:
                if np.any(one & (pars[idx : idx + self.n] != 0) & (np.abs(pars[idx : idx + self.n]) < 1e-3)):
                    return True
                idx += self.n
        return False

    def minimise(self, data=None, fixed=None, starts=None, poi_bounds=None, mu_hi=10.0):
        """Best point found by multi-start L-BFGS-B + polish.  Returns (nll, pars)."""
        fixed = dict(fixed or {})
        free = [i for i in range(self.npar) if i not in fixed]
        bnds = self.bounds(poi_bounds, mu_hi)

        def full(x):
            out = []
            it = 0
            for i in range(self.npar):
                if i in fixed:
                    out.append(fixed[i])
                else:
                    out.append(x[it])
                    it += 1
            return anp.array(out)

        def f(x):
            return self.nll(full(x), data)

        g = grad(f)
        best = (math.inf, None)
        if not free:
            x = np.array([fixed[i] for i in range(self.npar)], float)
            return float(self.nll(x, data)), x
        starts = list(starts or [])
        starts.append(np.zeros(self.npar))
        s1 = np.zeros(self.npar)
        s1[0] = 1.0
        starts.append(s1)
        starts.append(np.ones(self.npar))
        rescue = [np.full(self.npar, -0.5), np.full(self.npar, -2.0), np.full(self.npar, 0.3)]
        for s0 in starts + rescue:
            if s0 is rescue[0] and best[1] is not None:
                break
            x0 = np.asarray(s0, float)[free]
            bb = [bnds[i] for i in free]
            x0 = np.array([
                min(max(v, -math.inf if lo is None else lo), math.inf if hi is None else hi)
                for v, (lo, hi) in zip(x0, bb)
            ])
            # stay inside the physical region at the start
            for _ in range(40):
                v = f(x0)
                if np.isfinite(v) and np.all(np.asarray(self.background(full(x0))) > 0):
                    break
                x0 = x0 * 0.7
            try:
                r = optimize.minimize(f, x0, jac=g, method="L-BFGS-B", bounds=bb,
                                      options={"maxiter": 2000, "ftol": 1e-15, "gtol": 1e-9})
            except (ValueError, FloatingPointError):
                continue
            x = full(r.x)
            v = float(r.fun)
            if np.isfinite(v) and v < best[0] and (
                self.kind in ("normal", "mvn") or np.all(np.asarray(self.background(np.asarray(x, float))) >= -1e-9)
            ):
                best = (v, np.asarray(x, float))
        if best[1] is None:
            raise Inconclusive("reference fit found no physical optimum")
        return best

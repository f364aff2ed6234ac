"""P24: back-ends with only the mandatory methods get the full inference; overrides are honoured."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import custom, models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P24"
RULE = (
    "A case is a density with a generated subset of optional methods implemented by a user-written back-end, queried like the "
    "built-in model of the same density; or a back-end with native likelihood methods that records its calls. "
    "Non-trivial: at least one optional method is missing, or an override received non-default arguments."
)
BUDGET = {"quick": 150, "thorough": 2400}
ASSUMPTIONS = [
    "Numerical gradients limit the comparison with the built-in model to 2e-3 in the log-likelihood and to the corresponding flatness in mu.",
]


@st.composite
def case(draw):
    kinds = ("poisson", "uncorrelated", "correlated")
    spec = draw(S.model(kinds=kinds, max_bins=2, tame=True, small_unc=True, sig=(0.1, 0.5), zero_signal=True))
    caps = [x for x in ("grad", "hessian", "sampler", "expected", "alive") if draw(st.booleans())]
    return {"spec": spec, "caps": caps, "mus": [draw(S.num(-0.1, 3, 2)), draw(S.num(0, 1, 2))],
            "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
            "data": draw(st.one_of(st.none(), S.vec(len(spec["b"]), 0.6, 1.5, 2))), "neg": draw(st.booleans())}


def check(c, ev):
    import spey
    from spey.interface.statistical_model import StatisticalModel
    from spey.system.exceptions import CalculatorNotAvailable, CombinerNotAvailable, MethodNotAvailable

    spec, caps = c["spec"], c["caps"]
    ref = Ref(spec)
    be = custom.make(spec, caps)
    mine = StatisticalModel(be, "mine", ntoys=7)
    base = models.build(spec)
    exp = models.expectation(c["expected"])
    data = None if c["data"] is None else [round(r * b, 1) for r, b in zip(c["data"], spec["b"])]
    rdata = np.array(data) if data is not None else (ref.b if c["expected"] == "apriori" else ref.data)
    lo = ref.minimum_poi
    for mu in c["mus"]:
        mu = max(mu, 0.5 * lo)
        a, pa = mine.likelihood(mu, expected=exp, data=data, return_parameters=True)
        b = base.likelihood(mu, expected=exp, data=data)
        require_close(float(a), float(ref.nll(np.asarray(pa, float), rdata)), "value is not the density at the returned parameters", rtol=1e-9, atol=1e-9)
        require_close(pa[0], mu, "tested value", rtol=0, atol=1e-9)
        if np.min(np.asarray(ref.background(np.asarray(pa, float)), float)) < 1e-3:
            ev.tag("boundary")  # the built-in models keep the background non-negative
            continue
        require_close(float(a), float(b), "likelihood differs from the built-in model", rtol=1e-5, atol=2e-3, mu=mu)
        lk = float(mine.likelihood(mu, expected=exp, data=data, return_nll=False))
        require_close(lk, math.exp(-float(a)), "likelihood and its logarithm", rtol=1e-6, atol=1e-300)
    mu1, n1 = mine.maximize_likelihood(expected=exp, data=data, allow_negative_signal=c["neg"])
    mu2, n2 = base.maximize_likelihood(expected=exp, data=data, allow_negative_signal=c["neg"])
    require_close(float(n1), float(n2), "maximum differs from the built-in model", rtol=1e-5, atol=2e-3)
    require((lo if c["neg"] else 0) - 1e-9 <= mu1 <= 10 + 1e-9, "best fit outside the allowed region", mu=mu1)
    cross = float(base.likelihood(float(mu1), expected=exp, data=data))
    require(cross <= float(n2) + 4e-3 + 1e-5 * abs(cross), "best-fit signal strength differs from the built-in model", mine=mu1, builtin=mu2)

    # capabilities
    want = []
    if "sampler" in caps:
        want.append("toy")
    if "expected" in caps:
        want.append("asymptotic")
    want.append("chi_square")
    require(list(mine.available_calculators) == want, "available calculators", got=list(mine.available_calculators), expected=want)
    require(mine.is_toy_calculator_available is ("sampler" in caps), "toy calculator availability")
    require(mine.is_asymptotic_calculator_available is ("expected" in caps), "asymptotic calculator availability")
    require(mine.is_alive is (any(x > 0 for x in spec["s"]) if "alive" in caps else True), "is_alive")
    require(base.available_calculators == ["toy", "asymptotic", "chi_square"], "calculators of the built-in model")
    cb = spey.UnCorrStatisticsCombiner(mine, base)
    require(cb.is_asymptotic_calculator_available is ("expected" in caps), "asymptotic availability of a combination")
    mu = max(abs(c["mus"][0]), 0.1)

    def refused(fn, errs, what):
        try:
            out = fn()
        except errs:
            ev.tag("refused")
            return
        require(False, "missing ingredient was not refused", what=what, result=repr(out))

    if "sampler" not in caps:
        refused(lambda: mine.exclusion_confidence_level(mu, calculator="toy", verbose=False), CalculatorNotAvailable, "toy calculator")
        refused(lambda: mine.fixed_poi_sampler(mu, size=2), MethodNotAvailable, "sampler")
    else:
        x = np.asarray(mine.fixed_poi_sampler(mu, size=4), float)
        require(x.shape == (4, len(spec["b"])), "shape of the samples", shape=x.shape)
    if "hessian" not in caps:
        refused(lambda: mine.sigma_mu_from_hessian(mu), MethodNotAvailable, "Hessian")
    elif float(min(ref.rate(np.array([mu] + [0.0] * (ref.npar - 1))))) > 0.5:
        a, b = float(mine.sigma_mu_from_hessian(mu)), float(base.sigma_mu_from_hessian(mu))
        require_close(a, b, "curvature differs from the built-in model", rtol=2e-2, atol=1e-6)
        ev.tag("hessian")
    if "expected" not in caps:
        refused(lambda: mine.exclusion_confidence_level(mu), CalculatorNotAvailable, "asymptotic calculator")
        refused(lambda: cb.exclusion_confidence_level(mu), CalculatorNotAvailable, "asymptotic calculator of a combination")
        miss = (NotImplementedError, CalculatorNotAvailable, MethodNotAvailable)
        refused(lambda: mine.generate_asimov_data(), miss, "Asimov data")
        refused(lambda: mine.asimov_likelihood(mu), miss, "Asimov likelihood")
        refused(lambda: mine.maximize_asimov_likelihood(), miss, "Asimov maximum")
        refused(lambda: mine.significance(), miss, "significance")
        refused(lambda: mine.poi_upper_limit(), miss, "upper limit")
        if "hessian" not in caps:
            refused(lambda: mine.sigma_mu(mu), miss, "sigma_mu")
    else:
        ea = np.array(mine.exclusion_confidence_level(mu, expected=exp), float)
        eb = np.array(base.exclusion_confidence_level(mu, expected=exp), float)
        require(ea.shape == eb.shape, "shape of the exclusion level", a=ea.shape, b=eb.shape)
        # an error of 4e-3 in -log L moves sqrt(q) by at most sqrt(8e-3)
        require_allclose(ea, eb, "exclusion level differs from the built-in model", rtol=0, atol=0.08)
        ev.tag("exclusion")
    refused(lambda: mine.exclusion_confidence_level(mu, calculator="no_such"), CalculatorNotAvailable, "unknown calculator")
    refused(lambda: mine @ base, CombinerNotAvailable, "combination")
    chi = float(mine.chi2(poi_test=mu, allow_negative_signal=True))
    chib = float(base.chi2(poi_test=mu, allow_negative_signal=True))
    require_close(chi, chib, "chi2 differs from the built-in model", rtol=1e-4, atol=1e-2)
    for x in caps:
        ev.tag(x)
    ev.mark(len(caps) < 5)


# ------------------------------------------------------------------------------------------------ overrides
@st.composite
def native_case(draw):
    n = draw(st.integers(1, 4))
    return {
        "n": n, "poi": draw(st.integers(0, n - 1)),
        "native": [x for x in ("nll", "asimov", "min", "minasimov") if draw(st.integers(0, 3)) > 0],
        "mu0": draw(S.num(-1, 2, 2)), "w": draw(S.num(0.2, 4, 2)), "off": draw(S.num(-3, 3, 2)),
        "ret": draw(st.sampled_from(["tuple", "tuple", "float"])),
        "calls": draw(st.lists(st.tuples(
            st.sampled_from(["nll", "asimov", "min", "minasimov", "chi2", "cls"]), S.num(-1, 4, 2), st.booleans(),
            st.sampled_from(["observed", "aposteriori", "apriori"]), st.integers(0, 31)), min_size=1, max_size=8)),
    }


def check_native(c, ev):
    import spey
    from spey.base import ModelConfig
    from spey.interface.statistical_model import StatisticalModel
    from spey.system.exceptions import CalculatorNotAvailable

    n, poi, w, mu0, off = c["n"], c["poi"], c["w"], c["mu0"], c["off"]
    names = [f"p{i}" for i in range(n)]
    log = []

    def nll_at(mu, asimov=False):
        m = 0.0 if asimov else mu0
        return 0.5 * w * (mu - m) ** 2 + off

    def value(poi_test):
        return float(poi_test) if not isinstance(poi_test, dict) else float(poi_test.get(poi, poi_test.get(names[poi], mu0)))

    def pars(mu):
        out = np.arange(n) * 0.25 + 0.125
        out[poi] = mu
        return out

    class Native(spey.BackendBase):
        name, version, author, spey_requires = "verif.native", "1", "v", ">=0.0.1"

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return ModelConfig(poi, -5.0, [1.0] * n, [(-5.0 if allow_negative_signal or i != poi else 0.0, 10.0) for i in range(n)],
                               parameter_names=list(names))

        def get_logpdf_func(self, expected=None, data=None):
            log.append(("generic", None))
            return lambda p: -(nll_at(p[poi], asimov=data is not None) + float(sum((p[i] - pars(0)[i]) ** 2 for i in range(n) if i != poi)))

        def expected_data(self, p):
            return [1.0]

        if "nll" in c["native"]:
            def negative_loglikelihood(self, poi_test=1.0, expected=None, **kw):
                log.append(("nll", dict(kw, poi_test=poi_test, expected=expected)))
                asm = kw.get("data") is not None
                r = nll_at(value(poi_test), asm)
                return r if c["ret"] == "float" and not kw.get("return_parameters") else (r, pars(value(poi_test)))

        if "asimov" in c["native"]:
            def asimov_negative_loglikelihood(self, poi_test=1.0, expected=None, test_statistics="qtilde", **kw):
                log.append(("asimov", dict(kw, poi_test=poi_test, expected=expected, test_statistics=test_statistics)))
                return nll_at(value(poi_test), True), pars(value(poi_test))

        if "min" in c["native"]:
            def minimize_negative_loglikelihood(self, expected=None, allow_negative_signal=True, **kw):
                log.append(("min", dict(kw, expected=expected, allow_negative_signal=allow_negative_signal)))
                m = 0.0 if kw.get("data") is not None else mu0
                m = m if allow_negative_signal else max(m, 0.0)
                return nll_at(m, kw.get("data") is not None), pars(m)

        if "minasimov" in c["native"]:
            def minimize_asimov_negative_loglikelihood(self, expected=None, test_statistics="qtilde", **kw):
                log.append(("minasimov", dict(kw, expected=expected, test_statistics=test_statistics)))
                return nll_at(0.0, True), pars(0.0)

    m = StatisticalModel(Native(), "native")
    nat = c["native"]
    require(m.is_asymptotic_calculator_available is True, "expected data make the asymptotic calculator available")
    nondefault = False
    for call, mu, flag, exps, bits in c["calls"]:
        exp = models.expectation(exps)
        log.clear()
        key = mu if bits & 1 else ({names[poi]: mu} if bits & 2 else {poi: mu})
        init = [0.5] * n if bits & 4 else None
        bnds = [(-6.0, 9.0)] * n if bits & 8 else None
        if {"nll": "nll", "asimov": "asimov", "min": "min", "minasimov": "minasimov"}.get(call) in nat:
            # a native method sees what the caller wrote, also if it is empty
            init = [] if bits & 12 == 4 and mu < 0 else init
            bnds = [] if bits & 12 == 8 and mu < 0 else bnds
        extra = {"marker": bits} if bits & 16 else {}
        nondefault |= bits > 1 or exps != "observed"
        fit = {"init_pars": init, "par_bounds": bnds}
        if call == "nll":
            out = m.likelihood(key, expected=exp, return_nll=flag, return_parameters=bool(bits & 4), data=[2.0] if bits & 8 else None, **fit, **extra)
            e = nll_at(mu, bool(bits & 8))
            v, p = out if bits & 4 else (out, None)
            require(np.ndim(v) == 0, "likelihood is not a number", got=repr(out))
            require_close(float(v), e if flag else math.exp(-e), "likelihood of the native method", rtol=1e-6, atol=1e-6)
            if "nll" in nat:
                got = one(log, "nll")
                require(got["poi_test"] == key and got["expected"] == exp, "tested point / expectation of the override", got=got)
                require(got.get("data") == ([2.0] if bits & 8 else None), "data of the override", got=got)
                passed(got, init, bnds, extra)
                if bits & 4:
                    require_allclose(p, pars(mu), "parameters of the override", rtol=1e-12, atol=1e-12)
        elif call == "asimov":
            ts = "q0" if bits & 4 else ("q" if bits & 8 else "qtilde")
            out = m.asimov_likelihood(key, expected=exp, return_nll=flag, test_statistics=ts, **fit, **extra)
            e = nll_at(mu, True)
            require(np.ndim(out) == 0, "Asimov likelihood is not a number", got=repr(out))
            require_close(float(out), e if flag else math.exp(-e), "Asimov likelihood", rtol=1e-6, atol=1e-6)
            if "asimov" in nat:
                got = one(log, "asimov")
                require(got["poi_test"] == key and got["expected"] == exp and got["test_statistics"] == ts, "arguments of the override", got=got)
                passed(got, init, bnds, extra)
        elif call == "min":
            req = None if bits & 1 else [names[poi], n - 1 if n > 1 else 0]
            mh, v = m.maximize_likelihood(return_nll=flag, expected=exp, allow_negative_signal=bool(bits & 2), poi_indices=req, **fit, **extra)
            best = mu0 if bits & 2 or (bnds and "min" not in nat) else max(mu0, 0.0)  # caller's bounds win
            e = nll_at(best)
            require_close(float(v), e if flag else math.exp(-e), "maximum", rtol=1e-5, atol=1e-5)
            tol = 1e-12 if "min" in nat else 2e-2
            if req is None:
                require_close(float(mh), best, "best fit", rtol=tol, atol=tol)
            else:
                require(list(mh) == list(dict.fromkeys(req)), "requested parameters", got=list(mh))
                require_close(float(mh[names[poi]]), best, "best fit by name", rtol=tol, atol=tol)
                require_close(float(mh[req[1]]), pars(best)[req[1]], "other parameter", rtol=tol, atol=tol)
            if "min" in nat and log:
                got = one(log, "min")
                require(got["expected"] == exp and got["allow_negative_signal"] is bool(bits & 2), "arguments of the override", got=got)
                passed(got, init, bnds, extra)
        elif call == "minasimov":
            ts = "q" if bits & 4 else "qtilde"
            mh, v = m.maximize_asimov_likelihood(return_nll=flag, expected=exp, test_statistics=ts, **fit, **extra)
            e = nll_at(0.0, True)
            require_close(float(v), e if flag else math.exp(-e), "Asimov maximum", rtol=1e-5, atol=1e-5)
            require_close(float(mh), 0.0, "Asimov best fit", rtol=0, atol=1e-12 if {"minasimov"} & set(nat) else 2e-2)
            if "minasimov" in nat and log:
                got = one(log, "minasimov")
                require(got["expected"] == exp and got["test_statistics"] == ts, "arguments of the override", got=got)
                passed(got, init, bnds, extra)
        elif call == "chi2":
            v = float(m.chi2(poi_test=mu, expected=exp, allow_negative_signal=flag))
            best = mu0 if flag else max(mu0, 0.0)
            require_close(v, 2 * (nll_at(mu) - nll_at(best)), "chi2 through the native methods", rtol=1e-4, atol=1e-4)
        elif call == "cls" and mu > 0.05:
            obs = m.exclusion_confidence_level(mu, expected=exp, allow_negative_signal=flag)
            require(np.all(np.isfinite(obs)), "exclusion level through the native methods", got=obs)
            if exps == "observed" and not flag:
                from scipy.stats import norm

                mh = max(mu0, 0.0)
                q = max(w * (mu - mu0) ** 2 - w * (mh - mu0) ** 2, 0.0) if mh <= mu else 0.0
                qa = w * mu**2
                if qa > 1e-4:
                    sq, sa = math.sqrt(q), math.sqrt(qa)
                    d = (sq - sa) if sq <= sa else (q - qa) / (2 * sa)
                    csb, cb = norm.cdf(-d - sa), norm.cdf(-d)
                    if cb > 1e-8:
                        require_close(float(obs[0]), 1 - csb / cb, "exclusion level", rtol=1e-3, atol=2e-3, mu=mu)
        ev.tag(call)
    ev.mark(bool(nat) and nondefault)


def one(log, what):
    calls = [x for x in log if x[0] == what]
    require(len(calls) == 1, "the native method is not used exactly once", calls=[x[0] for x in log], expected=what)
    require(all(x[0] != "generic" for x in log), "the generic implementation ran besides the native method", calls=[x[0] for x in log])
    return calls[0][1]


def passed(got, init, bnds, extra):
    require(got.get("init_pars") == init and got.get("par_bounds") == bnds, "start values / bounds of the override", got=got)
    for k, v in extra.items():
        require(got.get(k) == v, "extra argument of the override", got=got, key=k)


SUBS = [
    Sub("minimal", case, check, quick=500, thorough=8000),
    Sub("native", native_case, check_native, quick=1500, thorough=40000),
]

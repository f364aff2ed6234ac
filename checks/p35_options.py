"""P35: options given to an inference call reach every fit it makes."""
import math

import numpy as np
from autograd import hessian as ahess
from hypothesis import strategies as st

from harness import analytic, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P35"
RULE = (
    "freeze: a model whose nuisances are frozen by start values and bounds (or by an equality constraint) given to the call, "
    "against the nuisance-free model of the shifted background given the same range of the strength. routing: closed-form models "
    "record the options of every likelihood evaluation an inference call makes. native: the same for a back-end with its own "
    "likelihood methods behind the public interface. Non-trivial: an option that changes the answer, or a recorded call."
)
BUDGET = {"quick": 200, "thorough": 3000}
ASSUMPTIONS = ["A frozen nuisance is bounded to within 1e-6 of its value; the remaining freedom changes -log L by less than 1e-4."]


# ------------------------------------------------------------------------------------------------ freeze
@st.composite
def freeze_case(draw):
    n = draw(st.integers(1, 3))
    b = draw(S.vec(n, 5, 60, 1))
    return {
        "b": b, "s": [round(draw(S.num(0.15, 0.6, 2)) * x, 3) for x in b], "unc": [round(draw(S.num(0.1, 0.4, 2)) * x, 3) for x in b],
        "data": [float(round(draw(S.num(0.6, 1.7, 2)) * x)) for x in b], "t": [draw(S.num(-1.0, 1.0, 2)) for _ in b],
        "corr": draw(st.booleans()), "lo": draw(st.sampled_from([0.0, 0.0, -0.5, 0.2, 0.7])), "hi": draw(st.sampled_from([10.0, 10.0, 1.0, 3.0])),
        "via": draw(st.sampled_from(["bounds", "bounds", "constraint"])), "init": draw(st.booleans()),
        "mu": draw(S.num(0.2, 3, 2)), "mu2": draw(S.num(0, 2, 2)), "neg": draw(st.booleans()), "e": draw(st.sampled_from(["observed", "aposteriori"])),
        "call": draw(st.sampled_from(["chi2", "chi2-den", "chi2-scan", "chi2-dict", "pull", "pull-list", "asymptotic", "chi_square", "significance",
                                      "limit", "max", "max_asimov", "asimov", "likelihood", "sampler", "hessian", "gen_asimov", "combined"])),
        "comb": draw(st.sampled_from(["likelihood", "asimov", "max", "max_asimov", "asymptotic", "chi2"])),
        "data2": [float(round(draw(S.num(0.6, 1.7, 2)) * x)) for x in b],
    }


def check_freeze(c, ev):
    import spey

    n, t = len(c["b"]), np.array(c["t"])
    b, s, unc = np.array(c["b"]), np.array(c["s"]), np.array(c["unc"])
    shifted = b + unc * t
    lo, hi = max(c["lo"], 0.9 * -float(np.min(shifted / s)), 0.9 * -float(np.min(b / s))), c["hi"]
    def make(data, name):
        if c["corr"]:
            full = spey.get_backend("default.correlated_background")(signal_yields=list(c["s"]), background_yields=list(c["b"]), data=list(data),
                                                                     covariance_matrix=np.diag(unc**2), analysis=name)
        else:
            full = spey.get_backend("default.uncorrelated_background")(signal_yields=list(c["s"]), background_yields=list(c["b"]), data=list(data),
                                                                       absolute_uncertainties=list(c["unc"]), analysis=name)
        return full, spey.get_backend("default.poisson")(signal_yields=list(c["s"]), background_yields=shifted.tolist(), data=list(data), analysis=name)

    full, plain = make(c["data"], "a")
    start = min(max(1.0, lo), hi)
    opt, popt = {}, {"par_bounds": [(lo, hi)]}
    if c["via"] == "bounds":
        opt["par_bounds"] = [(lo, hi)] + [(x - 1e-6, x + 1e-6) for x in t]
    else:
        opt["par_bounds"] = [(lo, hi)] + [(-5.0, 5.0)] * n
        opt["constraints"] = [{"type": "eq", "fun": lambda v: np.asarray(v)[1:] - t, "jac": lambda v: np.eye(n + 1)[1:]}]
    if c["init"]:
        opt["init_pars"], popt["init_pars"] = [start, *c["t"]], [start]
    e = models.expectation(c["e"])
    mu, mu2, call = c["mu"], c["mu2"], c["call"]
    tol = 2e-3

    def close(x, y, what, free=None):
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        require(x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y)))), "frozen nuisances: " + what, got=x.tolist(), want=y.tolist(), options=str(opt))
        if free is not None and np.max(np.abs(np.atleast_1d(np.asarray(free, float)) - y)) > 2 * tol:
            ev.tag("option-matters")

    mle = {k: v for k, v in opt.items() if k == "constraints"}
    fit = {k: v for k, v in opt.items() if k != "constraints"}
    const = 0.5 * float(t @ t) + 0.5 * n * math.log(2 * math.pi)  # constraint terms at the frozen point
    kw = dict(expected=e, allow_negative_signal=c["neg"])
    if call.startswith("chi2"):
        arg = {"chi2": mu, "chi2-den": mu, "chi2-scan": [mu, mu2], "chi2-dict": {0: [mu, mu2]}}[call]
        if call == "chi2-den":
            kw["poi_test_denominator"] = mu2
        split = c["via"] == "bounds" and not c["init"]  # the same options given per fit
        if split:
            got = full.chi2(arg, mle_kwargs=dict(opt), likelihood_kwargs=dict(opt), **kw)
        else:
            got = full.chi2(arg, **fit, mle_kwargs=dict(mle), likelihood_kwargs=dict(mle), **kw)
        close(got, plain.chi2(arg, **popt, **kw), "chi2", full.chi2(arg, **kw))
        ev.tag("per-fit" if split else "shared")
    elif call.startswith("pull"):
        arg = [mu, mu2] if call == "pull-list" else mu
        x, y = full.pull(arg, **opt, **kw), plain.pull(arg, **popt, **kw)
        # close to the best fit a pull is the root of a numerical zero, of either sign
        close(np.square(x), np.square(y), "square of the pull", np.square(full.pull(arg, **kw)))
        for g, w in zip(np.atleast_1d(x), np.atleast_1d(y)):
            require(abs(w) < 0.1 or g * w > 0, "frozen nuisances: sign of the pull", got=float(g), want=float(w))
    elif call in ("asymptotic", "chi_square"):
        kw["calculator"] = call
        # the interval end of a statistic close to zero moves like the square root of the error
        x, y = full.exclusion_confidence_level(mu, **opt, **kw), plain.exclusion_confidence_level(mu, **popt, **kw)
        z = full.exclusion_confidence_level(mu, **kw)
        require_allclose(x, y, "frozen nuisances: exclusion level", rtol=0, atol=0.03, options=str(opt))
        if np.max(np.abs(np.asarray(z, float) - np.asarray(y, float))) > 0.04:
            ev.tag("option-matters")
    elif call == "significance":
        x, y, z = full.significance(expected=e, **opt), plain.significance(expected=e, **popt), full.significance(expected=e)
        close(np.square(x[:2]), np.square(y[:2]), "squared significance", np.square(z[:2]))
    elif call == "limit":
        x = full.poi_upper_limit(expected=e, optimiser_arguments=dict(opt))
        y = plain.poi_upper_limit(expected=e, optimiser_arguments=dict(popt))
        if not (math.isfinite(y) and y < 50):
            raise Inconclusive("no finite limit")
        require(abs(x - y) <= 0.02 * (1 + abs(y)), "frozen nuisances: upper limit", got=float(x), want=float(y), options=str(opt))
        if abs(full.poi_upper_limit(expected=e) - y) > 0.03 * (1 + abs(y)):
            ev.tag("option-matters")
    elif call == "max":
        x, y = full.maximize_likelihood(**kw, **opt), plain.maximize_likelihood(**kw, **popt)
        close(x[1] - const, y[1], "maximum", full.maximize_likelihood(**kw)[1] - const)
        require(abs(x[0] - y[0]) < 0.05 * (1 + abs(y[0])) or abs(float(plain.likelihood(float(x[0]), expected=e)) - y[1]) < 4e-3,
                "frozen nuisances: best fit", got=float(x[0]), want=float(y[0]))
    elif call in ("max_asimov", "asimov", "gen_asimov"):
        ts = "q" if c["neg"] else "qtilde"
        if call == "gen_asimov":
            x = np.asarray(full.generate_asimov_data(expected=e, test_statistic=ts, **opt), float)[:n]
            require_allclose(x, shifted, "frozen nuisances: Asimov data", rtol=1e-4, atol=1e-5)
            if np.max(np.abs(np.asarray(full.generate_asimov_data(expected=e, test_statistic=ts), float)[:n] / shifted - 1)) > 1e-3:
                ev.tag("option-matters")
        elif call == "asimov":
            close(full.asimov_likelihood(mu, expected=e, test_statistics=ts, **opt) - const, plain.asimov_likelihood(mu, expected=e, test_statistics=ts, **popt),
                  "Asimov likelihood", full.asimov_likelihood(mu, expected=e, test_statistics=ts) - const)
        else:
            x = full.maximize_asimov_likelihood(expected=e, test_statistics=ts, **opt)
            y = plain.maximize_asimov_likelihood(expected=e, test_statistics=ts, **popt)
            close(x[1] - const, y[1], "Asimov maximum", full.maximize_asimov_likelihood(expected=e, test_statistics=ts)[1] - const)
    elif call == "likelihood":
        x, p = full.likelihood(mu, expected=e, return_parameters=True, **opt)
        close(x - const, plain.likelihood(mu, expected=e, **popt), "likelihood", full.likelihood(mu, expected=e) - const)
        require_allclose(np.asarray(p, float), [mu, *c["t"]], "frozen nuisances: fitted parameters", rtol=0, atol=1e-4)
    elif call == "sampler":
        seen = []

        def spy(pars):
            seen.append(np.array(pars, float))
            return orig(pars)

        orig = full.backend.get_sampler
        full.backend.get_sampler = spy
        try:
            full.fixed_poi_sampler(mu, size=2, expected=e, **opt)
        finally:
            del full.backend.get_sampler
        require_allclose(seen[-1], [mu, *c["t"]], "frozen nuisances: sampled parameter point", rtol=0, atol=1e-4)
    elif call == "hessian":
        ref = Ref({"kind": "uncorrelated", "b": c["b"], "s": c["s"], "unc": c["unc"], "data": c["data"]})
        H = ahess(lambda p: ref.nll(p, ref.data))(np.array([mu, *c["t"]]))
        v = np.linalg.inv(H)[0, 0]
        if v <= 1e-8 or np.linalg.eigvalsh(H).min() <= 1e-6 or np.linalg.cond(H) > 1e6:
            raise Inconclusive("not a proper curvature")
        for what, fn in (("sigma_mu_from_hessian", full.sigma_mu_from_hessian), ("sigma_mu", full.sigma_mu)):
            require_close(float(fn(mu, expected=e, **opt)), math.sqrt(v), "frozen nuisances: " + what, rtol=1e-3, atol=1e-8)
        if abs(float(full.sigma_mu(mu, expected=e)) / math.sqrt(v) - 1) > 3e-3:
            ev.tag("option-matters")
    else:
        full2, plain2 = make(c["data2"], "b")
        F, P = spey.UnCorrStatisticsCombiner(full, full2), spey.UnCorrStatisticsCombiner(plain, plain2)
        fo = {"statistical_model_options": {str(full.backend_type): dict(opt)}}
        po = {"statistical_model_options": {str(plain.backend_type): dict(popt)}}
        what = c["comb"]
        ts = "q" if c["neg"] else "qtilde"
        box = {"par_bounds": [(lo, hi)]}
        if what == "likelihood":
            close(F.likelihood(mu, expected=e, **fo) - 2 * const, P.likelihood(mu, expected=e, **po), "combined likelihood", F.likelihood(mu, expected=e) - 2 * const)
        elif what == "asimov":
            k = dict(expected=e, test_statistics=ts)
            close(F.asimov_likelihood(mu, **k, **fo) - 2 * const, P.asimov_likelihood(mu, **k, **po), "combined Asimov likelihood", F.asimov_likelihood(mu, **k) - 2 * const)
        elif what == "max":
            close(F.maximize_likelihood(**kw, **fo, **box)[1] - 2 * const, P.maximize_likelihood(**kw, **po, **box)[1], "combined maximum",
                  F.maximize_likelihood(**kw, **box)[1] - 2 * const)
        elif what == "max_asimov":
            k = dict(expected=e, test_statistics=ts)
            close(F.maximize_asimov_likelihood(**k, **fo, **box)[1] - 2 * const, P.maximize_asimov_likelihood(**k, **po, **box)[1],
                  "combined Asimov maximum", F.maximize_asimov_likelihood(**k, **box)[1] - 2 * const)
        elif what == "asymptotic":
            kw["allow_negative_signal"] = False  # the two minimal strengths differ
            x, y, z = F.exclusion_confidence_level(mu, **kw, **fo), P.exclusion_confidence_level(mu, **kw, **po), F.exclusion_confidence_level(mu, **kw)
            require_allclose(x, y, "frozen nuisances: combined exclusion level", rtol=0, atol=0.03)
            if np.max(np.abs(np.asarray(z, float) - np.asarray(y, float))) > 0.04:
                ev.tag("option-matters")
        else:
            kw["allow_negative_signal"] = False
            close(F.chi2([mu, mu2], mle_kwargs=fo, likelihood_kwargs=fo, **kw), P.chi2([mu, mu2], mle_kwargs=po, likelihood_kwargs=po, **kw),
                  "combined chi2", F.chi2([mu, mu2], **kw))
        call = "combined-" + what
    ev.tag(call, c["via"])
    ev.mark()


# ------------------------------------------------------------------------------------------------ routing
OPTS = ("init_pars", "par_bounds", "marker", "tol", "minimizer")


@st.composite
def routing_case(draw):
    pick = lambda: {k: draw(st.sampled_from([None, 1, "x"])) for k in OPTS[2:] if draw(st.booleans())}  # noqa: E731
    d = draw(analytic.strategy(families=("gauss", "skew")))
    return {"d": d, "call": draw(st.sampled_from(["chi2", "chi2", "chi2-scan", "chi2-dict", "pull", "pull-list", "asymptotic", "chi_square", "toy",
                                                  "significance", "limit", "sigma", "sigma-hess", "sigma-none"])),
            "mu": draw(S.num(0.1, 4, 2)), "scan": draw(st.lists(S.num(-1, 4, 2), min_size=1, max_size=4)), "den": draw(st.one_of(st.none(), S.num(-1, 3, 2))),
            "neg": draw(st.booleans()), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "init": draw(st.one_of(st.none(), S.vec(2, -2, 2, 1))), "bounds": draw(st.one_of(st.none(), st.just([(0.0, 3.0), (None, None)]))),
            "opts": pick(), "mle": pick(), "llk": pick(), "stat": draw(st.sampled_from(["qtilde", "q", "q0"])),
            "llneg": draw(st.sampled_from([None, None, True, False]))}


def check_routing(c, ev):
    import copy

    from spey.system.exceptions import AsimovTestStatZero, MethodNotAvailable

    calls = []
    m, cv = analytic.make(c["d"], hessian=c["call"] == "sigma-hess", calls=calls, ntoys=3)
    if c["call"] == "sigma-none":
        def no_hessian(*a, **k):
            calls.append(("sigma_mu_from_hessian", 0, str(k.get("expected")), {x: y for x, y in k.items() if x not in ("poi_test", "expected")}))
            raise MethodNotAvailable("no Hessian")

        m.sigma_mu_from_hessian = no_hessian
    e = models.expectation(c["e"])
    fit = {}
    if c["init"] is not None:
        fit["init_pars"] = list(c["init"])
    if c["bounds"] is not None:
        fit["par_bounds"] = [tuple(x) for x in c["bounds"]]
    call, kw = c["call"], {"expected": e}
    every = {**fit, **c["opts"]}
    keep = copy.deepcopy((every, c["mle"], c["llk"], c["scan"]))
    llk = dict(c["llk"])
    try:
        if call.startswith("chi2"):
            arg = {"chi2": c["mu"], "chi2-scan": list(c["scan"]), "chi2-dict": {0: list(c["scan"])}}[call]
            before = copy.deepcopy(arg)
            if c["den"] is not None:
                kw["poi_test_denominator"] = c["den"]
            if call == "chi2-dict" and c["llneg"] is not None:
                llk["allow_negative_signal"] = c["llneg"]
            mle = dict(c["mle"])
            m.chi2(arg, allow_negative_signal=c["neg"], mle_kwargs=mle, likelihood_kwargs=llk, **fit, **kw)
            require(arg == before and type(arg) is type(before), "the tested points are changed by the call", before=before, after=arg)
            require(mle == c["mle"] and {k: v for k, v in llk.items() if k != "allow_negative_signal"} == c["llk"], "the option dictionaries are changed by the call")
        elif call.startswith("pull"):
            m.pull(list(c["scan"]) if call == "pull-list" else c["mu"], allow_negative_signal=c["neg"], **kw, **every)
        elif call in ("asymptotic", "chi_square", "toy"):
            m.exclusion_confidence_level(c["mu"], calculator=call, allow_negative_signal=c["neg"], verbose=False, **kw, **every)
        elif call == "significance":
            m.significance(**kw, **every)
        elif call == "limit":
            m.poi_upper_limit(optimiser_arguments=every, **kw)
        else:
            m.sigma_mu(c["mu"], test_statistics=c["stat"], **kw, **every)
    except AsimovTestStatZero:
        raise Inconclusive("vanishing Asimov statistic") from None
    require((every, c["mle"], c["llk"], c["scan"]) == keep, "the caller's options are changed by the call", before=keep, after=(every, c["mle"], c["llk"], c["scan"]))
    require(calls, "no likelihood was evaluated")
    stat = {"asymptotic": "q" if c["neg"] else "qtilde", "significance": "q0", "limit": "qtilde"}.get(call, c["stat"])
    points = {"chi2": [c["mu"]]}.get(call, list(c["scan"]))
    seen = set()
    for i, rec in enumerate(calls):
        name, given = rec[0], rec[-1]
        require(rec[2] == str(e), "expectation of a likelihood evaluation", call=call, record=rec, want=str(e))
        want = every
        if call.startswith("chi2"):
            # the denominator takes mle_kwargs, the numerator likelihood_kwargs; the order of the evaluations is free
            num = has(given, {**fit, **c["llk"]}) and name == "likelihood" and rec[1] in points
            den = has(given, {**fit, **c["mle"]}) and (name == "maximize_likelihood" if c["den"] is None else name == "likelihood" and rec[1] == c["den"])
            require(num or den, "an option did not reach a likelihood evaluation", call=call, evaluation=name, at=rec[1], given=given, fit=fit, mle=c["mle"], llk=c["llk"])
            seen |= {x for x, y in (("num", num), ("den", den)) if y}
            want = {}
            if call == "chi2-dict" and name == "likelihood" and not den:
                neg = llk.get("allow_negative_signal", None if c["den"] is not None else c["neg"])
                if neg is not None:
                    require(given.get("allow_negative_signal", True) is neg, "region of the strength in the numerator", record=rec, want=neg)
        if name == "sigma_mu_from_hessian":
            ev.tag("hessian")
        for k, v in want.items():
            require(k in given and given[k] == v, "an option did not reach a likelihood evaluation", call=call, evaluation=name, option=k, given=given, position=i)
        if name == "maximize_likelihood":
            neg = c["neg"] if call not in ("significance", "limit") else False
            require(rec[1] is neg, "region of the strength in the best fit", call=call, got=rec[1], want=neg)
        if name == "asimov_likelihood":
            require(rec[3] == stat, "test statistic of the Asimov data", call=call, got=rec[3], want=stat)
        if name == "maximize_asimov_likelihood":
            require(rec[1] == stat, "test statistic of the Asimov maximum", call=call, got=rec[1], want=stat)
        ev.tag(name)
    if call.startswith("chi2"):
        require(seen == {"num", "den"}, "numerator and denominator", seen=sorted(seen))
    ev.tag(call)
    ev.mark(bool(every or c["mle"] or c["llk"]))


def has(given, want):
    return all(k in given and given[k] == v for k, v in want.items())


# ------------------------------------------------------------------------------------------------ native
@st.composite
def native_case(draw):
    return {"mu": draw(S.num(0.2, 3, 2)), "mu0": draw(S.num(-0.5, 2, 2)), "w": draw(S.num(0.5, 4, 2)), "call": draw(st.sampled_from(
        ["chi2", "chi2-dict", "pull", "asymptotic", "chi_square", "significance", "limit", "sigma", "max_asimov", "asimov", "likelihood", "max"])),
        "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])), "neg": draw(st.booleans()), "asimov": draw(st.booleans()),
        "init": draw(st.one_of(st.none(), S.vec(2, 0.1, 2, 1))), "bounds": draw(st.one_of(st.none(), st.just([(-0.5, 9.0), (-3.0, 3.0)]))),
        "tol": draw(st.sampled_from([None, 1e-7])), "grad": draw(st.sampled_from([None, True, False]))}


def check_native(c, ev):
    """A back-end with native fits receives the options; without them, the objective is requested as asked for."""
    import spey
    from spey.base import ModelConfig
    from spey.interface.statistical_model import StatisticalModel

    w, mu0, log = c["w"], c["mu0"], []

    def at(poi_test):
        return float(poi_test[0] if isinstance(poi_test, dict) else poi_test)

    def centre(asimov):
        return 0.0 if asimov else mu0

    class B(spey.BackendBase):
        name, version, author, spey_requires = "verif.p35", "1", "v", ">=0.0.1"

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return ModelConfig(0, -4.0, [1.0, 0.0], [(-4.0 if allow_negative_signal else 0.0, poi_upper_bound), (-5.0, 5.0)], parameter_names=["mu", "t"])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda p: -0.5 * w * (p[0] - centre(data is not None)) ** 2 - 0.5 * p[1] ** 2

        def get_objective_function(self, expected=None, data=None, do_grad=True):
            log.append(("objective", do_grad, {}))
            m = centre(data is not None)
            f = lambda p: 0.5 * w * (p[0] - m) ** 2 + 0.5 * p[1] ** 2  # noqa: E731
            return (lambda p: (f(p), np.array([w * (p[0] - m), p[1]]))) if do_grad else f

        def expected_data(self, pars, **kw):
            return [float(pars[0])]

        def negative_loglikelihood(self, poi_test=1.0, expected=None, **kw):
            log.append(("nll", expected, kw))
            return 0.5 * w * (at(poi_test) - centre(kw.get("data") is not None)) ** 2, np.array([at(poi_test), 0.0])

        def minimize_negative_loglikelihood(self, expected=None, allow_negative_signal=True, **kw):
            log.append(("min", expected, kw))
            m = centre(kw.get("data") is not None)
            m = m if allow_negative_signal else max(m, 0.0)
            return 0.5 * w * (m - centre(kw.get("data") is not None)) ** 2, np.array([m, 0.0])

        if c["asimov"]:
            def asimov_negative_loglikelihood(self, poi_test=1.0, expected=None, test_statistics="qtilde", **kw):
                log.append(("asimov", expected, kw))
                return 0.5 * w * at(poi_test) ** 2, np.array([at(poi_test), 0.0])

            def minimize_asimov_negative_loglikelihood(self, expected=None, test_statistics="qtilde", **kw):
                log.append(("minasimov", expected, kw))
                return 0.0, np.array([0.0, 0.0])

    m = StatisticalModel(B(), "n")
    e = models.expectation(c["e"])
    o = {}
    if c["init"] is not None:
        o["init_pars"] = list(c["init"])
    if c["bounds"] is not None:
        o["par_bounds"] = [tuple(x) for x in c["bounds"]]
    fit = dict(o)
    if c["tol"] is not None:
        o["tol"] = c["tol"]
    if c["grad"] is not None:
        o["do_grad"] = c["grad"]
    mu, call, kw = c["mu"], c["call"], {"expected": e}
    rest = {k: v for k, v in o.items() if k not in fit}
    if call.startswith("chi2"):
        v = m.chi2(mu if call == "chi2" else {0: mu}, allow_negative_signal=c["neg"], **fit, mle_kwargs=dict(rest), likelihood_kwargs=dict(rest), **kw)
        best = mu0 if c["neg"] else max(mu0, 0.0)
        require_close(float(v), w * (mu - mu0) ** 2 - w * (best - mu0) ** 2, "chi2 of a native back-end", rtol=1e-9, atol=1e-9)
    elif call == "pull":
        m.pull(mu, allow_negative_signal=c["neg"], **kw, **o)
    elif call in ("asymptotic", "chi_square"):
        m.exclusion_confidence_level(mu, calculator=call, allow_negative_signal=c["neg"], **kw, **o)
    elif call == "significance":
        m.significance(**kw, **o)
    elif call == "limit":
        m.poi_upper_limit(optimiser_arguments=o, **kw)
    elif call == "sigma":
        m.sigma_mu(mu, **kw, **o)
    elif call == "max_asimov":
        m.maximize_asimov_likelihood(**kw, **o)
    elif call == "asimov":
        m.asimov_likelihood(mu, **kw, **o)
    elif call == "likelihood":
        m.likelihood(mu, **kw, **o)
    else:
        m.maximize_likelihood(**kw, **o)
    require(log, "the back-end was not used")
    for name, exp, given in log:
        if name == "objective":  # the fit that makes the Asimov data
            require(exp is (True if c["grad"] is None else c["grad"]), "the gradient was (not) requested against the caller's wish", do_grad=exp, asked=c["grad"], call=call)
            ev.tag("objective")
            continue
        require(exp == e, "expectation of a native evaluation", call=call, got=str(exp), want=str(e))
        for k, v in o.items():
            require(given.get(k) == v, "an option did not reach the native method", call=call, native=name, option=k, given={k: str(v) for k, v in given.items()})
        ev.tag("native-" + name)
    ev.tag(call)
    ev.mark(bool(o))


SUBS = [
    Sub("freeze", freeze_case, check_freeze, quick=1000, thorough=15000),
    Sub("routing", routing_case, check_routing, quick=1500, thorough=40000),
    Sub("native", native_case, check_native, quick=800, thorough=20000),
]

"""P21: combined likelihoods are products over the analyses and inference follows."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar

from harness import inference, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P21"
RULE = (
    "sum: generated sets of models, the combined (observed, pre-fit, Asimov, caller data) likelihood against the sum of "
    "reference fits. routing: recording models, data and options must reach exactly their own analysis. maximum: combined "
    "best fit against the minimum of the summed reference profile. split: one multi-bin model against the combination of "
    "its bins, all inference results, any order. undefined: closed-form analyses that raise above some strength. Non-trivial: at least two different models."
)
BUDGET = {"quick": 240, "thorough": 3600}


@st.composite
def members(draw, lo=2, hi=3, kinds=inference.CONVEX, bins=2, **kw):
    return [draw(S.model(kinds=kinds, max_bins=bins, tame=True, sig=(0.1, 0.9), **kw)) for _ in range(draw(st.integers(lo, hi)))]


def combo(specs, order=None):
    import spey

    ms = [models.build(s, analysis=f"an{i}") for i, s in enumerate(specs)]
    order = range(len(ms)) if order is None else order
    return spey.UnCorrStatisticsCombiner(*[ms[i] for i in order]), ms


@st.composite
def sum_case(draw):
    specs = draw(members(1, 4))
    alt = [draw(st.one_of(st.none(), S.vec(len(s["b"]), 0.5, 1.6, 2))) for s in specs]
    return {"specs": specs, "mu": draw(S.num(-0.3, 3, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "alt": draw(st.sampled_from([None, alt])), "order": draw(st.permutations(range(len(specs)))),
            "stat": draw(st.sampled_from(["qtilde", "q", "q0", "qmu", "qmutilde"]))}


def check_sum(c, ev):
    comb, _ = combo(c["specs"], c["order"])
    refs = [Ref(s) for s in c["specs"]]
    e = models.expectation(c["e"])
    mu = max(c["mu"], 0.9 * max(r.minimum_poi for r in refs))
    data = None
    if c["alt"] is not None:
        data = {f"an{i}": [round(x * b) for x, b in zip(a, s["b"])] for i, (a, s) in enumerate(zip(c["alt"], c["specs"])) if a}
    want, mags = 0.0, 1.0
    for i, r in enumerate(refs):
        d = r.b if c["e"] == "apriori" else r.data
        if data and f"an{i}" in data:
            d = data[f"an{i}"]
        v, p = r.minimise(d, fixed={0: mu})
        if p is None:
            raise Inconclusive("reference fit failed")
        want += v
        mags += abs(v)
    kw = {} if data is None else {"data": data}
    got = float(comb.likelihood(mu, expected=e, **kw))
    tol = 1e-4 * len(refs) + 1e-9 * mags
    require(abs(got - want) < tol, "combined likelihood is not the sum over the analyses", got=got, want=want, case_mu=mu)
    require_close(float(comb.likelihood(mu, expected=e, return_nll=False, **kw)), math.exp(-got), "likelihood form", rtol=1e-6, atol=1e-300)
    require_close(float(comb.likelihood({0: mu}, expected=e, **kw)), got, "addressed by index", rtol=1e-7, atol=1e-5)
    # Asimov: each analysis' own Asimov data, summed
    chains = [inference.Chain(s, c["e"], c["stat"]) for s in c["specs"]]
    ga = comb.generate_asimov_data(expected=e, test_statistic=c["stat"])
    require(set(ga) == {f"an{i}" for i in range(len(refs))}, "Asimov data of every analysis", got=sorted(ga))
    gotA = float(comb.asimov_likelihood(mu, expected=e, test_statistics=c["stat"]))
    wantA = 0.0
    for i, (r, ch) in enumerate(zip(refs, chains)):
        d = np.asarray(ga[f"an{i}"], float)[: r.n]
        require(np.allclose(d, ch.asimov, rtol=2e-2, atol=0.1), "Asimov data of an analysis", analysis=i, got=d.tolist(), want=ch.asimov.tolist())
        v, p = r.minimise(d, fixed={0: mu})
        if p is None:
            raise Inconclusive("reference fit failed")
        wantA += v
    require(abs(gotA - wantA) < tol, "combined Asimov likelihood is not the sum", got=gotA, want=wantA)
    ev.tag(c["e"], f"{len(refs)}-models", *{r.kind for r in refs})
    if data:
        ev.tag("caller-data")
    ev.mark(len(refs) > 1)


@st.composite
def route_case(draw):
    specs = draw(members(2, 4, kinds=("uncorrelated", "correlated", "poisson", "normal")))
    return {"specs": specs, "mu": draw(S.num(0, 2, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "opt": draw(st.lists(st.booleans(), min_size=4, max_size=4)), "who": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "extra": draw(st.sampled_from([{}, {"maxiter": 333}, {"tol": 1e-7}])),
            "entry": draw(st.sampled_from(["likelihood", "asimov", "maximize", "maximize_asimov", "generate"]))}


def check_route(c, ev):
    import spey
    from spey.interface.statistical_model import StatisticalModel

    log = []

    class Rec(StatisticalModel):
        def likelihood(self, poi_test=1.0, expected=spey.ExpectationType.observed, return_nll=True, data=None, **kw):
            log.append(("likelihood", self.analysis, str(expected), None if data is None else list(np.ravel(data)), kw))
            return StatisticalModel.likelihood(self, poi_test=poi_test, expected=expected, return_nll=return_nll, data=data, **kw)

        def generate_asimov_data(self, expected=spey.ExpectationType.observed, test_statistic="qtilde", **kw):
            log.append(("generate", self.analysis, str(expected), test_statistic, kw))
            return [float(7 + int(self.analysis[2:]))] * len(c["specs"][int(self.analysis[2:])]["b"]) + [0.0] * (
                extra.get(self.analysis, 0))

    ms, extra = [], {}
    kinds = []
    for i, s in enumerate(c["specs"]):
        m = models.build(s, analysis=f"an{i}")
        ms.append(Rec(backend=m.backend, analysis=f"an{i}"))
        kinds.append(str(m.backend_type))
        if s["kind"] in ("uncorrelated", "correlated"):
            extra[f"an{i}"] = len(s["b"])
    comb = spey.UnCorrStatisticsCombiner(*ms)
    opts = {}
    for k, use in zip(sorted(set(kinds)), c["opt"]):
        if use:
            opts[k] = {"ntrials": 2 + len(opts)}
    data = {f"an{i}": [float(round(b)) + 1 for b in s["b"]] for i, s in enumerate(c["specs"]) if c["who"][i]}
    e, kw = models.expectation(c["e"]), dict(c["extra"])
    if opts:
        kw["statistical_model_options"] = opts
    before = {k: dict(v) for k, v in opts.items()}
    entry = c["entry"]
    if entry == "likelihood":
        comb.likelihood(c["mu"], expected=e, data=data or None, **kw)
    elif entry == "asimov":
        comb.asimov_likelihood(c["mu"], expected=e, test_statistics="q", **kw)
    elif entry == "maximize":
        comb.maximize_likelihood(expected=e, data=data or None, initial_muhat_value=0.5, **kw)
    elif entry == "maximize_asimov":
        comb.maximize_asimov_likelihood(expected=e, test_statistics="q", **kw)
    else:
        comb.generate_asimov_data(expected=e, test_statistic="q", **kw)
    require({k: dict(v) for k, v in opts.items()} == before, "options of the caller were changed", opts=opts)
    seen = set()
    for what, name, exp, d, k in log:
        i = int(name[2:])
        want = dict(opts.get(kinds[i], {}), **c["extra"])
        require(k == want, "options reaching an analysis", entry=entry, call=what, analysis=name, got=k, want=want)
        require(exp == c["e"], "expectation reaching an analysis", got=exp, want=c["e"])
        if what == "likelihood":
            if entry in ("likelihood", "maximize"):
                wd = data.get(name)
            else:
                wd = [float(7 + i)] * len(c["specs"][i]["b"]) + [0.0] * extra.get(name, 0)
            require(d == wd, "data reaching an analysis", entry=entry, analysis=name, got=d, want=wd)
        else:
            require(d == "q", "test statistic reaching an analysis", got=d)
        seen.add((what, name))
    if entry != "generate":
        require({n for w, n in seen if w == "likelihood"} == {f"an{i}" for i in range(len(ms))}, "every analysis contributes")
    if entry in ("asimov", "maximize_asimov", "generate"):
        require({n for w, n in seen if w == "generate"} == {f"an{i}" for i in range(len(ms))}, "every analysis generates Asimov data")
    ev.tag(entry, "options" if opts else "no-options")
    ev.mark(len(set(kinds)) > 1)


@st.composite
def max_case(draw):
    far = {"e": "observed", "ratio": 8.0, "init": 14.0, "bounds": None} if draw(st.integers(0, 5)) == 5 else {}
    return {"specs": draw(members(2, 3)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])), "neg": draw(st.booleans()),
            "init": draw(st.sampled_from([None, None, 0.0, 2.0, 14.0])),
            "bounds": draw(st.sampled_from([None, None, None, [0.2, 3.0], [-0.2, 0.4], [0.0, 25.0]])), "stat": draw(st.sampled_from(["qtilde", "q", "qmu", "qmutilde"])),
            "ratio": draw(st.sampled_from([1.0, 1.0, 0.4, 2.5, 8.0])), **far}


def check_max(c, ev):
    specs = [dict(s, data=[float(round(d * c["ratio"])) for d in s["data"]]) for s in c["specs"]]
    comb, ms = combo(specs)
    refs = [Ref(s) for s in specs]
    e = models.expectation(c["e"])
    minpoi = max(r.minimum_poi for r in refs)

    def total(mu, datas):
        out = 0.0
        for r, d in zip(refs, datas):
            v, p = r.minimise(d, fixed={0: float(mu)})
            if p is None:
                raise Inconclusive("reference fit failed")
            out += v
        return out

    def best(datas, neg):
        lo, hi = (minpoi if neg else 0.0), top
        if bnds is not None:
            lo, hi = bnds
        r = minimize_scalar(lambda m: total(m, datas), bounds=(lo, hi), method="bounded", options={"xatol": 1e-6, "maxiter": 60})
        cands = [(r.fun, r.x), (total(lo + 1e-9 if neg and bnds is None else lo, datas), lo), (total(hi, datas), hi)]
        return min(cands)

    datas = [r.b if c["e"] == "apriori" else r.data for r in refs]
    kw = {} if c["init"] is None else {"initial_muhat_value": c["init"]}
    # the range ends at ten or, further out, at the start value of the caller
    top, bnds = max(10.0, c["init"] or 0.0), None
    if c["bounds"] is not None and c["bounds"][0] > 0.95 * minpoi:
        bnds = tuple(c["bounds"])
        kw = {"par_bounds": [bnds], "initial_muhat_value": min(max(c["init"] or 0.0, bnds[0]), bnds[1])}
        ev.tag("caller-bounds")
    wv, wm = best(datas, c["neg"])
    gm, gv = comb.maximize_likelihood(expected=e, allow_negative_signal=c["neg"], **kw)
    gm, gv = float(gm), float(gv)
    lo = minpoi if c["neg"] else 0.0
    if bnds is not None:
        lo, top = bnds
    if c["init"] is None and bnds is None:
        # the start value is estimated and may move the end of the range beyond ten
        require(gm >= lo - 1e-6, "combined best fit outside its range", got=gm, low=lo)
        require(gv < wv + 3e-3, "combined minimum vs reference", got=gv, want=wv, muhat=gm, ref_muhat=wm)
        require(gm > 10.0 or gv > wv - 3e-3, "combined minimum below the reference", got=gv, want=wv, muhat=gm, ref_muhat=wm)
    else:
        require(lo - 1e-6 <= gm <= top + 1e-6, "combined best fit outside its range", got=gm, low=lo, high=top)
        require(abs(gv - wv) < 3e-3, "combined minimum vs reference", got=gv, want=wv, muhat=gm, ref_muhat=wm)
    if gm > 10.5:
        ev.tag("beyond-ten")
    require_close(total(gm, datas), gv, "value at the combined best fit", rtol=0, atol=2e-3)
    lk = comb.maximize_likelihood(expected=e, allow_negative_signal=c["neg"], return_nll=False, **kw)[1]
    require_close(float(lk), math.exp(-gv), "likelihood form of the maximum", rtol=1e-3, atol=1e-300)
    # Asimov
    ga = comb.generate_asimov_data(expected=e, test_statistic=c["stat"])
    dA = [np.asarray(ga[f"an{i}"], float)[: r.n] for i, r in enumerate(refs)]
    am, av = comb.maximize_asimov_likelihood(expected=e, test_statistics=c["stat"])
    bnds, top = None, 10.0
    wA, wAm = best(dA, c["stat"] in ("q", "qmu"))
    require(abs(float(av) - wA) < 3e-3, "combined Asimov minimum vs reference", got=float(av), want=wA, muhat=float(am), ref_muhat=wAm)
    floor = minpoi if c["stat"] in ("q", "qmu") else 0.0
    require(floor - 1e-6 <= float(am) <= 10.0 + 1e-6, "combined Asimov best fit outside its range", got=float(am), low=floor, statistic=c["stat"])
    require_close(total(float(am), dA), float(av), "value at the combined Asimov best fit", rtol=0, atol=2e-3)
    ev.tag(c["e"], "negative" if c["neg"] else "physical", *{r.kind for r in refs})
    ev.mark(abs(wm - lo) > 1e-3)


@st.composite
def split_case(draw):
    kind = draw(st.sampled_from(["uncorrelated", "poisson", "normal"]))
    spec = draw(S.model(kinds=(kind,), min_bins=2, max_bins=3, tame=True, sig=(0.1, 0.9), zero_signal=False))
    return {"spec": spec, "mu": draw(S.num(0, 3, 2)), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "order": draw(st.permutations(range(len(spec["b"])))), "neg": draw(st.booleans()), "limit": draw(st.integers(0, 2)) == 0}


def check_split(c, ev):
    spec = c["spec"]
    full = models.build(spec)
    parts = []
    for i in range(len(spec["b"])):
        p = {"kind": spec["kind"], "b": [spec["b"][i]], "s": [spec["s"][i]], "data": [spec["data"][i]]}
        if "unc" in spec:
            p["unc"] = [spec["unc"][i]]
        parts.append(p)
    comb, ms = combo(parts, c["order"])
    e, mu = models.expectation(c["e"]), c["mu"]
    require_close(float(comb.likelihood(mu, expected=e)), float(full.likelihood(mu, expected=e)), "likelihood: bins vs model", rtol=1e-8, atol=1e-4)
    cm, cv = comb.maximize_likelihood(expected=e, allow_negative_signal=c["neg"])
    fm, fv = full.maximize_likelihood(expected=e, allow_negative_signal=c["neg"])
    require(abs(float(cv) - float(fv)) < 2e-3, "maximum: bins vs model", combined=[float(cm), float(cv)], model=[float(fm), float(fv)])
    rf = Ref(spec)
    require_close(comb.minimum_poi, rf.minimum_poi, "smallest strength: bins vs model", rtol=1e-9, atol=0)
    if not rf.minimum_poi + 0.1 < float(fm) < 9.5:
        raise Inconclusive("best fit at a bound")
    a = comb.exclusion_confidence_level(mu, expected=e, allow_negative_signal=c["neg"])
    b = full.exclusion_confidence_level(mu, expected=e, allow_negative_signal=c["neg"])
    require(len(a) == len(b) and np.allclose(a, b, rtol=0, atol=8e-3), "exclusion: bins vs model", combined=a, model=b)
    if c["limit"]:
        la = comb.poi_upper_limit(expected=e)
        lb = full.poi_upper_limit(expected=e)
        require(abs(la - lb) <= 1.5e-2 * abs(lb), "upper limit: bins vs model", combined=la, model=lb)
        ev.tag("limit")
    x, y = float(comb.chi2(mu, expected=e)), float(full.chi2(mu, expected=e))
    require(abs(x - y) < 4e-3, "chi2: bins vs model", combined=x, model=y)
    sa, sb = comb.significance(expected=e), full.significance(expected=e)
    require(abs(sa[0] ** 2 - sb[0] ** 2) < 8e-3 * (1 + sb[0] ** 2) and abs(sa[1] ** 2 - sb[1] ** 2) < 8e-3, "significance: bins vs model", combined=sa[:2], model=sb[:2])
    ev.tag(spec["kind"], c["e"])
    ev.mark()


@st.composite
def undef_case(draw):
    n = draw(st.integers(2, 4))
    return {"x": draw(S.vec(n, -1, 2, 2)), "w": draw(S.vec(n, 0.3, 3, 2)), "edge": draw(S.vec(n, 0.5, 4, 1)),
            "mu": draw(S.num(-1, 6, 1)), "nll": draw(st.booleans()), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"]))}


def check_undef(c, ev):
    """Analyses whose yields turn negative (NegativeExpectedYields) above some strength: nan, a warning, and no further evaluation."""
    import warnings

    import spey
    from spey.system.exceptions import NegativeExpectedYields

    calls = []

    def member(i):
        class B(spey.BackendBase):
            name, version, author, spey_requires = f"verif.undefined{i}", "1.0", "verif", ">=0.0.1"
            is_alive = True

            def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
                return spey.base.ModelConfig(0, -10.0, [1.0], [(-10.0 if allow_negative_signal else 0.0, poi_upper_bound)])

            def get_logpdf_func(self, expected=spey.ExpectationType.observed, data=None):
                def f(pars):
                    mu = float(np.ravel(pars)[0])
                    calls.append(i)
                    if mu > c["edge"][i]:
                        raise NegativeExpectedYields(f"negative yields in {i}")
                    return -0.5 * ((mu - c["x"][i]) / c["w"][i]) ** 2

                return f

            def expected_data(self, pars):
                return [1.0]

        return spey.StatisticalModel(backend=B(), analysis=f"an{i}")

    n = len(c["x"])
    comb = spey.UnCorrStatisticsCombiner(*[member(i) for i in range(n)])
    bad = [i for i in range(n) if c["mu"] > c["edge"][i]]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = float(comb.likelihood(c["mu"], expected=models.expectation(c["e"]), return_nll=c["nll"]))
    w = [x for x in w if issubclass(x.category, RuntimeWarning) and "negative yields" in str(x.message)]
    if bad:
        require(math.isnan(got), "undefined likelihood", got=got, undefined=bad)
        require(len(w) == 1, "one warning about the undefined likelihood", got=[str(x.message) for x in w])
        require(max(calls) == bad[0], "analyses after the undefined one were evaluated", calls=calls, first=bad[0])
        ev.tag("undefined")
    else:
        want = sum(0.5 * ((c["mu"] - x) / s) ** 2 for x, s in zip(c["x"], c["w"]))
        require_close(got, want if c["nll"] else math.exp(-want), "sum of the closed forms", rtol=1e-9, atol=1e-12)
        require(not w, "warning about a defined likelihood", got=[str(x.message) for x in w])
        ev.tag("defined")
    ev.mark(bool(bad))


SUBS = [
    Sub("undefined", undef_case, check_undef, quick=300, thorough=5000),
    Sub("sum", sum_case, check_sum, quick=200, thorough=5000),
    Sub("routing", route_case, check_route, quick=400, thorough=8000),
    Sub("maximum", max_case, check_max, quick=80, thorough=2000),
    Sub("split", split_case, check_split, quick=150, thorough=4000, case_timeout=90),
]

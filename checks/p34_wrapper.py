"""P34: the model wrapper exposes its model faithfully."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import custom, models, strategies as S
from harness.core import Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P34"
RULE = (
    "A case is a wrapper call (positional / keyword / mixed arguments, analysis, cross section, toys) for a built-in or "
    "user-written back-end with a generated subset of capabilities and a combination rule that may be missing, valid, invalid or "
    "failing. Non-trivial: a non-default wrapper argument or a combination."
)
BUDGET = {"quick": 150, "thorough": 1500}
ORDER = {  # documented positional order of the constructors
    "uncorrelated": ["signal_yields", "background_yields", "data", "absolute_uncertainties"],
    "correlated": ["signal_yields", "background_yields", "data", "covariance_matrix"],
    "third": ["signal_yields", "background_yields", "data", "covariance_matrix", "third_moment"],
    "effsig": ["signal_yields", "background_yields", "data", "correlation_matrix", "absolute_uncertainty_envelops"],
    "poisson": ["signal_yields", "background_yields", "data"],
    "normal": ["signal_yields", "background_yields", "data", "absolute_uncertainties"],
    "mvn": ["signal_yields", "background_yields", "data", "covariance_matrix"],
}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(ORDER)))
    return {
        "spec": draw(S.model(kinds=(kind,), max_bins=3, tame=True, sig=(0.1, 0.6))),
        "npos": draw(st.integers(0, 5)), "how": draw(st.sampled_from(["get", "wrap", "direct"])),
        "analysis": draw(st.one_of(st.none(), st.sampled_from(["", "ATLAS-1", "a b", "__unknown_analysis__", "µ", "0"]))),
        "xs": draw(st.one_of(st.none(), S.num(0.001, 100, 3), st.sampled_from([0.0, 1e-9, 1]))),
        "ntoys": draw(st.one_of(st.none(), st.integers(1, 100000))),
        "np": draw(st.booleans()), "mu": draw(S.num(0, 1.5, 2)), "limit": draw(st.integers(0, 9)),
        "exp": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
    }


def check(c, ev):
    import spey
    from spey.interface.statistical_model import StatisticalModel, statistical_model_wrapper
    from spey.system.exceptions import UnknownCrossSection

    spec = c["spec"]
    kind = spec["kind"]
    order = ORDER[kind]
    kw = models.kwargs(spec)
    if c["np"]:
        kw = {k: (np.array(v) if k in ("signal_yields", "background_yields", "data") else v) for k, v in kw.items()}
    n = min(c["npos"], len(order))
    args = [kw[k] for k in order[:n]]
    rest = {k: v for k, v in kw.items() if k not in order[:n]}
    meta = {}
    if c["analysis"] is not None:
        meta["analysis"] = c["analysis"]
    if c["xs"] is not None:
        meta["xsection"] = c["xs"]
    if c["ntoys"] is not None:
        meta["ntoys"] = c["ntoys"]
    name = models.BACKEND[kind]
    wrapper = spey.get_backend(name)
    cls = type(wrapper(**kw).backend)
    if c["how"] == "get":
        m = wrapper(*args, **rest, **meta)
    elif c["how"] == "wrap":
        m = statistical_model_wrapper(cls)(*args, **rest, **meta)
    else:
        be = cls(*args, **rest)
        m = StatisticalModel(backend=be, analysis=c["analysis"] or "__unknown_analysis__", **{k: v for k, v in meta.items() if k != "analysis"})
        require(m.backend is be, "the wrapped back-end is another object")
    require(isinstance(m, StatisticalModel) and isinstance(m.backend, cls), "type of the wrapped model")
    want = (c["analysis"] or "__unknown_analysis__") if c["how"] == "direct" else (
        c["analysis"] if c["analysis"] is not None else "__unknown_analysis__")
    require(m.analysis == want, "analysis name", got=m.analysis, expected=want)
    require(m.ntoys == (1000 if c["ntoys"] is None else c["ntoys"]), "number of toys", got=m.ntoys)
    require(math.isnan(m.xsection) if c["xs"] is None else m.xsection == c["xs"], "cross section", got=m.xsection)
    require(m.backend_type == name, "back-end name", got=m.backend_type, expected=name)
    require(list(m.available_calculators) == ["toy", "asymptotic", "chi_square"], "calculators", got=m.available_calculators)
    require(m.is_alive is True or m.is_alive == True, "is_alive")  # noqa: E712
    text = repr(m)
    require(want in text and name in text and all(x in text for x in m.available_calculators), "description", text=text)
    # same model as with keywords only
    other = wrapper(**kw)
    ref = Ref(spec)
    p = np.zeros(ref.npar)
    p[0] = c["mu"]
    a = float(m.backend.get_logpdf_func()(p))
    require(a == float(other.backend.get_logpdf_func()(p)), "positional and keyword arguments build different models")
    require_close(a, float(ref.logpdf(p)), "density", rtol=2e-6 if kind == "third" else 1e-9, atol=1e-7)
    la, lb = float(m.likelihood(c["mu"])), float(other.likelihood(c["mu"]))
    require_close(la, lb, "likelihoods differ", rtol=1e-9, atol=1e-9)
    exp = models.expectation(c["exp"])
    if c["xs"] is None:
        for fn in (lambda: m.excluded_cross_section(), lambda: m.s95exp, lambda: m.s95obs, lambda: m.excluded_cross_section(exp)):
            try:
                out = fn()
            except UnknownCrossSection:
                ev.tag("no-xsection")
                continue
            require(False, "cross-section limit without a cross section", result=out)
    elif c["limit"] == 0:
        ul = float(m.poi_upper_limit(expected=exp))
        require_close(float(m.excluded_cross_section(exp)), ul * c["xs"], "excluded cross section", rtol=1e-6, atol=1e-300)
        require_close(float(m.s95exp), float(m.poi_upper_limit(expected=spey.ExpectationType.apriori)) * c["xs"], "s95exp", rtol=1e-6, atol=1e-300)
        require_close(float(m.s95obs), float(m.poi_upper_limit(expected=spey.ExpectationType.observed)) * c["xs"], "s95obs", rtol=1e-6, atol=1e-300)
        ev.tag("limit")
    # attributes stay assignable and are only bookkeeping
    m.analysis, m.xsection, m.ntoys = "renamed", 2.5, 11
    require((m.analysis, m.xsection, m.ntoys) == ("renamed", 2.5, 11), "attributes after assignment")
    require_close(float(m.likelihood(c["mu"])), la, "bookkeeping attributes changed the likelihood", rtol=0, atol=0)
    for bad in (None, cls, "default.poisson", m):
        try:
            StatisticalModel(bad, "x")
        except AssertionError:
            continue
        require(False, "invalid back-end accepted", backend=repr(bad))
    ev.tag(kind)
    ev.tag(c["how"])
    ev.mark(bool(meta) or n > 0)


@st.composite
def combine_case(draw):
    return {
        "spec": draw(S.model(kinds=("poisson",), max_bins=2, tame=True, sig=(0.1, 0.6))),
        "spec2": draw(S.model(kinds=("poisson",), max_bins=2, tame=True, sig=(0.1, 0.6))),
        "caps": [x for x in ("grad", "hessian", "sampler", "expected", "asimov") if draw(st.booleans())],
        "rule": draw(st.sampled_from(["none", "valid", "valid", "wrong_type", "fails", "raw"])),
        "op": draw(st.sampled_from(["combine", "matmul"])), "kw": draw(st.booleans()), "named": draw(st.booleans()),
        "names": [draw(st.sampled_from(["A", "B", "", "x y"])), draw(st.sampled_from(["A", "C", "z"]))], "mu": draw(S.num(0, 1, 2)),
    }


def check_combine(c, ev):
    from spey.interface.statistical_model import StatisticalModel
    from spey.system.exceptions import CombinerNotAvailable

    log = []
    b1 = custom.make(c["spec"], c["caps"], name="verif.comb", no_name=not c["named"])
    b2 = custom.make(c["spec2"], c["caps"], name="verif.comb2")
    cls = type(b1)
    if "asimov" in c["caps"]:
        cls.asimov_negative_loglikelihood = lambda self, **k: (0.0, np.zeros(1))
        if c["kw"]:
            cls.minimize_asimov_negative_loglikelihood = lambda self, **k: (0.0, np.zeros(1))
    union = {"kind": "poisson", **{k: list(c["spec"][k]) + list(c["spec2"][k]) for k in ("b", "s", "data")}}

    def combine(self, other, **kwargs):
        log.append((self, other, kwargs))
        if c["rule"] == "wrong_type":
            return "not a back-end"
        if c["rule"] == "fails":
            raise RuntimeError("incompatible")
        if c["rule"] == "raw":
            raise NotImplementedError("nope")
        return custom.make(union, c["caps"], name="verif.union")

    if c["rule"] != "none":
        cls.combine = combine
    m1, m2 = StatisticalModel(b1, c["names"][0], xsection=1.0), StatisticalModel(b2, c["names"][1])
    want = []
    if "sampler" in c["caps"]:
        want.append("toy")
    if "expected" in c["caps"] or ("asimov" in c["caps"] and c["kw"]):
        want.append("asymptotic")
    want.append("chi_square")
    require(list(m1.available_calculators) == want, "calculators", got=m1.available_calculators, expected=want)
    require(m1.backend_type == ("verif.comb" if c["named"] else "Custom"), "back-end name", got=m1.backend_type)
    kwargs = {"joins": "outer", "n": 3} if c["kw"] and c["op"] == "combine" else {}
    exc = {"none": CombinerNotAvailable, "raw": CombinerNotAvailable, "wrong_type": AssertionError, "fails": RuntimeError}.get(c["rule"])
    try:
        out = m1.combine(m2, **kwargs) if c["op"] == "combine" else m1 @ m2
    except Exception as err:  # pylint: disable=broad-except
        require(exc is not None and isinstance(err, exc), "error of a failed combination", got=repr(err), rule=c["rule"])
        ev.tag("refused-" + c["rule"])
    else:
        require(exc is None, "failed combination returned a model", rule=c["rule"], got=repr(out))
        require(isinstance(out, StatisticalModel) and out is not m1 and out is not m2, "combined model")
        require(len(log) == 1 and log[0][0] is b1 and log[0][1] is b2, "combination rule called with other back-ends")
        require(log[0][2] == kwargs, "arguments of the combination rule", got=log[0][2], expected=kwargs)
        require(out.backend_type == "verif.union", "combined back-end")
        require(all(x in out.analysis for x in c["names"]), "name of the combination", got=out.analysis)
        v = float(out.likelihood(c["mu"]))
        require_close(v, float(m1.likelihood(c["mu"])) + float(m2.likelihood(c["mu"])), "combined likelihood", rtol=1e-9, atol=1e-9)
        ev.tag("combined")
    # the operands are untouched
    require(m1.analysis == c["names"][0] and m2.analysis == c["names"][1] and m1.backend is b1 and m2.backend is b2, "operands changed")
    ev.mark(True)


SUBS = [
    Sub("wrapper", case, check, quick=1000, thorough=20000),
    Sub("combine", combine_case, check_combine, quick=1000, thorough=20000),
]

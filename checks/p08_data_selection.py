"""P08: expectation type / supplied data select exactly the intended data set."""
import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P08"
RULE = (
    "A case is a model, a parameter point, a selection (expectation type and/or supplied data as list, "
    "tuple-like list or array, integer or real) and a tested strength. The oracle is the same model "
    "rebuilt with the intended data set as its observation. Non-trivial: the three candidate data sets "
    "differ pairwise."
)


@st.composite
def case(draw):
    spec = draw(S.model(max_bins=4, tame=True, signal_fn=True, modifiers=True, cov_fn=True, sig=(0.1, 1.0)))
    n = len(spec["b"])
    c = draw(S.point(st.just(spec)))
    c.update(
        expected=draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
        data=draw(st.one_of(st.none(), st.just([0] * n), S.vec(n, 1, 90, 9), st.lists(st.integers(1, 90), min_size=n, max_size=n),
                            st.just(True).flatmap(lambda _: S.vec(n, 0.5, 90, 2)))),
        form=draw(st.sampled_from(["list", "array"])),
        mu=draw(S.num(0, 2.5, 2)),
    )
    return c


def check(c, ev):
    import spey.math

    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    exp = models.expectation(c["expected"])
    intended = c["data"] if c["data"] is not None else (spec["b"] if c["expected"] == "apriori" else spec["data"])
    a = models.build(spec)
    b = models.build(dict(spec, data=[float(v) for v in intended]))
    obs = models.expectation("observed")
    arr = None if c["data"] is None else np.array(c["data"])
    data = None if arr is None else (list(c["data"]) if c["form"] == "list" else arr)
    t = 1e-6 if ref.kind == "third" else 1e-9
    A, B = a.backend, b.backend
    require_close(A.get_logpdf_func(expected=exp, data=arr)(pars), B.get_logpdf_func()(pars), "log-density", rtol=t, atol=t)
    va, ga = A.get_objective_function(expected=exp, data=arr, do_grad=True)(pars)
    vb, gb = B.get_objective_function(do_grad=True)(pars)
    require_close(va, vb, "objective", rtol=t, atol=t)
    require_allclose(ga, gb, "gradient", rtol=t, atol=1e-7)
    require_close(A.get_objective_function(expected=exp, data=arr, do_grad=False)(pars), vb, "objective without gradient", rtol=t, atol=t)
    require_allclose(A.get_hessian_logpdf_func(expected=exp, data=arr)(pars), B.get_hessian_logpdf_func()(pars), "Hessian", rtol=1e-7, atol=1e-7)
    v, g = spey.math.value_and_grad(a, expected=exp, data=data)(pars)
    require_close(v, vb, "value_and_grad", rtol=t, atol=t)
    require_allclose(g, gb, "value_and_grad gradient", rtol=t, atol=1e-7)
    require_allclose(spey.math.hessian(a, expected=exp, data=data)(pars), -np.array(B.get_hessian_logpdf_func()(pars)), "hessian helper", rtol=1e-7, atol=1e-7)
    # fits follow the same path on the same numbers: only round-off may differ
    tol = 2e-3 if (ref.nsp or ref.mods or ref.kind in ("effsig", "poisson_unc")) else 1e-4
    la = float(a.likelihood(c["mu"], expected=exp, data=data))
    lb = float(b.likelihood(c["mu"]))
    require_close(la, lb, "profiled likelihood", rtol=0, atol=tol)
    if not ref.nsp:
        for neg in (True, False):
            ma, na = a.maximize_likelihood(expected=exp, data=data, allow_negative_signal=neg)
            mb, nb = b.maximize_likelihood(allow_negative_signal=neg)
            require_close(na, nb, "maximum likelihood", rtol=0, atol=tol, muhat=(ma, mb), neg=neg)
    if c["data"] is None:
        if not ref.nsp and not ref.mods and ref.kind != "poisson_unc":
            sa = float(a.sigma_mu_from_hessian(c["mu"], expected=exp))
            sb = float(b.sigma_mu_from_hessian(c["mu"], expected=obs))
            if np.isfinite(sa) or np.isfinite(sb):
                require_close(sa, sb, "uncertainty on the signal strength", rtol=1e-2, atol=1e-6)
        np.random.seed(7)
        xa = np.asarray(a.fixed_poi_sampler(c["mu"], size=3, expected=exp), float)
        np.random.seed(7)
        xb = np.asarray(b.fixed_poi_sampler(c["mu"], size=3, expected=obs), float)
        require(xa.shape == xb.shape, "sample shapes", a=xa.shape, b=xb.shape)
        if not ref.nsp and not ref.mods and ref.kind in ("normal", "mvn"):
            require_allclose(xa, xb, "samples at the profiled point", rtol=1e-6, atol=1e-6)
        ev.tag("expected:" + c["expected"])
    else:
        ev.tag("supplied-" + c["form"], "integer" if arr.dtype.kind == "i" else "real")
    ev.tag(spec["kind"])
    d = {tuple(spec["b"]), tuple(spec["data"])} | ({tuple(float(x) for x in c["data"])} if c["data"] else set())
    ev.mark(len(d) == 2 + (c["data"] is not None))


# ------------------------------------------------------------------ inference-level selection
@st.composite
def inf_case(draw):
    spec = draw(S.model(kinds=("uncorrelated", "correlated", "poisson", "normal", "mvn"), max_bins=3, tame=True, sig=(0.1, 1.0)))
    return {"spec": spec, "mu": draw(S.num(0.2, 3, 2))}


def check_inf(c, ev):
    """Pre-fit expected results are those of the same model that observed its background."""
    spec, mu = c["spec"], c["mu"]
    a = models.build(spec)
    b = models.build(dict(spec, data=list(spec["b"])))
    E = models.expectation
    ca = a.exclusion_confidence_level(mu, expected=E("apriori"))
    cb = b.exclusion_confidence_level(mu, expected=E("aposteriori"))
    require_allclose(ca, cb, "pre-fit expected exclusion vs model that observed the background", rtol=0, atol=3e-3)
    co = a.exclusion_confidence_level(mu, expected=E("observed"))
    ce = a.exclusion_confidence_level(mu, expected=E("aposteriori"))
    require(len(co) == 1 and len(ce) == 5 and len(ca) == 5, "number of returned values", o=len(co), e=len(ce), p=len(ca))
    ua, ub = a.poi_upper_limit(expected=E("apriori")), b.poi_upper_limit(expected=E("observed"))
    if np.isinf(ua) or np.isinf(ub):
        require(ua == ub, "upper limits", a=ua, b=ub)
    else:
        ux = b.poi_upper_limit(expected=E("aposteriori"))
        require_close(ua, ux, "pre-fit expected upper limit", rtol=5e-3, atol=1e-3)
    require_close(a.likelihood(mu, expected=E("aposteriori")), a.likelihood(mu), "post-fit expected likelihood uses the observation", rtol=0, atol=1e-9)
    ev.tag(spec["kind"])
    ev.mark(spec["b"] != spec["data"])


NAMES = ["observed", "aposteriori", "apriori"]


@st.composite
def type_case(draw):
    name = draw(st.sampled_from(NAMES))
    i, j = sorted((draw(st.integers(0, len(name))), draw(st.integers(0, len(name)))))
    text = draw(st.sampled_from([name, name[i:j], name.upper(), name.capitalize(), name + " ", name + "x", "", "post", "pre", "None"]))
    return {"a": name, "b": draw(st.sampled_from(NAMES)), "text": text, "bad": draw(st.sampled_from(["int", "float", "list", "tuple", "dict", "type"]))}


def check_type(c, ev):
    """ExpectationType values compare equal to themselves, to their exact name and to the flag they stand for, to nothing else."""
    from spey import ExpectationType

    a, b = getattr(ExpectationType, c["a"]), getattr(ExpectationType, c["b"])
    same = c["a"] == c["b"]
    require((a == b) is same and (a != b) is (not same), "comparison of two expectation types", a=c["a"], b=c["b"])
    require((hash(a) == hash(b)) or not same, "equal types with different hashes")
    require((len({a, b}) == 1) is same and ({a: 1}.get(b) == 1) is same, "expectation types as keys", a=c["a"], b=c["b"])
    require((a == c["text"]) is (c["text"] == c["a"]) and (a != c["text"]) is (c["text"] != c["a"]), "comparison with a text", a=c["a"], text=c["text"])
    require((a == True) is (c["a"] == "apriori") and (a == False) is (c["a"] == "observed"), "comparison with a flag", a=c["a"])  # noqa: E712
    require((a == None) is False, "comparison with None")  # noqa: E711
    require(str(a) == c["a"] and repr(a) == c["a"], "text of an expectation type", got=[str(a), repr(a)])
    bad = {"int": 1, "float": 0.5, "list": [c["a"]], "tuple": (c["a"],), "dict": {}, "type": ExpectationType}[c["bad"]]
    try:
        a == bad  # noqa: B015
        raised = False
    except ValueError:
        raised = True
    require(raised, "comparison with something else is accepted", bad=c["bad"])
    ev.mark(c["text"] != c["a"] and c["text"] in c["a"])
    ev.tag("same" if same else "different")


SUBS = [
    Sub("types", type_case, check_type, quick=500, thorough=3000),
    Sub("entry_points", case, check, quick=800, thorough=10000),
    Sub("inference", inf_case, check_inf, quick=150, thorough=3000),
]

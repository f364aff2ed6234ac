"""P03: gradients and Hessians of the log-likelihood."""
import numpy as np
from autograd import grad, hessian
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P03"
RULE = (
    "A case is a model (optionally with functional signal/width/covariance or signal uncertainties), "
    "an interior parameter point and a data choice. Non-trivial: more than one parameter."
)


@st.composite
def case(draw):
    c = draw(S.point(S.model(max_bins=4, signal_fn=True, cov_fn=True, modifiers=True)))
    n = len(c["spec"]["b"])
    c["pars"] = [p if abs(p) > 1e-3 else 0.013 for p in c["pars"]]
    c["expected"] = draw(st.sampled_from(["observed", "aposteriori", "apriori"]))
    c["data"] = draw(st.one_of(st.none(), S.vec(n, 1, 150, 2)))
    return c


def check(c, ev):
    import spey
    import spey.math

    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    model = models.build(spec)
    exp = models.expectation(c["expected"])
    data = None if c["data"] is None else np.array(c["data"])
    rdata = data if data is not None else (ref.b if c["expected"] == "apriori" else ref.data)
    f = lambda p: ref.nll(p, rdata)  # noqa: E731
    v, g, H = float(f(pars)), np.asarray(grad(f)(pars)), np.asarray(hessian(f)(pars))
    t = 5e-5 if ref.kind == "third" else 1e-7
    sg, sh = max(1.0, np.abs(g).max()), max(1.0, np.abs(H).max())
    val, gr = model.backend.get_objective_function(expected=exp, data=data, do_grad=True)(pars)
    require_close(float(val), v, "objective value", rtol=t, atol=t * 10)
    require_allclose(gr, g, "objective gradient", rtol=t, atol=t * sg)
    val, gr = spey.math.value_and_grad(model, expected=exp, data=c["data"])(c["pars"])
    require_close(float(val), v, "value_and_grad value", rtol=t, atol=t * 10)
    require_allclose(gr, g, "value_and_grad gradient", rtol=t, atol=t * sg)
    h = model.backend.get_hessian_logpdf_func(expected=exp, data=data)(pars)
    require_allclose(h, -H, "Hessian of the log-likelihood", rtol=t, atol=t * sh)
    h = spey.math.hessian(model, expected=exp, data=c["data"])(c["pars"])
    require_allclose(h, H, "hessian() helper", rtol=t, atol=t * sh)
    # the reference gradient itself against a central difference
    k = int(np.argmax(np.abs(g)))
    e = np.zeros(len(pars))
    e[k] = 1e-5
    fd = (f(pars + e) - f(pars - e)) / 2e-5
    require_close(g[k], fd, "reference gradient vs difference quotient", rtol=2e-3, atol=2e-3 * sg)
    ev.tag(spec["kind"], "data" if data is not None else c["expected"])
    if spec.get("mods"):
        ev.tag("sources")
    if "sfun" in spec:
        ev.tag("functional-signal")
    ev.mark(len(pars) > 1)


SUBS = [Sub("derivatives", case, check, quick=800, thorough=12000)]

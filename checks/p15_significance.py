"""P15: discovery significance."""
import math

from hypothesis import strategies as st

from harness import analytic, inference, models, strategies as S
from harness.core import Inconclusive, Sub, require, require_close

PROPERTY = "P15"
RULE = (
    "analytic: closed-form likelihoods behind the public interface. textbook: a one-bin counting model and the closed "
    "formulae. real: several bins with uncertainties against reference fits. Non-trivial: a positive significance."
)
BUDGET = {"quick": 200, "thorough": 3000}


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def tails(sA, s0, pv, ex):
    require(len(pv) == 1 and len(ex) == 5, "one observed and five expected p-values", pv=pv, ex=ex)
    require_close(pv[0], phi(-s0), "discovery p-value", rtol=1e-6, atol=1e-12, significance=s0)
    for i, n in enumerate((2, 1, 0, -1, -2)):
        require_close(ex[i], phi(-sA - n), "expected discovery p-value", rtol=1e-6, atol=1e-12, band=i)


@st.composite
def an_case(draw):
    return {"d": draw(analytic.strategy()), "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"]))}


def check_an(c, ev):
    m, cv = analytic.make(c["d"])
    sA, s0, pv, ex = m.significance(expected=models.expectation(c["e"]))
    x = cv.obs(c["e"])
    mh = cv.muhat(x, False)
    want = math.sqrt(max(0.0, 2 * (cv.nll(0.0, x) - cv.nll(mh, x))))
    xa = cv.asimov(c["e"], "q0")
    ma = cv.muhat(xa, False)
    wantA = math.sqrt(max(0.0, 2 * (cv.nll(0.0, xa) - cv.nll(ma, xa))))
    require_close(s0, want, "significance", rtol=1e-9, atol=1e-9, case=c)
    require_close(sA, wantA, "Asimov significance", rtol=1e-9, atol=1e-9, case=c)
    tails(wantA, want, pv, ex)
    ev.tag(c["d"]["family"], c["e"])
    ev.mark(want > 0)


@st.composite
def one_case(draw):
    b = draw(S.num(2, 150, 2))
    s = round(b * draw(S.num(0.15, 1.5, 3)), 3)
    n = float(round(b * draw(S.num(0.4, 2.2, 2))))
    return {"b": b, "s": s, "n": n, "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])),
            "bins": draw(st.integers(0, 2))}


def check_one(c, ev):
    import spey

    # further bins without signal only add constants
    b, s, n = [c["b"]] + [7.0] * c["bins"], [c["s"]] + [0.0] * c["bins"], [c["n"]] + [6.0] * c["bins"]
    m = spey.get_backend("default.poisson")(signal_yields=s, background_yields=b, data=n)
    sA, s0, pv, ex = (m.significance() if c["e"] == "observed" else m.significance(expected=models.expectation(c["e"])))
    nn, bb, ss = (c["b"] if c["e"] == "apriori" else c["n"]), c["b"], c["s"]
    mu = (nn - bb) / ss
    if mu > 9.9:
        raise Inconclusive("best fit at the bound")
    want = 0.0 if nn <= bb else math.sqrt(2 * (nn * math.log(nn / bb) - (nn - bb)))
    wantA = math.sqrt(2 * ((ss + bb) * math.log(1 + ss / bb) - ss))
    tol = 2e-4
    require(abs(float(s0) ** 2 - want**2) < tol, "one-bin significance vs textbook", got=float(s0), want=want)
    require(abs(float(sA) ** 2 - wantA**2) < tol, "one-bin Asimov significance vs textbook", got=float(sA), want=wantA)
    tails(float(sA), float(s0), pv, ex)
    ev.tag("excess" if want > 0 else "deficit", c["e"])
    ev.mark(want > 0)


@st.composite
def real_case(draw):
    spec = draw(S.model(kinds=inference.CONVEX, max_bins=3, tame=True, sig=(0.1, 0.9)))
    return {"spec": spec, "e": draw(st.sampled_from(["observed", "observed", "apriori", "aposteriori"]))}


def check_real(c, ev):
    m = models.build(c["spec"])
    ch = inference.Chain(c["spec"], c["e"], "q0")
    if ch.muhat > 9.9:
        raise Inconclusive("best fit at the bound")
    sA, s0, pv, ex = m.significance(expected=models.expectation(c["e"]))
    q, qA = ch.q(0.0), ch.q(0.0, asimov=True)
    # dependence of the Asimov data on the optimiser accuracy of the signal-injected fit
    tolA = 1e-3 + 0.01 * qA
    require(abs(float(s0) ** 2 - q) < 1e-3, "significance vs reference fits", got=float(s0), want=math.sqrt(q), muhat=ch.muhat)
    require(abs(float(sA) ** 2 - qA) < tolA, "Asimov significance vs reference fits", got=float(sA), want=math.sqrt(qA))
    tails(float(sA), float(s0), pv, ex)
    free = m.maximize_likelihood(expected=models.expectation(c["e"]))[0]
    if free < -0.02:
        require(float(s0) < 0.03, "significance of a negative best fit", got=float(s0), muhat=free)
        ev.tag("negative-best-fit")
    ev.tag(c["spec"]["kind"], c["e"])
    ev.mark(q > 0.01)


SUBS = [
    Sub("analytic", an_case, check_an, quick=2000, thorough=40000),
    Sub("textbook", one_case, check_one, quick=700, thorough=15000),
    Sub("real", real_case, check_real, quick=600, thorough=10000),
]

"""P13: toy p-values: empirical fractions, exact replay of analytic toys, statistics of real models."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import analytic, models, strategies as S
from harness.core import Sub, require, require_close

PROPERTY = "P13"
RULE = (
    "empirical: two samples of statistics (ties, repeated values, small sizes) and an observed value. replay: a "
    "closed-form model whose pseudo-data are recorded, the toy exclusion recomputed exactly from them. real: "
    "pseudo-experiments of real models against a reference p-value. Non-trivial: a fraction strictly between 0 and 1."
)
BUDGET = {"quick": 240, "thorough": 3000}


@st.composite
def emp_case(draw):
    v = st.one_of(S.num(-3, 8, 2), st.integers(0, 4).map(float), st.just(0.0))
    a = draw(st.lists(v, min_size=1, max_size=40))
    b = draw(st.lists(v, min_size=1, max_size=40))
    x = draw(st.one_of(v, st.sampled_from(a + b)))
    return {"s": a, "b": b, "x": x, "stat": draw(st.sampled_from(["q", "qtilde", "qmutilde", "q0"]))}


def frac(sample, x):
    return sum(1 for v in sample if v >= x) / len(sample)


def quantile(sample, p):
    """Linear-interpolation quantile, written out."""
    y = sorted(sample)
    h = (len(y) - 1) * p
    lo = min(int(math.floor(h)), len(y) - 1)
    hi = min(lo + 1, len(y) - 1)
    return y[lo] + (h - lo) * (y[hi] - y[lo])


def check_emp(c, ev):
    from spey.hypothesis_testing.distributions import EmpricTestStatisticsDistribution as D
    from spey.hypothesis_testing.toy_calculator import compute_toy_confidence_level
    from spey.hypothesis_testing.utils import expected_pvalues, pvalues

    S_, B_ = D(np.array(c["s"])), D(np.array(c["b"]))
    x = c["x"]
    psb, pb = frac(c["s"], x), frac(c["b"], x)
    ps = psb / pb if pb else 0.0
    for g, w, n in zip(pvalues(x, S_, B_), (psb, pb, ps), ("p_s+b", "p_b", "p_s")):
        require_close(g, w, "toy " + n, rtol=1e-12, atol=1e-12, case=c)
    obs, exp = compute_toy_confidence_level(list(c["s"]), list(c["b"]), x, c["stat"])
    require(len(obs) == 1 and len(exp) == 5, "one observed and five expected values")
    require_close(obs[0], psb if c["stat"] == "q0" else ps, "toy observed p-value", rtol=1e-12, atol=1e-12)
    bands = expected_pvalues(S_, B_)
    for i, n in enumerate((2.0, 1.0, 0.0, -1.0, -2.0)):
        p = 0.5 * math.erfc(-n / math.sqrt(2))
        q = quantile(c["b"], p)
        require_close(B_.expected_value(n), q, "expected quantile", rtol=1e-9, atol=1e-9)
        # the fraction at the quantile itself is decided by rounding when samples tie with it
        lo_s, hi_s = frac(c["s"], q + 1e-9), frac(c["s"], q - 1e-9)
        lo_b, hi_b = frac(c["b"], q + 1e-9), frac(c["b"], q - 1e-9)
        require(lo_s - 1e-12 <= bands[0][i] <= hi_s + 1e-12, "expected toy p_s+b", band=i, got=bands[0][i])
        require(lo_b - 1e-12 <= bands[1][i] <= hi_b + 1e-12, "expected toy p_b", band=i, got=bands[1][i])
        want = bands[0][i] / bands[1][i] if bands[1][i] else 0.0
        require_close(bands[2][i], want, "expected toy ratio", rtol=1e-12, atol=1e-12)
        require_close(exp[i], bands[0][i] if c["stat"] == "q0" else bands[2][i], "expected toy value", rtol=1e-12, atol=1e-12)
    ev.tag(c["stat"], "tie" if x in c["s"] or x in c["b"] else "no-tie")
    ev.mark(0 < psb < 1 or 0 < pb < 1)


@st.composite
def replay_case(draw):
    return {"d": draw(analytic.strategy()), "mu": draw(S.num(0.1, 3, 2)), "neg": draw(st.booleans()),
            "e": draw(st.sampled_from(["observed", "apriori", "aposteriori"])), "n": draw(st.integers(1, 60)),
            "seed": draw(st.integers(0, 99))}


def check_replay(c, ev):
    m, cv = analytic.make(c["d"], ntoys=c["n"], seed=c["seed"])
    kind = "q" if c["neg"] else "qtilde"
    got = m.exclusion_confidence_level(c["mu"], expected=models.expectation(c["e"]), allow_negative_signal=c["neg"],
                                       calculator="toy", verbose=False)

    def q(x):
        mh = cv.muhat(x, c["neg"])
        return analytic.q_stat(kind, c["mu"], mh, -cv.nll(mh, x), lambda mu: -cv.nll(mu, x))

    sig = [v for p, e, xs in m.samples if p == c["mu"] for v in xs]
    bkg = [v for p, e, xs in m.samples if p == 0.0 for v in xs]
    require(all(p in (c["mu"], 0.0) for p, _, _ in m.samples), "pseudo-data of another hypothesis", at=[p for p, _, _ in m.samples])
    require(all(e == c["e"] for _, e, _ in m.samples), "pseudo-data of another expectation type")
    require(len(sig) == c["n"] and len(bkg) == c["n"], "number of pseudo-experiments", sig=len(sig), bkg=len(bkg), want=c["n"])
    ts, tb, to = [q(x) for x in sig], [q(x) for x in bkg], q(cv.obs(c["e"]))

    def both(x):
        out = set()
        for eps in (-1e-9, 0.0, 1e-9):
            a, b = frac(ts, x + eps), frac(tb, x + eps)
            out.add((a, b))
        return out

    def matches(value, x):
        # 1 - clip(ratio); the tie-breaking at the value itself may be decided by rounding
        opts = {1.0 - min(1.0, max(0.0, (a / b if b else 0.0))) for a in {p[0] for p in both(x)} for b in {p[1] for p in both(x)}}
        return any(abs(value - o) < 1e-9 for o in opts), opts

    if c["e"] == "observed":
        require(len(got) == 1, "one observed value", got=got)
        ok, opts = matches(got[0], to)
        require(ok, "toy exclusion differs from the fractions of its pseudo-experiments", got=got[0], want=sorted(opts))
    else:
        require(len(got) == 5, "five expected values", got=got)
        for i, n in enumerate((2.0, 1.0, 0.0, -1.0, -2.0)):
            ok, opts = matches(got[i], quantile(tb, 0.5 * math.erfc(-n / math.sqrt(2))))
            require(ok, "expected toy exclusion differs from the fractions", band=i, got=got[i], want=sorted(opts))
    require(all(0.0 <= v <= 1.0 for v in got), "outside [0, 1]", got=got)
    ev.tag(c["d"]["family"], c["e"])
    ev.mark(any(0 < v < 1 for v in got))


@st.composite
def real_case(draw):
    spec = draw(S.model(kinds=("poisson", "normal", "mvn", "uncorrelated", "correlated"), max_bins=2, tame=True, sig=(0.15, 0.5)))
    spec["b"] = [x + 40 for x in spec["b"]]
    spec["data"] = [float(round(x * draw(S.num(0.9, 1.1, 2)))) for x in spec["b"]]
    return {"spec": spec, "mu": draw(S.num(0.3, 1.2, 2)), "seed": draw(st.integers(0, 1000)), "n": 120}


def check_real(c, ev):
    """Toy CLs of a real model vs the asymptotic one, within binomial and asymptotic accuracy."""
    m = models.build(c["spec"])
    m.ntoys = c["n"]
    state = np.random.get_state()
    try:
        np.random.seed(c["seed"])
        toy = m.exclusion_confidence_level(c["mu"], calculator="toy", verbose=False)
    finally:
        np.random.set_state(state)
    asy = models.build(c["spec"]).exclusion_confidence_level(c["mu"])
    require(len(toy) == 1 and 0 <= toy[0] <= 1, "toy exclusion", toy=toy)
    p = 1 - float(asy[0])
    # p_s = p_sb / p_b: binomial error of both fractions, p_b bounded from below by p_sb
    n = c["n"]
    if p > 0.9 or p < 0.02:
        ev.tag("edge")
    from scipy.stats import norm
    del norm
    tol = 0.10 + 5.0 * math.sqrt(max(p, 0.02) / n) * 1.5
    require(abs((1 - float(toy[0])) - p) < tol, "toy and asymptotic exclusions disagree", toy=toy[0], asymptotic=float(asy[0]), tol=tol)
    ev.tag(c["spec"]["kind"])
    ev.mark(0.02 < p < 0.9)


SUBS = [
    Sub("empirical", emp_case, check_emp, quick=2500, thorough=60000),
    Sub("replay", replay_case, check_replay, quick=700, thorough=15000),
    Sub("real", real_case, check_real, quick=40, thorough=800, case_timeout=120),
]

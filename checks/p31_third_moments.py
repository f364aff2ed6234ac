"""P31: the third-moment expansion reproduces the requested moments."""
import logging
import math

import numpy as np
from hypothesis import strategies as st

from harness import strategies as S
from harness.core import Sub, require, require_allclose, require_close

PROPERTY = "P31"
RULE = (
    "expansion: means, a covariance over twelve orders of magnitude and third moments as a fraction of the validity limit (zero, tiny, "
    "typical, at the limit, beyond); oracle: the moments of A + B x + C x^2 for standard normal x with the returned correlation. model: "
    "moments of the expected yields of the model by Gauss-Hermite quadrature. bifurcated: the documented integral in closed form. "
    "Non-trivial: a bin with a non-zero valid third moment next to another bin (expansion), unequal sides (bifurcated)."
)
BUDGET = {"quick": 90, "thorough": 1200}
frac = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1e-8, -1e-4, 1.5, -3.0]), S.num(-0.99, 0.99, 3), S.num(-0.99, 0.99, 3))


@st.composite
def expansion_case(draw):
    n = draw(st.integers(1, 5))
    return {
        "m1": draw(S.vec(n, -5, 200, 1)), "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]],
        "sd": [draw(st.one_of(S.num(0.1, 30, 2), st.sampled_from([1e-4, 1e-2, 300.0, 2e3, 5e4]))) for _ in range(n)],
        "frac": [draw(frac) for _ in range(n)], "int": draw(st.integers(0, 5)) == 0, "want": draw(st.booleans()),
    }


def expansion_check(c, ev):
    from spey.backends.default_pdf.third_moment import third_moment_expansion

    n = len(c["m1"])
    sd = np.array(c["sd"])
    cov = np.array(c["rho"]) * np.outer(sd, sd)
    m1 = np.array(c["m1"])
    m3 = np.array(c["frac"]) * math.sqrt(8.0) * sd**3
    if c["int"]:
        cov, m3, m1 = np.round(cov).astype(int) + np.eye(n, dtype=int), np.round(m3).astype(int), np.round(m1).astype(int)
    S2 = np.diag(cov).astype(float)
    ratio = np.array([m3[i] * m3[i] / (8.0 * S2[i] ** 3) if not c["int"] else float(int(m3[i])) ** 2 / (8.0 * S2[i] ** 3) for i in range(n)])
    keep = [np.array(x, copy=True) for x in (m1, cov, m3)]
    got = []
    lg = logging.getLogger("Spey")
    h = logging.Handler()
    h.emit = lambda r: got.append((r.levelno, r.getMessage()))
    old, prop, level = list(lg.handlers), lg.propagate, lg.level
    lg.handlers[:], lg.propagate = [h], False
    lg.setLevel(30)
    try:
        out = third_moment_expansion(m1, cov, m3, return_correlation_matrix=c["want"])
    finally:
        lg.handlers[:], lg.propagate = old, prop
        lg.setLevel(level)
    require(len(out) == (4 if c["want"] else 3), "number of results", got=len(out))
    require(all(np.array_equal(a, b) for a, b in zip(keep, (m1, cov, m3))), "the inputs changed")
    A, B, C = (np.asarray(x, dtype=float) for x in out[:3])
    require(A.shape == B.shape == C.shape == (n,) and np.all(np.isfinite([A, B, C])), "coefficients are not finite vectors", A=A.tolist(), B=B.tolist(), C=C.tolist())
    edge = np.abs(ratio - 1.0) < 1e-9
    for i in range(n):
        s = math.sqrt(S2[i])
        require(B[i] >= 0, "negative linear coefficient", B=float(B[i]))
        if edge[i]:
            if C[i] == 0:  # rounding decides on which side of the limit the bin is
                require_close(B[i], s, "Gaussian coefficient", rtol=1e-12)
                continue
            require_close(abs(C[i]), s / math.sqrt(2), "quadratic coefficient at the limit", rtol=1e-4)
        elif ratio[i] > 1 or m3[i] == 0:
            require(abs(C[i]) <= 1e-15 * s, "a bin without a valid third moment keeps a quadratic term", bin=i, C=float(C[i]), ratio=float(ratio[i]))
            require_close(B[i], s, "Gaussian linear coefficient", rtol=1e-12)
            require_close(A[i], float(m1[i]), "Gaussian constant", rtol=1e-12, atol=1e-12)
            continue
        scale = max(abs(float(m1[i])), s)
        require(abs(A[i] + C[i] - m1[i]) <= 1e-12 * scale, "mean of the expansion", got=float(A[i] + C[i]), expected=float(m1[i]))
        require_close((B[i] ** 2 + 2 * C[i] ** 2) / S2[i], 1.0, "variance of the expansion", rtol=1e-9)
        require(abs(6 * B[i] ** 2 * C[i] + 8 * C[i] ** 3 - m3[i]) <= (1e-6 if edge[i] else 1e-9) * s**3, "third central moment of the expansion", bin=i,
                got=float(6 * B[i] ** 2 * C[i] + 8 * C[i] ** 3), expected=float(m3[i]))
    bad = bool(np.any((ratio > 1) & ~edge))
    warned = any("Third moments" in m or "condition" in m for lv, m in got if lv >= 30)
    if not np.any(edge):
        require(warned == bad, "the documented warning about invalid third moments is missing or unfounded", warned=warned, ratios=ratio.tolist())
    pairs = 0
    if c["want"]:
        rho = np.asarray(out[3], dtype=float)
        require(rho.shape == (n, n), "shape of the correlation matrix")
        require_allclose(rho, rho.T, "the correlation matrix is symmetric", rtol=1e-12, atol=1e-12)
        for i in range(n):
            for j in range(n):
                cc, bb, cv = C[i] * C[j], B[i] * B[j], float(cov[i, j])
                norm = math.sqrt(S2[i] * S2[j])
                disc = bb * bb + 8 * cc * cv
                if disc <= 1e-9 * norm**2:
                    ev.tag("no-solution")
                    continue
                pairs += i != j
                require(np.isfinite(rho[i, j]), "correlation is not finite", i=i, j=j)
                require(abs(bb * rho[i, j] + 2 * cc * rho[i, j] ** 2 - cv) <= 1e-6 * norm, "covariance of the expansion", i=i, j=j,
                        got=float(bb * rho[i, j] + 2 * cc * rho[i, j] ** 2), expected=cv)
                if i == j:
                    require_close(rho[i, i], 1.0, "diagonal of the correlation matrix", rtol=1e-6)
                if abs(cc) <= 1e-12 * norm:
                    require(abs(rho[i, j] - cv / bb) <= 1e-6, "correlation of bins with Gaussian coefficients", got=float(rho[i, j]), expected=cv / bb)
    valid = (np.abs(C) > 0).sum()
    ev.mark(valid > 0 and n > 1)
    ev.tag("violating" if bad else "valid", f"pairs-{min(pairs, 3)}")


# ------------------------------------------------------------------ the model
@st.composite
def model_case(draw):
    n = draw(st.integers(1, 3))
    return {
        "rel": draw(S.vec(n, 0.02, 0.12, 3)), "b": draw(S.vec(n, 20, 400, 1)), "s": draw(S.vec(n, 0.5, 20, 1)),
        "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]], "frac": [draw(st.one_of(S.num(-0.9, 0.9, 2), st.sampled_from([0.0, 2.0]))) for _ in range(n)],
        "mu": draw(S.num(0, 2, 2)), "d": [draw(st.integers(1, 300)) for _ in range(n)],
    }


def model_check(c, ev):
    """Mean, covariance and third moments of the model's yields over its own constraint distribution."""
    import spey

    n = len(c["b"])
    b, s = np.array(c["b"]), np.array(c["s"])
    sd = np.array(c["rel"]) * b
    cov = np.array(c["rho"]) * np.outer(sd, sd)
    m3 = np.array(c["frac"]) * math.sqrt(8.0) * sd**3
    valid = np.abs(c["frac"]) <= 1
    m = spey.get_backend("default.third_moment_expansion")(signal_yields=s, background_yields=b, data=np.array(c["d"]), covariance_matrix=cov, third_moment=m3)
    x, w = np.polynomial.hermite_e.hermegauss(4)  # exact for sixth powers; yields stay positive at the nodes
    w = w / w.sum()
    from spey.backends.default_pdf.third_moment import third_moment_expansion

    A, B, C, rho = third_moment_expansion(b, cov, m3, return_correlation_matrix=True)
    gauss = np.eye(n)

    def yields(theta):
        return np.asarray(m.backend.expected_data([c["mu"]] + list(theta), include_auxiliary=False), dtype=float)

    shift = c["mu"] * s
    lam = np.array([yields([t] * n) for t in x])  # each bin depends on its own parameter only
    mean = w @ lam
    require_allclose(mean - shift, b, "mean yields of the model", rtol=1e-9)
    d = lam - mean
    require_allclose(w @ d**2, np.diag(cov), "variance of the yields of the model", rtol=1e-8)
    third = w @ d**3
    for i in range(n):
        require(abs(third[i] - (m3[i] if valid[i] else 0.0)) <= 1e-7 * sd[i] ** 3, "third moment of the yields of the model", bin=i, got=float(third[i]), expected=float(m3[i]))
    # joint moments with the correlation of the constraint term
    const = m.backend.constraint_model
    pdf = const._pdfs[0]
    R = np.asarray(pdf.cov(None)) if hasattr(pdf, "cov") else gauss
    for i in range(n):
        for j in range(i):
            if B[i] ** 2 * B[j] ** 2 + 8 * C[i] * C[j] * cov[i, j] <= 1e-6 * cov[i, i] * cov[j, j] or abs(R[i, j]) > 1:
                ev.tag("no-solution")
                continue
            r = R[i, j]
            got = 0.0
            for xa, wa in zip(x, w):
                tj = r * xa + math.sqrt(max(1 - r * r, 0.0)) * x
                li = yields([xa if k == i else 0.0 for k in range(n)])[i] - mean[i]
                lj = np.interp(tj, x, lam[:, j]) if False else A[j] + shift[j] + B[j] * tj + C[j] * tj**2 - mean[j]
                got += wa * li * float(w @ lj)
            require(abs(got - cov[i, j]) <= 1e-6 * sd[i] * sd[j], "covariance of the yields of the model", i=i, j=j, got=got, expected=float(cov[i, j]))
    ev.mark(n > 1 and np.any(valid & (np.array(c["frac"]) != 0)))


# ------------------------------------------------------------------ asymmetric uncertainties
@st.composite
def bif_case(draw):
    n = draw(st.integers(1, 4))
    base = st.one_of(S.num(0.1, 30, 2), st.sampled_from([1e-4, 1e-3, 0.02, 150.0, 2e3, 4e4]))
    up = [draw(base) for _ in range(n)]
    lo = [draw(st.one_of(st.just(u), S.num(0.05, 8, 3).map(lambda r, u=u: u * r), st.sampled_from([1e-3, 0.01, 50.0, 700.0]).map(lambda r, u=u: u * r))) for u in up]
    return {"up": up, "lo": lo, "neg": draw(st.booleans()), "form": draw(st.sampled_from(["array", "list", "tuple"])), "err": draw(st.booleans()),
            "k": draw(S.num(0.01, 90, 2))}


def bif_check(c, ev):
    from spey.backends.default_pdf.third_moment import compute_third_moments

    cast = {"array": np.array, "list": list, "tuple": tuple}[c["form"]]
    up, lo = np.array(c["up"]), np.array(c["lo"])
    want = 2 * math.sqrt(2 / math.pi) * (up - lo) * (up**2 + lo**2)
    scale = np.maximum(up, lo) ** 3
    a, b = cast(up), cast(-lo if c["neg"] else lo)
    out = compute_third_moments(a, b, return_integration_error=c["err"])
    got = out
    if c["err"]:
        require(isinstance(out, tuple) and len(out) == 2, "integration errors are not returned")
        got, err = out
        require(np.shape(err) == up.shape and np.all(np.abs(got - want) <= np.asarray(err) + 1e-7 * scale), "quoted integration errors", err=np.asarray(err).tolist())
    got = np.asarray(got, dtype=float)
    require(got.shape == up.shape, "number of third moments")
    require(np.all(np.abs(got - want) <= 1e-7 * scale), "third moment of a bifurcated Gaussian", got=got.tolist(), expected=want.tolist(), up=c["up"], lo=c["lo"])
    swap = np.asarray(compute_third_moments(cast(lo), cast(up)))
    require(np.all(np.abs(got + swap) <= 2e-7 * scale), "exchanging the sides changes the sign", got=got.tolist(), swapped=swap.tolist())
    sym = np.asarray(compute_third_moments(cast(up), cast(up)))
    require(np.all(np.abs(sym) <= 2e-7 * up**3), "symmetric uncertainties have a third moment", got=sym.tolist())
    k = c["k"]
    resc = np.asarray(compute_third_moments(cast(up * k), cast(lo * k)))
    require(np.all(np.abs(resc - k**3 * got) <= 3e-7 * scale * k**3), "scaling of third moments", k=k, got=resc.tolist(), expected=(k**3 * got).tolist())
    ev.mark(np.any(up != lo))


SUBS = [
    Sub("expansion", expansion_case, expansion_check, quick=2000, thorough=80000),
    Sub("model", model_case, model_check, quick=150, thorough=5000),
    Sub("bifurcated", bif_case, bif_check, quick=300, thorough=8000),
]

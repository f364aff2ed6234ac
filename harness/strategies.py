"""Generators of JSON-serialisable model specifications and parameter points.

A specification is a plain dict; ``models.build`` turns it into a spey model and
``reference.Ref`` into an independent reference model.  Everything is constructed inside the
documented input domain, so a failure is never an input-validation artefact.
"""
import math

import numpy as np
from hypothesis import strategies as st

KINDS_SL = ("uncorrelated", "correlated", "third", "effsig")
KINDS_SIMPLE = ("poisson", "poisson_unc", "normal", "mvn")
KINDS = KINDS_SL + KINDS_SIMPLE


def num(lo, hi, dec=3):
    """Decimal number in [lo, hi] with ``dec`` digits: shrinks well, prints well."""
    k = 10**dec
    return st.integers(math.ceil(lo * k), math.floor(hi * k)).map(lambda i: i / k)


def vec(n, lo, hi, dec=3):
    return st.lists(num(lo, hi, dec), min_size=n, max_size=n)


def corr_from(raw, n, strength):
    """Positive definite correlation matrix from raw numbers (one or two random factors)."""
    L = np.array(raw, dtype=float).reshape(n, -1)
    c = L @ L.T + np.eye(n) * (1.0 - strength + 1e-3) * max(1.0, np.trace(L @ L.T) / n)
    d = np.sqrt(np.diag(c))
    c = c / d[:, None] / d[None, :]
    c = np.round(c, 4)
    np.fill_diagonal(c, 1.0)
    return c


@st.composite
def corr_matrix(draw, n):
    if n == 1:
        return [[1.0]]
    if draw(st.integers(0, 4)) == 0:
        return np.eye(n).tolist()
    raw = draw(st.lists(num(-1, 1, 2), min_size=n * 2, max_size=n * 2))
    strength = draw(num(0.3, 0.85, 2))
    return corr_from(raw, n, strength).tolist()


@st.composite
def signal_function(draw, n, nsp=None):
    """Signal yields as a function of 1-2 extra parameters:  max-free smooth families."""
    nsp = nsp or draw(st.integers(1, 2))
    typ = draw(st.sampled_from(["linear", "quad", "exp"]))
    return {
        "type": typ,
        "nsp": nsp,
        "c0": draw(vec(n, 0.5, 8, 2)),
        "c1": [draw(vec(n, -1.0, 1.0, 2)) for _ in range(nsp)],
        "bounds": draw(
            st.sampled_from([None, [[-2.0, 2.0]] * nsp, [[None, None]] * nsp])
        ),
    }


@st.composite
def modifier_list(draw, s, negative_allowed=False):
    n = len(s)
    out = []
    for k in range(draw(st.integers(1, 3))):
        typ = draw(st.sampled_from(["normalization", "shape"]))
        asym = draw(st.booleans())
        frac = draw(vec(n, 0.0, 0.6, 2))
        up = [round(f * max(x, 0.0), 4) for f, x in zip(frac, s)]
        m = {"type": typ}
        if asym:
            frac2 = draw(vec(n, 0.0, 0.6, 2))
            m["uncertainties"] = [[u, round(f * max(x, 0.0), 4)] for u, f, x in zip(up, frac2, s)]
        else:
            m["uncertainties"] = up
        if draw(st.booleans()):
            m["name"] = f"src{k}"
        out.append(m)
    return out


def _third_ok(b, cov, m3):
    from .reference import third_moment_abc

    _, B, C, rho = third_moment_abc(np.array(b), np.array(cov), np.array(m3))
    if not np.all(np.isfinite(rho)):
        return False
    return np.linalg.eigvalsh((rho + rho.T) / 2).min() > 0.05 and np.abs(rho).max() < 1.5


@st.composite
def model(
    draw, kinds=KINDS, min_bins=1, max_bins=4, tame=False, signal_fn=False, modifiers=False,
    zero_signal=True, cov_fn=False, small_unc=False, sig=None,
):
    kind = draw(st.sampled_from(list(kinds)))
    n = draw(st.integers(min_bins, max_bins))
    b = draw(vec(n, 3, 60, 2)) if tame else draw(vec(n, 0.5, 120, 2))
    spec = {"kind": kind, "b": b}
    if signal_fn and kind != "poisson_unc" and kind != "poisson" and draw(st.integers(0, 2)) == 0:
        spec["sfun"] = draw(signal_function(n))
    else:
        if sig is not None:
            # signal as a fraction of the background: keeps best fits well inside (min, 10)
            s = [round(f * x, 4) for f, x in zip(draw(vec(n, sig[0], sig[1], 2)), b)]
        else:
            s = draw(vec(n, 0.3, 15, 2)) if tame else draw(vec(n, 0.01, 25, 2))
        if zero_signal and n > 1 and draw(st.integers(0, 3)) == 0:
            s[draw(st.integers(0, n - 1))] = 0.0
        if not any(x > 0 for x in s):
            s[0] = 1.0
        spec["s"] = s
        if modifiers and kind in KINDS_SL and draw(st.integers(0, 1)) == 0:
            spec["mods"] = draw(modifier_list(s))
    if tame:
        ratio = draw(vec(n, 0.5, 1.6, 2))
        data = [float(max(0, round(r * x))) for r, x in zip(ratio, b)]
    else:
        mode = draw(st.integers(0, 2))
        if mode == 0:
            data = [float(v) for v in draw(st.lists(st.integers(0, 150), min_size=n, max_size=n))]
        elif mode == 1:
            data = draw(vec(n, 0, 150, 2))
        else:
            data = [float(round(x)) for x in b]
    spec["data"] = data
    hi = 0.2 if small_unc else (0.35 if tame else 0.9)
    rel = draw(vec(n, 0.03, hi, 2))
    sig = [round(max(0.05, r * x), 4) for r, x in zip(rel, b)]
    if kind in ("uncorrelated", "poisson_unc", "normal"):
        spec["unc"] = sig
        if cov_fn and kind == "normal" and draw(st.integers(0, 2)) == 0:
            # sigma_i(pars) = unc_i * sqrt(1 + a * mu^2)
            spec["uncfun"] = draw(num(0.01, 0.3, 2))
    elif kind in ("correlated", "mvn", "third"):
        c = np.array(draw(corr_matrix(n)))
        cov = np.round(np.diag(sig) @ c @ np.diag(sig), 6)
        cov = np.tril(cov) + np.tril(cov, -1).T  # exactly symmetric after rounding
        spec["cov"] = cov.tolist()
        if kind == "third":
            t = draw(vec(n, -0.9, 0.9, 2))
            m3 = [round(x * math.sqrt(8.0) * cov[i, i] ** 1.5 * 0.6, 5) for i, x in enumerate(t)]
            for _ in range(12):
                if _third_ok(b, cov, m3):
                    break
                m3 = [round(x * 0.6, 5) for x in m3]
            else:
                m3 = [0.0] * n
                if not _third_ok(b, cov, m3):
                    spec["cov"] = np.diag(np.diag(cov)).tolist()
            spec["m3"] = m3
        if cov_fn and kind == "mvn" and draw(st.integers(0, 2)) == 0:
            spec["covfun"] = draw(num(0.01, 0.3, 2))
    elif kind == "effsig":
        spec["corr"] = draw(corr_matrix(n))
        asym = draw(vec(n, 0.7, 1.4, 2))
        spec["env"] = [[u, round(u * a, 4)] for u, a in zip(sig, asym)]
        signs = draw(st.sampled_from([(1, 1), (1, 1), (1, -1), (-1, -1), (-1, 1)]))  # documented: the sign is ignored
        spec["env"] = [[signs[0] * u, signs[1] * v] for u, v in spec["env"]]
    return spec


@st.composite
def point(draw, spec_strategy, wild=False, positive_rate=True):
    """(spec, parameter vector) with the parameter vector inside the physical region."""
    from .reference import Ref

    spec = draw(spec_strategy)
    ref = Ref(spec)
    mu = draw(num(-0.5, 3, 3)) if not wild else draw(num(-2, 8, 3))
    pars = [mu]
    for _ in range(ref.npar - 1):
        pars.append(draw(num(-1.5, 1.5, 3)))
    if positive_rate:
        # contract towards mu=0, theta=0 until every Poisson rate is comfortably positive
        for _ in range(60):
            lam = np.asarray(ref.rate(np.array(pars)))
            if np.all(np.isfinite(lam)) and np.all(lam > 0.02 * np.array(spec["b"])):
                break
            pars = [round(p * 0.7, 6) for p in pars]
    return {"spec": spec, "pars": pars}


@st.composite
def edge_model(draw, mods=True, floor=0):
    """Large uncertainties, few events and much signal: the fit runs into the edge where a bin has no background left."""
    n = draw(st.integers(1, 3))
    b = draw(vec(n, 1, 20, 1))
    spec = {"kind": draw(st.sampled_from(["uncorrelated", "correlated", "uncorrelated"] + (["poisson_unc"] if not floor else []))), "b": b, "s": [round(draw(num(0.1, 1.5, 2)) * x, 3) for x in b]}
    unc = [round(draw(num(0.4, 2.5, 2)) * x, 3) for x in b]
    if spec["kind"] != "correlated":
        spec["unc"] = unc
    else:
        c = np.array(draw(corr_matrix(n)))
        cov = np.round(np.diag(unc) @ c @ np.diag(unc), 6)
        spec["cov"] = (np.tril(cov) + np.tril(cov, -1).T).tolist()
    spec["data"] = [max(float(floor), float(round(draw(num(0, 1.2, 2)) * x))) for x in b]
    if mods and spec["kind"] != "poisson_unc" and draw(st.integers(0, 2)) == 0:
        spec["mods"] = draw(modifier_list(spec["s"]))
        for m in spec["mods"]:
            if draw(st.booleans()):  # a variation on one side only
                m["uncertainties"] = [[0.0, u] if not isinstance(u, list) else [0.0, u[1]] for u in m["uncertainties"]]
    return spec


def many_model(kinds=KINDS, lo=15, hi=80):
    """Compact description of a model with many bins; ``many_spec`` expands it."""
    return st.fixed_dictionaries({
        "kind": st.sampled_from(list(kinds)), "n": st.integers(lo, hi), "seed": st.integers(0, 10**6), "rel": num(0.03, 0.25, 2),
        "scale": st.sampled_from([1.0, 1.0, 30.0, 0.2]), "rho": st.sampled_from([0.0, 0.3, 0.7, -0.4]), "sig": num(0.02, 0.5, 2), "zero": st.booleans()})


def many_spec(c):
    n, r = c["n"], np.random.RandomState(c["seed"])
    b = np.round(r.uniform(10, 100, n) * c["scale"], 4)
    s = np.round(c["sig"] * b * r.uniform(0, 1, n), 4)
    if c["zero"]:
        s[r.uniform(size=n) < 0.5] = 0.0
        s[n // 2] = round(c["sig"] * b[n // 2], 4)
    unc = np.round(c["rel"] * b * r.uniform(0.5, 1, n), 6)
    spec = {"kind": c["kind"], "b": b.tolist(), "s": s.tolist(), "data": [float(x) for x in r.poisson(b + r.choice([0.0, 0.5, 1.0]) * s)]}
    corr = c["rho"] ** np.abs(np.subtract.outer(np.arange(n), np.arange(n))) if c["rho"] else np.eye(n)
    if c["kind"] in ("uncorrelated", "poisson_unc", "normal"):
        spec["unc"] = unc.tolist()
    elif c["kind"] == "effsig":
        spec["corr"] = corr.tolist()
        spec["env"] = [[float(u), round(float(u) * a, 6)] for u, a in zip(unc, r.uniform(0.8, 1.25, n))]
    elif c["kind"] in ("correlated", "mvn", "third"):
        cov = corr * np.outer(unc, unc)
        spec["cov"] = cov.tolist()
        if c["kind"] == "third":
            spec["m3"] = (np.sqrt(8.0) * unc**3 * r.uniform(-0.1, 0.1, n)).tolist()
    return spec

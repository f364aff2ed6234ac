"""P32: contour points lie on the requested likelihood level and enclose the best fit."""
import contextlib
import io
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import models as M
from harness import strategies as S
from harness.core import Sub, require, require_allclose, require_close
from harness.reference import Ref, signal_fn

PROPERTY = "P32"
RULE = (
    "gaussian: linear signals of 1-3 parameters with a (correlated) Gaussian likelihood; oracle: the analytic ellipse. level: functional signals "
    "(linear, quadratic, exponential) with Gaussian likelihoods and random bounds, levels and search settings; oracle: the reference likelihood. "
    "profiled: models with nuisance parameters or a subset of the parameters; oracle: the reference profile likelihood. "
    "cut: Gaussian likelihoods in uneven units, profiled and cut by bounds near the best fit, with walk settings; oracle: the analytic ellipse and the "
    "share of its directions inside the bounds. edge: profiling with large uncertainties where a bin runs out of background. "
    "Non-trivial: at least two parameters, or bounds that cut the region."
)
BUDGET = {"quick": 150, "thorough": 1800}
CL = st.sampled_from([0.5, 0.68, 0.8, 0.9, 0.95, 0.99])


def run(m, **kw):
    from spey.multiparameter import find_contour

    with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return find_contour(m, **kw)


def basics(r, m, k, cl, names):
    from scipy.stats import chi2

    require(r.dof == k and r.confidence_level == cl, "degrees of freedom or level of the result", dof=r.dof, cl=r.confidence_level)
    require_close(r.delta, chi2.ppf(cl, k), "chi-square quantile", rtol=1e-10)
    require_close(r.threshold, r.nll_min + r.delta / 2, "threshold is the minimum plus half the quantile", rtol=1e-12)
    P = np.asarray(r.contour_points)
    require(P.ndim == 2 and P.shape[1] == k, "shape of the contour points", shape=P.shape)
    require(np.shape(r.theta_mle) == (k,), "shape of the best fit")
    require(np.shape(r.from_radial) == (len(P),) and np.asarray(r.from_radial).dtype == bool, "one flag per contour point")
    require(np.all(np.isfinite(P)), "contour points are not finite")
    require(r.parameter_names == names, "names of the contour parameters", got=r.parameter_names, expected=names)
    return P


@st.composite
def gauss_case(draw):
    k = draw(st.integers(1, 3))
    n = draw(st.integers(k, 4))
    return {
        "k": k, "n": n, "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]], "sd": draw(S.vec(n, 1, 20, 2)),
        "c0": draw(S.vec(n, -5, 10, 2)), "J": [draw(S.vec(n, -3, 3, 2)) for _ in range(k)], "b": draw(S.vec(n, 5, 60, 1)),
        "d": draw(S.vec(n, 0, 90, 1)), "cl": draw(CL), "seed": draw(st.integers(0, 10**6)), "steps": draw(st.sampled_from([0, 1, 12, 25])),
        "chains": draw(st.integers(1, 3)), "multi": draw(st.sampled_from([1, 3])), "passes": draw(st.sampled_from([1, 2])),
    }


def gauss_check(c, ev):
    import autograd.numpy as anp

    import spey

    k, n = c["k"], c["n"]
    J = np.array(c["J"]).T
    sd = np.array(c["sd"])
    cov = np.array(c["rho"]) * np.outer(sd, sd)
    W = np.linalg.inv(cov)
    G = J.T @ W @ J
    ew = np.linalg.eigvalsh(G)
    if ew[0] < 1e-3 or ew[-1] / ew[0] > 1e4:
        ev.tag("flat")
        return
    c0, b = np.array(c["c0"]), np.array(c["b"])

    def sig(p):
        return c0 + anp.dot(J, p)

    m = spey.get_backend("default.multivariate_normal")(
        signal_yields=sig, background_yields=b, data=np.array(c["d"]), covariance_matrix=cov, n_signal_parameters=k, analysis="a",
        signal_parameter_bounds=[(None, None)] * k)
    r0 = np.array(c["d"]) - b - c0
    mle = np.linalg.solve(G, J.T @ W @ r0)
    res = r0 - J @ mle
    nmin = 0.5 * (res @ W @ res) + 0.5 * (n * math.log(2 * math.pi) + np.linalg.slogdet(cov)[1])
    kw = dict(confidence_level=c["cl"], n_radial=150, n_hmc_chains=c["chains"], n_hmc_steps=c["steps"], n_jobs=1, n_multistart=c["multi"],
              random_seed=c["seed"], n_coverage_passes=c["passes"], max_radial_bracket=60.0, n_gap_candidates=500)
    r = run(m, **kw)
    P = basics(r, m, k, c["cl"], m.backend.config().parameter_names[1:])
    require_close(r.nll_min, nmin, "minimum of the negative log-likelihood", rtol=1e-7, atol=1e-5)
    dm = r.theta_mle - mle
    require(dm @ G @ dm <= 1e-4, "best fit", got=r.theta_mle.tolist(), expected=mle.tolist())
    D = P - mle
    q = np.einsum("ij,jk,ik->i", D, G, D)
    require(len(P) > 0 and np.all(np.abs(q - r.delta) <= 1e-3 * max(1, r.delta)), "contour points are off the ellipse", worst=float(np.max(np.abs(q - r.delta))) if len(P) else None)
    rad = P[np.asarray(r.from_radial)]
    require(len(rad) >= 140, "radial directions without a crossing", got=len(rad))
    L = np.linalg.cholesky(G)
    phi = (rad - mle) @ L / math.sqrt(r.delta)  # whitened directions
    if k == 2:
        ang = np.sort(np.arctan2(phi[:, 1], phi[:, 0]))
        gap = np.max(np.append(np.diff(ang), ang[0] + 2 * math.pi - ang[-1]))
        require(gap < 1.0, "directions of the ellipse without contour points", gap=float(gap))
    else:
        for i in range(k):
            for s in (1, -1):
                require(np.max(s * phi[:, i]) > (0.999 if k == 1 else 0.75), "directions of the ellipse without contour points", axis=i, sign=s)
    # uniform in the whitened sphere
    mean = phi.mean(0)
    require(np.linalg.norm(mean) < 5.5 / math.sqrt(len(phi)), "directions are not isotropic in whitened coordinates", mean=mean.tolist())
    hmc = P[~np.asarray(r.from_radial)]
    require((len(hmc) > 0) == (k > 1), "walk points", got=len(hmc))
    r2 = run(m, **kw)
    require(np.array_equal(r2.contour_points, r.contour_points) and np.array_equal(r2.from_radial, r.from_radial) and r2.threshold == r.threshold,
            "a fixed seed does not reproduce the contour")
    if c["cl"] < 0.95:
        r3 = run(m, **{**kw, "confidence_level": 0.95})
        q3 = np.einsum("ij,jk,ik->i", r3.contour_points - mle, G, r3.contour_points - mle)
        require(q3.min() > q.max(), "larger levels enclose smaller ones")
    ev.mark(k > 1)
    ev.tag(f"k={k}")


@st.composite
def level_case(draw):
    nsp = draw(st.integers(1, 2))
    n = draw(st.integers(max(2, nsp), 4))
    spec = draw(S.model(kinds=["mvn", "normal"], min_bins=n, max_bins=n, tame=True))
    spec = {k: v for k, v in spec.items() if k not in ("s", "mods")}
    spec["sfun"] = draw(S.signal_function(n, nsp))
    bnd = None
    if draw(st.booleans()):
        bnd = []
        for _ in range(nsp):
            lo = draw(st.one_of(st.none(), S.num(-4, 2, 1)))
            w = draw(st.one_of(st.none(), S.num(0.2, 6, 1)))
            bnd.append([lo, None if w is None else round((lo if lo is not None else 0) + w, 2)])
    return {"spec": spec, "bounds": bnd, "cl": draw(CL), "seed": draw(st.integers(0, 10**6)), "radial": draw(st.integers(1, 30)),
            "steps": draw(st.integers(0, 15)), "step": draw(st.sampled_from([0.05, 0.05, 0.3, 2.0])), "chains": draw(st.integers(1, 3)),
            "multi": draw(st.sampled_from([1, 2, 6])), "bracket": draw(st.sampled_from([30.0, 5.0])), "poi": draw(st.booleans())}


def inside(P, bounds):
    for i, (lo, hi) in enumerate(bounds):
        require(lo is None or np.all(P[:, i] >= lo - 1e-7 * (1 + abs(lo))), "contour points below the lower bound", i=i, lo=lo, got=float(P[:, i].min()) if len(P) else None)
        require(hi is None or np.all(P[:, i] <= hi + 1e-7 * (1 + abs(hi))), "contour points above the upper bound", i=i, hi=hi, got=float(P[:, i].max()) if len(P) else None)


def level_check(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    k = ref.nsp
    m = M.build(spec)
    cfg = m.backend.config()
    kw = dict(confidence_level=c["cl"], n_radial=c["radial"], n_hmc_chains=c["chains"], n_hmc_steps=c["steps"], n_jobs=1, n_multistart=c["multi"],
              random_seed=c["seed"], max_radial_bracket=c["bracket"], n_gap_candidates=100, hmc_step_size=c["step"])
    bounds = c["bounds"]
    if bounds is not None:
        kw["bounds"] = [tuple(b) for b in bounds]
    if c["poi"]:
        kw["poi_indices"] = list(range(k + 1))  # the signal strength is always excluded
    r = run(m, **kw)
    P = basics(r, m, k, c["cl"], cfg.parameter_names[1:])
    eff = bounds if bounds is not None else [list(b) for b in cfg.suggested_bounds[1:]]
    eff = [[None if x is None or not np.isfinite(x) else x for x in b] for b in eff]
    inside(P, eff)
    inside(np.atleast_2d(r.theta_mle), eff)

    def nll(p):
        return float(ref.nll(np.concatenate([[1.0], p])))

    require_close(nll(r.theta_mle), r.nll_min, "the minimum belongs to the best fit", rtol=1e-9, atol=1e-6)
    for p in P:
        v = nll(p)
        require(abs(v - r.threshold) <= 1e-5 * max(1, abs(r.threshold)), "contour point off the level", point=p.tolist(), nll=v, threshold=r.threshold)
    # nothing in the search region is better than the reported minimum for convex cases
    if spec["sfun"]["type"] == "linear":
        rng = np.random.default_rng(c["seed"])
        for _ in range(20):
            p = r.theta_mle + rng.normal(size=k) * 10 ** rng.uniform(-2, 1)
            for i, (lo, hi) in enumerate(eff):
                p[i] = np.clip(p[i], -np.inf if lo is None else lo, np.inf if hi is None else hi)
            require(nll(p) >= r.nll_min - 2e-2 - 1e-4 * abs(r.nll_min), "a better point than the reported best fit", point=p.tolist(), nll=nll(p), nll_min=r.nll_min)
    ev.mark(len(P) > 0 and (k > 1 or bounds is not None))
    ev.tag(spec["sfun"]["type"], "bounds" if bounds is not None else "no-bounds", "points" if len(P) else "none", f"hmc-{min(1, int((~np.asarray(r.from_radial)).sum()))}")


@st.composite
def prof_case(draw):
    kind = draw(st.sampled_from(["mvn", "normal", "uncorrelated", "correlated"]))
    n = draw(st.integers(2, 3))
    spec = draw(S.model(kinds=[kind], min_bins=n, max_bins=n, tame=True))
    spec = {k: v for k, v in spec.items() if k not in ("s", "mods")}
    sf = draw(S.signal_function(n, 2))
    sf["type"] = draw(st.sampled_from(["linear", "exp"]))
    sf["bounds"] = draw(st.sampled_from([[[-2.0, 2.0]] * 2, [[-4.0, 3.0]] * 2, [[-4.0, 3.0], [-0.5, 6.0]], [[0.9, 1.4], [-5.0, 3.0]], [[-6.0, 1.5], [0.4, 2.5]]]))
    spec["sfun"] = sf
    return {"spec": spec, "poi": draw(st.sampled_from([[1], [2], [0, 2], [2, 1] if kind in ("uncorrelated", "correlated") else [1]])),
            "cl": draw(CL), "seed": draw(st.integers(0, 10**6)), "radial": draw(st.integers(2, 4)), "steps": draw(st.integers(0, 2))}


def prof_check(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    m = M.build(spec)
    idx = sorted(i for i in c["poi"] if i != 0)
    k = len(idx)
    r = run(m, poi_indices=c["poi"], confidence_level=c["cl"], n_radial=c["radial"], n_hmc_chains=1, n_hmc_steps=c["steps"], n_jobs=1, n_multistart=2,
            random_seed=c["seed"], n_coverage_passes=1, n_gap_candidates=50)
    P = basics(r, m, k, c["cl"], [m.backend.config().parameter_names[i] for i in idx])
    eff = [spec["sfun"]["bounds"][i - 1] for i in idx]
    inside(P, eff)
    # full-space optimum with the signal strength at one
    best, x = ref.minimise(fixed={0: 1.0})
    if x is None:
        ev.tag("no-reference")
        return
    convex = spec["sfun"]["type"] == "linear"
    for _ in range(4):  # narrow valleys: continue the reference search from its own result
        again, y = ref.minimise(fixed={0: 1.0}, starts=[x])
        if y is None or not again < best - 1e-7:
            break
        best, x = again, y
    if convex:
        require(r.nll_min <= best + 2e-4 + 1e-6 * abs(best), "the minimum is above the best fit", got=r.nll_min, want=best)
        require(r.nll_min >= best - 2e-3, "the minimum is below the best fit", got=r.nll_min, want=best)
    seen = 0
    for p in P:
        fixed = {0: 1.0, **{i: float(v) for i, v in zip(idx, p)}}
        v, y = ref.minimise(fixed=fixed, starts=[x])
        if y is None:
            continue
        seen += 1
        # the profiled likelihood cannot be below the reference optimum, and has to reach it in convex problems
        require(v - r.threshold <= 1e-3, "contour point outside the level of the profile likelihood", point=p.tolist(), nll=v, threshold=r.threshold)
        if convex:
            require(v - r.threshold >= -1e-3, "contour point inside the level of the profile likelihood", point=p.tolist(), nll=v, threshold=r.threshold)
    ev.mark(seen > 0)
    ev.tag(spec["kind"], f"k={k}", "points" if len(P) else "none")


@st.composite
def bad_case(draw):
    return {"what": draw(st.sampled_from(["cl", "names", "bounds", "nopar", "jobs"])), "cl": draw(st.sampled_from([0.0, 1.0, -0.2, 1.5, 95.0])),
            "nb": draw(st.sampled_from([0, 1, 3])), "seed": draw(st.integers(0, 1000))}


def bad_check(c, ev):
    import spey

    def sig(p):
        return np.array([1.0, 2.0, 3.0]) * (1 + 0.5 * p[0]) + np.array([1.0, 0.0, -0.5]) * p[1]

    m = spey.get_backend("default.normal")(signal_yields=sig, background_yields=[10.0, 12.0, 9.0], data=[12.0, 13.0, 8.0],
                                           absolute_uncertainties=[1.0, 2.0, 1.5], n_signal_parameters=2)
    if c["what"] == "cl":
        err = None
        try:
            run(m, confidence_level=c["cl"], n_radial=3, n_hmc_steps=1, n_jobs=1)
        except ValueError as e:
            err = e
        require(err is not None, "levels outside (0, 1) are rejected", cl=c["cl"])
    elif c["what"] == "bounds":
        err = None
        try:
            run(m, bounds=[(None, None)] * c["nb"], n_radial=3, n_hmc_steps=1, n_jobs=1)
        except ValueError as e:
            err = e
        require(err is not None, "bounds of the wrong length are rejected", nb=c["nb"])
    elif c["what"] == "nopar":
        p = spey.get_backend("default.poisson")(signal_yields=[1.0], background_yields=[3.0], data=[4])
        err = None
        try:
            run(p, n_radial=3, n_jobs=1)
        except ValueError as e:
            err = e
        require(err is not None, "models without further parameters are rejected")
    elif c["what"] == "jobs":
        kw = dict(n_radial=4, n_hmc_chains=2, n_hmc_steps=3, n_multistart=1, random_seed=c["seed"], n_gap_candidates=20)
        a, b = run(m, n_jobs=1, **kw), run(m, n_jobs=-3, **kw)
        require(np.array_equal(a.contour_points, b.contour_points), "number of jobs below one")
    else:
        r = run(m, poi_indices=[2, 1], n_radial=3, n_hmc_chains=1, n_hmc_steps=1, n_jobs=1, n_multistart=1)
        require(r.parameter_names == m.backend.config().parameter_names[1:], "names follow the columns", got=r.parameter_names)
    ev.mark(True)
    ev.tag(c["what"])


@st.composite
def split_case(draw):
    return {"a": draw(S.num(0.5, 4, 2)), "b": draw(S.num(5, 60, 1)), "sd": draw(S.num(0.5, 6, 2)), "t": draw(S.num(0.1, 0.9, 2)), "cl": draw(CL),
            "seed": draw(st.integers(0, 10**6)), "off": draw(S.num(-1, 1, 2))}


def split_check(c, ev):
    """Two disjoint regions around p = off +- p0: every crossing is mapped."""
    import spey
    from scipy.stats import chi2

    w = c["sd"] * math.sqrt(chi2.ppf(c["cl"], 1))  # half width of the region in a (p - off)^2
    peak = w / c["t"]
    p0 = math.sqrt(peak / c["a"])

    def sig(p):
        return np.array([1.0]) * c["a"] * (p[0] - c["off"]) ** 2

    reach = 2 * p0 + 2
    m = spey.get_backend("default.normal")(signal_yields=sig, background_yields=[c["b"]], data=[c["b"] + peak], absolute_uncertainties=[c["sd"]],
                                           n_signal_parameters=1, signal_parameter_bounds=[(-reach, reach)])
    r = run(m, confidence_level=c["cl"], n_radial=40, n_jobs=1, random_seed=c["seed"])
    P = basics(r, m, 1, c["cl"], m.backend.config().parameter_names[1:])[:, 0]
    want = [c["off"] + s * math.sqrt((peak + e * w) / c["a"]) for s in (1, -1) for e in (1, -1)]
    for x in want:
        require(np.min(np.abs(P - x)) <= 1e-3 * p0, "a part of the contour is missing", missing=x, got=sorted(set(np.round(P, 4).tolist())))
    for p in P:
        require(min(abs(p - x) for x in want) <= 1e-3 * p0, "a point is not on the contour", point=float(p), expected=want)
    ev.mark(True)


@st.composite
def uneven_case(draw):
    return {"a": draw(S.num(0.5, 4, 2)), "sd": draw(S.num(0.5, 3, 2)), "t": draw(S.num(0.1, 0.5, 2)), "cl": draw(CL), "seed": draw(st.integers(0, 10**6)),
            "off": draw(S.num(-1, 1, 2)), "side": draw(st.sampled_from([1.0, -1.0])), "pull": draw(S.num(0.2, 4, 2))}


def uneven_check(c, ev):
    """Two minima of different depth: the level is measured from the deeper one, wherever the first fit ended."""
    import spey
    from scipy.optimize import brentq, minimize_scalar
    from scipy.stats import chi2

    delta = chi2.ppf(c["cl"], 1)
    w = c["sd"] * math.sqrt(delta)
    peak = w / c["t"]
    p0 = math.sqrt(peak / c["a"])
    slope = 0.5 * c["pull"] / p0  # the second bin prefers one side: 'pull' standard deviations between the sides

    def sig(p):
        return np.array([1.0, 0.0]) * c["a"] * (p[0] - c["off"]) ** 2 + np.array([0.0, 1.0]) * slope * (p[0] - c["off"])

    want2 = c["side"] * slope * p0
    reach = 2 * p0 + 2
    b = [20.0, 20.0]
    m = spey.get_backend("default.normal")(signal_yields=sig, background_yields=b, data=[b[0] + peak, b[1] + want2], absolute_uncertainties=[c["sd"], 1.0],
                                           n_signal_parameters=1, signal_parameter_bounds=[(-reach, reach)])

    def nll(p):
        u = p - c["off"]
        return 0.5 * ((c["a"] * u * u - peak) / c["sd"]) ** 2 + 0.5 * (slope * u - want2) ** 2 + 0.5 * math.log(2 * math.pi) * 2 + math.log(c["sd"])

    xs = np.linspace(-reach, reach, 8001)
    v = np.array([nll(x) for x in xs])
    lows = [i for i in range(1, 8000) if v[i] <= v[i - 1] and v[i] < v[i + 1]]
    mins = sorted((float(r.fun), float(r.x)) for r in (minimize_scalar(nll, bounds=(xs[i - 1], xs[i + 1]), method="bounded", options={"xatol": 1e-12}) for i in lows))
    best, where = mins[0]
    g = v - best - delta / 2
    if len(mins) < 2 or any(abs(n - best - delta / 2) < 0.02 for n, _ in mins) or min(-g[0], -g[-1]) > 0:
        ev.tag("one-minimum")
        return
    want = [brentq(lambda x: nll(x) - best - delta / 2, xs[i], xs[i + 1], xtol=1e-13) for i in np.nonzero(g[:-1] * g[1:] < 0)[0]]
    r = run(m, confidence_level=c["cl"], n_radial=40, n_jobs=1, random_seed=c["seed"], n_multistart=40)
    require_close(r.nll_min, best, "minimum over all basins", rtol=1e-7, atol=1e-5)
    if abs(mins[1][0] - best) > 1e-3:
        require(abs(r.theta_mle[0] - where) <= 1e-3 * p0, "best fit of the deeper minimum", got=float(r.theta_mle[0]), want=where, minima=mins)
    P = basics(r, m, 1, c["cl"], m.backend.config().parameter_names[1:])[:, 0]
    for x in want:
        require(np.min(np.abs(P - x)) <= 1e-3 * p0, "a part of the contour is missing", missing=x, got=sorted(set(np.round(P, 4).tolist())))
    for p in P:
        require(min(abs(p - x) for x in want) <= 1e-3 * p0, "a point is not on the contour", point=float(p), expected=want)
    ev.tag(f"{len(want)}-crossings", "wrong-start" if (1.0 - c["off"]) * (where - c["off"]) < 0 else "right-start")
    ev.mark()


@st.composite
def cut_case(draw):
    k, kp = draw(st.integers(1, 2)), draw(st.sampled_from([0, 0, 1]))
    m = k + kp
    unit = draw(st.sampled_from([1.0, 1.0, 1e-2]))
    n = draw(st.integers(m, 4))
    end = st.one_of(st.none(), S.num(0.1, 3, 2), S.num(2, 6, 1))
    return {"k": k, "n": n, "m": m, "order": draw(st.permutations(range(m))), "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]], "sd": draw(S.vec(n, 1, 20, 2)),
            "c0": draw(S.vec(n, -5, 10, 2)), "J": [draw(S.vec(n, -3, 3, 2)) for _ in range(m)], "b": draw(S.vec(n, 5, 60, 1)), "d": draw(S.vec(n, 0, 90, 1)),
            "scale": [unit * draw(st.sampled_from([0.1, 0.3, 1.0, 1.0, 4.0, 15.0])) for _ in range(m)], "ends": [[draw(end), draw(end)] for _ in range(m)],
            "arg": draw(st.booleans()), "cl": draw(CL), "seed": draw(st.integers(0, 10**6)), "steps": draw(st.sampled_from([0, 5, 20, 12])),
            "newton": draw(st.sampled_from([[1e-9, 100], [1e-9, 100], [1e-4, 3], [1e-9, 1], [1e-7, 2]])), "step": draw(st.sampled_from([0.05, 0.05, 0.3, 1.0])),
            "reach": draw(st.sampled_from([60.0, 30.0])), "multi": draw(st.sampled_from([1, 1, 2]))}


def cut_check(c, ev):
    """Gaussian likelihoods of parameters with very different units, profiled over some and cut by bounds."""
    import autograd.numpy as anp

    import spey

    k, m, n = c["k"], c["m"], c["n"]
    sd, sc = np.array(c["sd"]), np.array(c["scale"])
    cov = np.array(c["rho"]) * np.outer(sd, sd)
    W = np.linalg.inv(cov)
    J = np.array(c["J"]).T / sc
    G = J.T @ W @ J
    Gu = G * np.outer(sc, sc)
    ew = np.linalg.eigvalsh(Gu)
    if ew[0] < 1e-2 or ew[-1] / ew[0] > 1e3:
        ev.tag("flat")
        return
    c0, b = np.array(c["c0"]), np.array(c["b"])
    r0 = np.array(c["d"]) - b - c0
    mle = np.linalg.solve(G, J.T @ W @ r0)
    C = np.linalg.inv(G)
    sig = np.sqrt(np.diag(C))
    ci = sorted(c["order"][:k])  # columns of the contour, the others are profiled
    bounds = []
    for j in range(m):
        lo, hi = c["ends"][j] if j in ci else (None, None)
        wide = 40.0 if j in ci else 200.0
        far = abs(mle[j]) + wide * sig[j] + 2
        bounds.append((mle[j] - lo * sig[j] if lo is not None else (None if j % 2 else -far), mle[j] + hi * sig[j] if hi is not None else (None if j % 2 == 0 else far)))
    start_ok = all((lo is None or lo < 1.0) and (hi is None or hi > 1.0) for lo, hi in bounds)

    def fn(p):
        return c0 + anp.dot(J, p)

    by_arg = c["arg"]
    mod = spey.get_backend("default.multivariate_normal")(signal_yields=fn, background_yields=b, data=np.array(c["d"]), covariance_matrix=cov,
                                                          n_signal_parameters=m, analysis="a",
                                                          signal_parameter_bounds=[(None, None)] * m if by_arg else bounds)
    kw = dict(confidence_level=c["cl"], n_radial=60, n_hmc_chains=2, n_hmc_steps=c["steps"], n_jobs=1, n_multistart=c["multi"], random_seed=c["seed"],
              n_coverage_passes=1, max_radial_bracket=c["reach"], n_gap_candidates=200, newton_tol=c["newton"][0], newton_max_iter=c["newton"][1],
              hmc_step_size=c["step"] * float(np.min(sig[ci])))
    if by_arg:
        kw["bounds"] = [bounds[j] for j in ci]
    if len(ci) < m:
        kw["poi_indices"] = [j + 1 for j in ci]
    r = run(mod, **kw)
    P = basics(r, mod, k, c["cl"], [mod.backend.config().parameter_names[j + 1] for j in ci])
    res = r0 - J @ mle
    nmin = 0.5 * (res @ W @ res) + 0.5 * (n * math.log(2 * math.pi) + np.linalg.slogdet(cov)[1])
    require_close(r.nll_min, nmin, "minimum of the negative log-likelihood", rtol=1e-6, atol=0.05)  # units differ by up to 150, not a test of the minimiser
    off = 2 * (r.nll_min - nmin)
    Ge = np.linalg.inv(C[np.ix_(ci, ci)])
    inside(P, [bounds[j] for j in ci])
    D = P - mle[ci]
    q = np.einsum("ij,jk,ik->i", D, Ge, D)
    tol = 2e-3 * max(1, r.delta) + 2e-3
    require(np.all(np.abs(q - r.delta - off) <= tol), "contour points are off the ellipse",
            worst=float(np.max(np.abs(q - r.delta - off))) if len(P) else None, case=c)
    fr = np.asarray(r.from_radial)
    if m == k and not len(fr) == 0:
        # walk points obey the same tolerance as documented for the projection
        require(np.all(np.abs(q[~fr] - r.delta - off) <= 2 * max(c["newton"][0], 1e-6) + 1e-5 + 1e-8 * abs(nmin)), "walk points are off the ellipse",
                worst=float(np.max(np.abs(q[~fr] - r.delta - off))) if (~fr).any() else None, newton=c["newton"])
    # share of the directions whose crossing lies inside the bounds
    L = np.linalg.cholesky(Ge)
    M_ = np.linalg.inv(L).T
    if k == 1:
        dirs = np.array([[1.0], [-1.0]])
    else:
        t = np.linspace(0, 2 * math.pi, 20001)[:-1]
        dirs = np.stack([np.cos(t), np.sin(t)], 1)
    E = mle[ci] + math.sqrt(r.delta + off) * dirs @ M_.T
    ok = np.ones(len(E), bool)
    for i, j in enumerate(ci):
        lo, hi = bounds[j]
        ok &= (E[:, i] > -np.inf if lo is None else E[:, i] > lo) & (E[:, i] < np.inf if hi is None else E[:, i] < hi)
    f = float(ok.mean())
    got = int(fr.sum())
    near = k == 1 and any(x is not None and min(abs(E[:, i] - x)) < 3e-3 * sig[j] for i, j in enumerate(ci) for x in bounds[j])
    if not near and c["multi"] == 1:  # a minimum in large units can be found (and mapped) twice
        slack = 5.5 * math.sqrt(60 * f * (1 - f)) + 1.5 if 0 < f < 1 else 0.5
        require(abs(got - 60 * f) <= slack, "share of the directions with a crossing inside the bounds", got=got, want=60 * f, case=c)
    phi = (P[fr] - mle[ci]) @ L / math.sqrt(r.delta)
    if k == 2 and f == 1:
        ev2 = np.linalg.eigvalsh(phi.T @ phi / len(phi))
        require(ev2[0] > 0.5 - 0.26, "directions are not isotropic in whitened coordinates", eigenvalues=ev2.tolist())
    if k == 1 and f > 0 and not near:
        for x in E[ok][:, 0]:
            require(np.min(np.abs(P[:, 0] - x)) <= 2e-3 * sig[ci[0]] * math.sqrt(r.delta), "a crossing inside the bounds is missing", missing=x)
    if k == 2 and f > 0.2 and c["steps"] and c["newton"][1] == 100:
        require((~fr).any(), "no walk points", got=len(P))
        F = mle[ci] + 1.02 * (E - mle[ci])
        clear = all((lo is None or F[:, i].min() > lo) and (hi is None or F[:, i].max() < hi) for i, (lo, hi) in enumerate(bounds[j] for j in ci))
        if clear and c["step"] == 0.05 and c["multi"] == 1:
            require((~fr).sum() == 2 * (c["steps"] + 1), "walks that stop on a smooth contour", got=int((~fr).sum()), steps=c["steps"])
            ev.tag("full-walks")
    ev.tag(f"k{k}m{m}", "cut" if f < 1 else "whole", "units" if max(c["scale"]) / min(c["scale"]) > 5 else "even", "start-inside" if start_ok else "start-outside")
    ev.mark(f < 1 or m > k)


@st.composite
def edge_case(draw):
    spec = draw(S.edge_model(mods=False, floor=1))
    n = len(spec["b"])
    s = spec.pop("s")
    k = draw(st.integers(1, 2))
    c1 = [[round(draw(S.num(-0.25, 0.25, 2)) * x, 3) for x in s] for _ in range(k)]
    if all(x == 0 for v in c1 for x in v):
        c1[0][0] = round(0.25 * s[0], 3)
    spec["sfun"] = {"type": "linear", "nsp": k, "c0": s, "c1": c1, "bounds": [[-2.0, 2.0], [-1.0, 1.5]][:k]}
    return {"spec": spec, "poi": draw(st.sampled_from([[1], [1], [k]])), "cl": draw(st.sampled_from([0.1, 0.3, 0.5, 0.68])), "seed": draw(st.integers(0, 10**6)), "n": n}


def edge_check(c, ev):
    """Profiling runs into the edge where a bin has no background left."""
    spec = c["spec"]
    ref = Ref(spec)
    m = M.build(spec)
    idx = c["poi"]
    r = run(m, poi_indices=idx, confidence_level=c["cl"], n_radial=6, n_hmc_chains=1, n_hmc_steps=1, n_jobs=1, n_multistart=1,
            random_seed=c["seed"], n_coverage_passes=1, n_gap_candidates=20)
    P = basics(r, m, 1, c["cl"], [m.backend.config().parameter_names[i] for i in idx])
    inside(P, [spec["sfun"]["bounds"][i - 1] for i in idx])
    best, x = ref.minimise(fixed={0: 1.0})
    if x is None:
        ev.tag("no-reference")
        return
    edge = float(np.min(ref.background(x))) < 1e-3 * max(spec["b"])
    require(r.nll_min >= best - 2e-3, "the reported minimum is below the smallest allowed one", got=r.nll_min, want=best, case=c)
    for p in np.unique(np.round(P, 9), axis=0)[:4]:
        v, y = ref.minimise(fixed={0: 1.0, idx[0]: float(p[0])}, starts=[x])
        if y is None:
            continue
        edge = edge or float(np.min(ref.background(y))) < 1e-3 * max(spec["b"])
        require(abs(v - r.threshold) <= 5e-3, "contour point off the level of the profile likelihood", point=p.tolist(), nll=v, threshold=r.threshold)
    ev.tag(spec["kind"], "edge" if edge else "inside", "points" if len(P) else "none")
    ev.mark(edge and len(P) > 0)


SUBS = [
    Sub("cut", cut_case, cut_check, quick=250, thorough=6000),
    Sub("edge", edge_case, edge_check, quick=60, thorough=1500),
    Sub("uneven", uneven_case, uneven_check, quick=60, thorough=2000),
    Sub("gaussian", gauss_case, gauss_check, quick=150, thorough=2500),
    Sub("level", level_case, level_check, quick=400, thorough=5000),
    Sub("profiled", prof_case, prof_check, quick=80, thorough=1000),
    Sub("disjoint", split_case, split_check, quick=60, thorough=2000),
    Sub("arguments", bad_case, bad_check, quick=20, thorough=200),
]

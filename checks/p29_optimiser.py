"""P29: the optimiser respects pins, bounds and constraints and reports truthfully."""
import itertools
import logging
import os

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require

PROPERTY = "P29"
RULE = (
    "convex: a convex objective (general quadratic of dimension 1-5, separable quartic), bounds with open sides, start values inside or "
    "outside of them, any subset of pinned parameters (number, dictionary, suggested_fixed), an optional linear inequality, an engine, "
    "method and options; the exact minimum comes from enumerating the active sets. Non-trivial: a parameter is pinned and a bound or the "
    "inequality is active, or the unconstrained minimum is not admissible. retry: few iterations and several trials. engine: choice of the engine."
)
BUDGET = {"quick": 150, "thorough": 2400}
SCIPY = ["SLSQP", "SLSQP", "SLSQP", "L-BFGS-B", "TNC", "Nelder-Mead", "Powell", "trust-constr"]


@st.composite
def objective(draw, nmax=5):
    n = draw(st.integers(1, nmax))
    kind = draw(st.sampled_from(["quad", "quad", "quartic"]))
    out = {"n": n, "kind": kind, "c": draw(S.vec(n, -4, 4, 2)), "k": draw(S.num(-20, 20, 1))}
    out["w"] = [draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0, 9.0])) for _ in range(n)]
    if kind == "quad":
        out["corr"] = draw(S.corr_matrix(n)) if n > 1 else [[1.0]]
    return out


def fns(o):
    c, w = np.array(o["c"]), np.array(o["w"])
    if o["kind"] == "quad":
        a = np.sqrt(np.outer(w, w)) * np.array(o["corr"])
        return (lambda x: float(0.5 * (x - c) @ a @ (x - c) + o["k"])), (lambda x: a @ (x - c)), (lambda x: a), a
    return ((lambda x: float(np.sum(0.5 * w * (x - c) ** 2 + 0.05 * (x - c) ** 4) + o["k"])), (lambda x: w * (x - c) + 0.2 * (x - c) ** 3),
            (lambda x: np.diag(w + 0.6 * (x - c) ** 2)), None)


def exact(o, lo, hi, pins, lin=None):
    """Minimum over the box with pinned parameters and an optional a.x + b >= 0, by enumerating active sets."""
    f, _, _, a = fns(o)
    c, n = np.array(o["c"]), o["n"]
    if o["kind"] == "quartic":
        x = np.clip(c, lo, hi)
        for i, v in pins.items():
            x[i] = v
        return f(x), x
    free = [i for i in range(n) if i not in pins]
    best = None
    for act in itertools.product((0, 1, 2), repeat=len(free)):
        fixed = dict(pins)
        ok = True
        for i, s in zip(free, act):
            if s:
                v = (lo if s == 1 else hi)[i]
                if not np.isfinite(v):
                    ok = False
                    break
                fixed[i] = v
        if not ok:
            continue
        rest = [i for i in range(n) if i not in fixed]
        for use in ((False, True) if lin is not None else (False,)):
            x = np.zeros(n)
            for i, v in fixed.items():
                x[i] = v
            d = x - c
            m = len(rest)
            if m:
                fx = [i for i in range(n) if i in fixed]
                rhs = -a[np.ix_(rest, fx)] @ d[fx] if fx else np.zeros(m)
                kk = a[np.ix_(rest, rest)]
                if use:
                    al = np.array(lin[0])
                    if not np.any(al[rest]):
                        continue
                    big = np.block([[kk, al[rest][:, None]], [al[rest][None, :], np.zeros((1, 1))]])
                    r = np.append(rhs, -lin[1] - al[fx] @ x[fx] - al[rest] @ c[rest])
                    sol = np.linalg.solve(big, r)[:m]
                else:
                    sol = np.linalg.solve(kk, rhs)
                x[rest] = c[rest] + sol
            elif use:
                continue
            if np.any(x[free] < np.array(lo)[free] - 1e-9) or np.any(x[free] > np.array(hi)[free] + 1e-9):
                continue
            if lin is not None and np.dot(lin[0], x) + lin[1] < -1e-9:
                continue
            v = f(x)
            if best is None or v < best[0]:
                best = (v, x)
    return best


@st.composite
def setting(draw, nmax=5):
    o = draw(objective(nmax))
    n = o["n"]
    bounds = []
    for _ in range(n):
        b = [draw(st.one_of(st.none(), S.num(-5, 2, 2))), None]
        width = draw(st.one_of(st.none(), S.num(0.5, 8, 2)))
        if width is not None:
            b[1] = round((b[0] if b[0] is not None else draw(S.num(-5, 2, 2))) + width, 4)
        bounds.append(b)
    return {
        "o": o, "bounds": bounds, "poi": draw(st.integers(0, n - 1)),
        "start": draw(S.vec(n, -3, 3, 1)), "inside": draw(st.integers(0, 3)) > 0,
        "pins": [[i, draw(st.one_of(S.num(-4, 4, 2), S.num(-4, 4, 9)))] for i in range(n) if draw(st.integers(0, 2)) == 0],
        "how": draw(st.sampled_from(["dict", "dict", "poi", "suggested", "mixed", "npdict", "none"])),
        "given": draw(st.sampled_from(["explicit", "explicit", "config", "numpy", "nobounds"])),
        "init": draw(st.sampled_from(["list", "array", "tuple", "config"])),
        "grad": draw(st.booleans()), "hess": draw(st.integers(0, 3)) == 0, "logpdf": draw(st.booleans()),
    }


@st.composite
def convex_case(draw):
    c = draw(setting())
    engine = draw(st.sampled_from(["scipy", "scipy", "scipy", "minuit", "minuit"]))
    c["engine"] = engine
    c["opts"] = {"minimizer": engine}
    if engine == "scipy":
        m = draw(st.sampled_from(SCIPY))
        if m != "SLSQP" or draw(st.booleans()):
            c["opts"]["method"] = m
        if m not in ("SLSQP", "trust-constr"):
            c["inside"] = True  # scipy itself rejects some start values outside of the bounds for these
        if draw(st.booleans()):
            c["opts"]["ntrials"] = draw(st.integers(1, 3))
    elif draw(st.booleans()):
        c["opts"].update(draw(st.sampled_from([{"method": "migrad"}, {"method": "simplex"}, {"strategy": 1}, {"strategy": 2}, {"errordef": 0.5}, {"errordef": 1.0}])))
    if draw(st.integers(0, 3)) == 0:
        c["opts"].update(draw(st.sampled_from([{"unknown_option": 3}, {"verbose": True, "foo": None}, {"maxiter": 5000}, {"tol": 1e-8}])))
    c["lin"] = None
    if engine == "scipy" and c["opts"].get("method", "SLSQP") in ("SLSQP", "trust-constr") and c["o"]["kind"] == "quad" and draw(st.booleans()):
        c["lin"] = [draw(S.vec(c["o"]["n"], -1, 2, 1)), draw(S.num(-2, 6, 1))]
    return c


def prepare(c):
    """(config, pins, lower, upper, bounds argument, fixed argument, start) of a setting."""
    from spey.base.model_config import ModelConfig

    o, n = c["o"], c["o"]["n"]
    bounds = [tuple(b) for b in c["bounds"]]
    pins = {int(i): float(v) for i, v in c["pins"]}
    how = c["how"]
    start = [float(v) for v in c["start"]]
    if c["inside"]:
        start = [float(np.clip(v, -np.inf if b[0] is None else b[0], np.inf if b[1] is None else b[1])) for v, b in zip(start, bounds)]
    if how == "poi":
        pins = {c["poi"]: dict(pins).get(c["poi"], float(c["start"][c["poi"]]))}
    elif how == "none":
        pins = {}
    suggested = None
    if how == "suggested":
        suggested = [i in pins for i in range(n)]
        for i, v in pins.items():
            start[i] = v
    rest = {}
    if how == "mixed":  # one pin by the caller, the others by the configuration
        keep = c["poi"] if c["poi"] in pins else min(pins, default=None)
        rest = {i: v for i, v in pins.items() if i != keep}
        suggested = [i in rest for i in range(n)]
        for i, v in rest.items():
            start[i] = v
    if c["given"] == "nobounds":
        bounds = [(None, None)] * n
    cfgb = [tuple(b) for b in bounds] if c["given"] in ("config", "nobounds") else [(-3.0, 3.0)] * n
    cfg = ModelConfig(poi_index=c["poi"], minimum_poi=-np.inf, suggested_init=list(start) if c["init"] == "config" else [0.1] * n,
                      suggested_bounds=cfgb, suggested_fixed=suggested)
    lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds], dtype=float)
    hi = np.array([np.inf if b[1] is None else b[1] for b in bounds], dtype=float)
    fixed = None
    if how == "poi":
        fixed = pins[c["poi"]]
    elif how == "dict" and pins:
        fixed = dict(pins)
    elif how == "mixed" and pins:
        fixed = {i: v for i, v in pins.items() if i not in rest}
        if set(fixed) == {c["poi"]} and c["hess"]:
            fixed = fixed[c["poi"]]
    elif how == "npdict" and pins:
        fixed = {np.int64(i): np.float64(v) for i, v in pins.items()}
    arg = None
    if c["given"] == "explicit":
        arg = list(bounds)
    elif c["given"] == "numpy":
        arg = [list(b) for b in bounds]
    init = {"list": list(start), "array": np.array(start), "tuple": tuple(start), "config": None}[c["init"]]
    return cfg, pins, lo, hi, arg, fixed, init, np.array(start)


class Quiet:
    def __enter__(self):
        self.lg = logging.getLogger("Spey")
        self.state = (list(self.lg.handlers), self.lg.level)
        self.got = []
        h = logging.Handler()
        h.emit = lambda r: self.got.append((r.levelno, r.getMessage()))
        self.lg.handlers[:] = [h]
        self.lg.setLevel(10)
        return self

    def __exit__(self, *exc):
        self.lg.handlers[:] = self.state[0]
        self.lg.setLevel(self.state[1])
        return False


def frozen(x):
    """Comparable copy of the caller's containers."""
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, dict):
        return ("dict", [(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    return x if not callable(x) else id(x)


def cfg_state(cfg):
    return frozen([cfg.poi_index, cfg.minimum_poi, list(cfg.suggested_init), list(cfg.suggested_bounds), cfg.suggested_fixed])


def convex_check(c, ev):
    from spey.optimizer.core import fit

    o = c["o"]
    f, g, h, _ = fns(o)
    cfg, pins, lo, hi, bounds, fixed, init, start = prepare(c)
    lin = c["lin"]
    constraints = None
    if lin is not None:
        al = np.array(lin[0])
        constraints = [{"type": "ineq", "fun": lambda x: float(np.dot(al, x) + lin[1]), "jac": lambda x: al}]
    blo, bhi = lo.copy(), hi.copy()
    best = exact(o, blo, bhi, pins, lin)
    if best is None:
        ev.tag("infeasible")
        return
    if lin is not None:  # keep away from sets without interior, where feasibility itself is a matter of tolerance
        if exact(o, blo, bhi, pins, [lin[0], lin[1] - 0.1]) is None:
            ev.tag("nearly-infeasible")
            return
    calls = []

    def func(x):
        x = np.asarray(x, dtype=float)
        calls.append(1)
        return (f(x), g(x)) if c["grad"] else f(x)

    logpdf = (lambda x: -f(np.asarray(x)) / 2.0 + 3.0) if c["logpdf"] else None
    opts = dict(c["opts"])
    if opts.get("method") == "trust-constr":
        opts.setdefault("tol", 1e-8)
    hess = h if c["hess"] and c["grad"] else None
    before = [frozen(v) for v in (bounds, fixed, init, constraints, opts)], cfg_state(cfg)
    with Quiet() as q:
        val, x = fit(func, cfg, do_grad=c["grad"], hessian=hess, initial_parameters=init, bounds=bounds, fixed_poi_value=fixed,
                     logpdf=logpdf, constraints=constraints, **opts)
    after = [frozen(v) for v in (bounds, fixed, init, constraints, opts)], cfg_state(cfg)
    require(before == after, "the fit modified the caller's bounds, pins, start values, constraints, options or configuration",
            before=before, after=after)
    x = np.asarray(x, dtype=float)
    method = c["opts"].get("method", "SLSQP" if c["engine"] == "scipy" else "migrad")
    ev.tag(f"{c['engine']}-{method}")
    require(x.shape == (o["n"],), "number of returned parameters", shape=x.shape)
    for i, v in pins.items():
        require(abs(x[i] - v) <= (1e-6 if method == "trust-constr" else 1e-9) * max(1.0, abs(v)), "a pinned parameter is not at its value", index=i, got=float(x[i]), expected=v, engine=method)
    for i in range(o["n"]):
        if i not in pins:
            slack = 1e-6 if method == "trust-constr" else 1e-9
            require(lo[i] - slack <= x[i] <= hi[i] + slack, "a parameter is outside its bounds", index=i, got=float(x[i]),
                    bounds=[lo[i], hi[i]], engine=method)
    want = logpdf(x) if c["logpdf"] else f(x)
    require(abs(val - want) <= 1e-9 * max(1.0, abs(want)), "the returned value is not the density (objective) at the returned parameters",
            got=float(val), expected=want, engine=method)
    failed = any(lv >= 30 and ("not been able" in m or "failed" in m) for lv, m in q.got)
    unknown = [k for k in c["opts"] if k in ("unknown_option", "verbose", "foo")]
    for k in unknown:
        require(any(k in m for lv, m in q.got if lv >= 30), "an unknown option is dropped without notice", option=k)
    if lin is not None and not failed:
        require(np.dot(lin[0], x) + lin[1] >= -1e-6, "a constraint is violated", value=float(np.dot(lin[0], x) + lin[1]))
    gap = f(x) - best[0]
    tol = {"SLSQP": 2e-4, "L-BFGS-B": 2e-4, "TNC": 5e-2, "Nelder-Mead": 5e-2, "Powell": 5e-2, "trust-constr": 1e-2, "migrad": 1e-3, "simplex": 5e-2}[method]
    require(gap >= -1e-5, "reference minimum is not a minimum", gap=gap)
    if failed:
        ev.tag("reported-failure-" + method)
    if method in ("SLSQP", "migrad", "L-BFGS-B"):
        if method == "migrad" and any(np.isfinite(lo[i]) or np.isfinite(hi[i]) for i in range(o["n"]) if i not in pins):
            tol = 2e-2  # MINUIT is fragile next to limits; what it reports as failed is not judged
            stuck = any(abs(x[i] - b) < 1e-2 for i in range(o["n"]) if i not in pins for b in (lo[i], hi[i]))
            if failed or (stuck and gap > tol):
                ev.tag("migrad-stuck-at-limit")
                return
        require(not failed, "a convex objective is reported as not converged", messages=[m for lv, m in q.got if lv >= 30], engine=method)
        require(gap <= tol * (1 + abs(best[0] - o["k"])), "the minimum differs from the closed form", gap=gap, got=x.tolist(),
                expected=best[1].tolist(), engine=method)
    else:
        ev.tag("%s-gap%s" % (method, "-ok" if gap <= tol * (1 + abs(best[0] - o["k"])) else "-BAD"))
        if method in ("trust-constr",) and not failed:
            require(gap <= tol * (1 + abs(best[0] - o["k"])), "the minimum differs from the closed form", gap=gap, got=x.tolist(),
                    expected=best[1].tolist(), engine=method)
    active = np.any([abs(best[1][i] - b) < 1e-9 for i in range(o["n"]) if i not in pins for b in (lo[i], hi[i]) if np.isfinite(b)] + [False])
    lin_active = lin is not None and abs(np.dot(lin[0], best[1]) + lin[1]) < 1e-7
    ev.mark((pins and (active or lin_active)) or active or lin_active)


# ------------------------------------------------------------------ retries
@st.composite
def retry_case(draw):
    c = draw(setting(4))
    c["maxiter"] = draw(st.integers(1, 6))
    c["ntrials"] = draw(st.integers(1, 8))
    c["method"] = draw(st.sampled_from(["SLSQP", "SLSQP", "L-BFGS-B", "TNC", "Nelder-Mead"]))
    c["inside"] = True
    return c


def retry_check(c, ev):
    """Few iterations and several trials: never an error, pins and the documented expansion of the bounds are respected."""
    from spey.optimizer.core import fit

    o, n = c["o"], c["o"]["n"]
    f, g, _, _ = fns(o)
    cfg, pins, lo, hi, bounds, fixed, init, start = prepare(c)
    before = [frozen(v) for v in (bounds, fixed, init)], cfg_state(cfg)
    with Quiet() as q:
        val, x = fit((lambda x: (f(x), g(x))) if c["grad"] else f, cfg, do_grad=c["grad"], initial_parameters=init, bounds=bounds,
                     fixed_poi_value=fixed, minimizer="scipy", method=c["method"], maxiter=c["maxiter"], ntrials=c["ntrials"])
    require(before == ([frozen(v) for v in (bounds, fixed, init)], cfg_state(cfg)), "retries modified the caller's objects or the configuration")
    x = np.asarray(x, dtype=float)
    retries = sum("Expanding" in m for _, m in q.got)
    failed = sum("not been able" in m for lv, m in q.got if lv >= 30) > retries
    require(retries <= c["ntrials"] - 1, "more trials than requested", retries=retries, ntrials=c["ntrials"])
    feasible = not failed or c["method"] != "SLSQP"  # an interrupted SLSQP step may not have reached the pinned value
    for i in range(n):
        if i in pins:
            require(not feasible or abs(x[i] - pins[i]) <= 1e-9 * max(1, abs(pins[i])), "a pinned parameter is not at its value", index=i, got=float(x[i]),
                    expected=pins[i], method=c["method"])
            continue
        a, b = lo[i], hi[i]
        for _ in range(retries):
            if i == c["poi"]:
                b = max(b, 2 * b)
            else:
                a, b = min(a, 10 * a), max(b, 10 * b)
        require(a - 1e-9 <= x[i] <= b + 1e-9, "a parameter is outside its (expanded) bounds", index=i, got=float(x[i]), bounds=[lo[i], hi[i]], retries=retries)
    require(abs(val - f(x)) <= 1e-9 * max(1.0, abs(f(x))), "the returned value is not the objective at the returned parameters", got=float(val), expected=f(x))
    if retries == 0 and not failed:
        best = exact(o, lo, hi, pins)
        if best is not None and c["method"] in ("SLSQP", "L-BFGS-B"):
            require(f(x) - best[0] <= 2e-4 * (1 + abs(best[0] - o["k"])), "reported as converged away from the minimum", got=x.tolist(), expected=best[1].tolist())
    if failed:
        ev.tag("gave-up")
    ev.tag(f"retries-{min(retries, 3)}")
    ev.mark(retries > 0)


@st.composite
def steep_case(draw):
    c = draw(setting(4))
    c["o"]["kind"] = "quad"
    c["o"].setdefault("corr", draw(S.corr_matrix(c["o"]["n"])) if c["o"]["n"] > 1 else [[1.0]])
    c["inside"] = True
    c["scale"] = draw(st.sampled_from([1.0, 30.0, 1e3, 1e4, 1e5]))
    return c


def steep_check(c, ev):
    """Objectives in large units (many events): the default fit with gradients still reaches the minimum and reports its own value."""
    from spey.optimizer import scipy_tools
    from spey.optimizer.core import fit

    o, k = c["o"], c["scale"]
    f, g, _, _ = fns(o)
    cfg, pins, lo, hi, bounds, fixed, init, start = prepare(c)
    best = exact(o, lo.copy(), hi.copy(), pins)
    if best is None:
        ev.tag("infeasible")
        return
    func = lambda x: (k * f(x), k * g(x))  # noqa: E731
    with Quiet():
        val, x = fit(func, cfg, do_grad=True, initial_parameters=init, bounds=bounds, fixed_poi_value=fixed)
    x = np.asarray(x, float)
    if not pins and bounds is not None:
        with Quiet():
            v2, x2 = scipy_tools.minimize(func, list(start), [False] * o["n"], do_grad=True, bounds=list(bounds), poi_index=c["poi"])
        require(abs(v2 - k * f(np.asarray(x2))) <= 1e-9 * max(1, abs(v2)), "the returned value is not the objective at the returned parameters", got=float(v2), expected=k * f(np.asarray(x2)))
    require(abs(val - k * f(x)) <= 1e-9 * max(1.0, abs(val)), "the returned value is not the objective at the returned parameters", got=float(val), expected=k * f(x))
    gap = k * (f(x) - best[0])
    require(gap <= 2e-3, "the minimum differs from the closed form", gap=gap, got=x.tolist(), expected=best[1].tolist(), scale=k)
    for i, v in pins.items():
        require(abs(x[i] - v) <= 1e-9 * max(1.0, abs(v)), "a pinned parameter is not at its value", index=i, got=float(x[i]), expected=v)
    ev.tag(f"scale-{k:g}")
    ev.mark(k > 1)


# ------------------------------------------------------------------ choice of the engine
NAMES = ["scipy", "minuit", "SCIPY", "Minuit", "", "bfgs", "iminuit", "scipy ", None]


@st.composite
def engine_case(draw):
    return {
        "env": draw(st.sampled_from(NAMES)), "option": draw(st.sampled_from(["unset", "unset"] + NAMES[:-1])),
        "sets": draw(st.lists(st.sampled_from(["scipy", "minuit", "iminuit", "nope", "SCIPY", ""]), max_size=3)),
        "missing": draw(st.booleans()), "s": draw(objective(3)), "via": draw(st.sampled_from(["fit", "model"])),
        "model": draw(S.model(kinds=("normal", "uncorrelated"), min_bins=1, max_bins=2, tame=True)), "mu": draw(S.num(0, 2, 2)),
        "extra": draw(st.sampled_from([{}, {"strategy": 1}, {"ntrials": 2}, {"bogus": 1}])),
    }


def engine_check(c, ev):
    """The engine is the requested one (else the environment's, else scipy); anything unavailable falls back with a warning."""
    import iminuit
    import scipy.optimize

    import spey
    from spey.base.model_config import ModelConfig
    from spey.optimizer import core
    from spey.optimizer.core import fit

    keep_env, keep_min, keep_minuit, keep_find, keep_sfind = (os.environ.get("SPEY_OPTIMISER"), scipy.optimize.minimize, iminuit.Minuit.migrad,
                                                             core.find_spec, spey.find_spec)
    used = set()
    migrad = iminuit.Minuit.migrad
    missing = c["missing"]

    def spy_min(*a, **k):
        used.add("scipy")
        return keep_min(*a, **k)

    def spy_migrad(self, *a, **k):
        used.add("minuit")
        return migrad(self, *a, **k)

    try:
        os.environ.pop("SPEY_OPTIMISER", None)
        if c["env"] is not None:
            os.environ["SPEY_OPTIMISER"] = c["env"]
        if missing:
            core.find_spec = spey.find_spec = lambda n, *a: None if n == "iminuit" else keep_find(n, *a)
        scipy.optimize.minimize, iminuit.Minuit.migrad = spy_min, spy_migrad
        current = c["env"]
        for name in c["sets"]:
            with Quiet() as q:
                spey.set_optimiser(name)
            errors = [m for lv, m in q.got if lv >= 40]
            if name in ("minuit", "iminuit") and not missing:
                current = "minuit"
                require(not errors, "setting an available engine reports an error", name=name, got=errors)
            elif name == "scipy":
                current = "scipy"
                require(not errors, "setting an available engine reports an error", name=name, got=errors)
            else:
                require(errors, "an unavailable engine is accepted silently", name=name)
            require(os.environ.get("SPEY_OPTIMISER") == current, "the engine in use after set_optimiser", got=os.environ.get("SPEY_OPTIMISER"), expected=current)
        opts = dict(c["extra"])
        wish = current.lower() if current is not None else "scipy"
        if c["option"] != "unset":
            opts["minimizer"] = c["option"]
            wish = c["option"]
        engine = wish if wish in ("scipy", "minuit") else "scipy"
        fallback = engine != wish
        if engine == "minuit" and missing:
            engine, fallback = "scipy", True
        with Quiet() as q:
            if c["via"] == "fit":
                o = c["s"]
                f, g, _, _ = fns(o)
                cfg = ModelConfig(0, -np.inf, [0.0] * o["n"], [(-5.0, 5.0)] * o["n"])
                val, x = fit(f, cfg, **opts)
                require(abs(val - o["k"]) <= 2e-4 * (1 + abs(f(np.zeros(o["n"])) - o["k"])), "minimum", got=float(val), expected=o["k"], engine=engine)
            else:
                m = models.build(c["model"])
                val = m.likelihood(poi_test=c["mu"], **opts)
                require(np.isfinite(val), "likelihood with a chosen engine", got=float(val))
        if c["option"] in ("SCIPY", "Minuit") and c["option"].lower() in used:
            engine, fallback = c["option"].lower(), False  # accepting another spelling is fine too
            if engine == "minuit" and missing:
                require(False, "an engine that is not installed was used")
        require(used <= {engine}, "another engine than the requested one was used", used=sorted(used), expected=engine, wish=wish)
        if c["via"] == "fit":
            require(used == {engine}, "no engine was used", expected=engine)
        warnings = [m for lv, m in q.got if lv >= 30]
        if fallback and used:
            require(any("scipy" in m for m in warnings), "the engine was replaced without a warning", wish=wish, got=warnings)
        known = {"scipy": ["ntrials"], "minuit": ["strategy"]}[engine]
        for k in c["extra"]:
            if used and k not in known:
                require(any(k in m for m in warnings), "an option is dropped without notice", option=k, engine=engine)
            elif used:
                require(not any(k in m for m in warnings), "a valid option is reported as invalid", option=k, engine=engine)
        ev.tag(f"{engine}-{'fallback' if fallback else 'wish'}")
        ev.mark(fallback or len(c["sets"]) > 0 or c["option"] != "unset")
    finally:
        scipy.optimize.minimize, iminuit.Minuit.migrad = keep_min, keep_minuit
        core.find_spec, spey.find_spec = keep_find, keep_sfind
        os.environ.pop("SPEY_OPTIMISER", None)
        if keep_env is not None:
            os.environ["SPEY_OPTIMISER"] = keep_env


# ------------------------------------------------------------------ fits of real models with every engine
@st.composite
def model_case(draw):
    spec = draw(S.model(kinds=("poisson", "normal", "uncorrelated", "correlated", "mvn"), min_bins=1, max_bins=3, tame=True, signal_fn=False))
    return {
        "spec": spec, "mu": draw(st.one_of(st.none(), S.num(0, 2, 2))), "start": draw(S.num(0.0, 3.0, 2)),
        "setups": draw(st.lists(st.sampled_from([
            {"minimizer": "scipy"}, {"minimizer": "minuit"}, {"minimizer": "minuit", "strategy": 1}, {"minimizer": "scipy", "method": "trust-constr", "tol": 1e-8},
            {"minimizer": "scipy", "do_grad": False}, {"minimizer": "minuit", "do_grad": False}, {"minimizer": "scipy", "ntrials": 3, "maxiter": 4},
            {"minimizer": "scipy", "method": "L-BFGS-B"}]), min_size=2, max_size=3, unique_by=str)),
        "init": draw(st.booleans()), "neg": draw(st.booleans()),
    }


def model_check(c, ev):
    """Every engine and method returns the minimum of the reference density for the same question."""
    from harness.core import Inconclusive
    from harness.reference import Ref

    ref = Ref(c["spec"])
    neg = c["neg"]
    bounds = None
    if c["mu"] is None:
        hi = 10.0
        lo = ref.minimum_poi if neg else 0.0
        want, xref = ref.minimise(poi_bounds=(lo, hi))
    else:
        want, xref = ref.minimise(fixed={0: c["mu"]})
    if xref is None:
        raise Inconclusive("reference fit")
    for setup in c["setups"]:
        m = models.build(c["spec"])
        opts = dict(setup)
        if c["init"]:
            opts["init_pars"] = [c["start"]] + [0.0 if b[0] is None else float(v) for v, b in
                                                zip(m.backend.config().suggested_init[1:], m.backend.config().suggested_bounds[1:])]
        with Quiet() as q:
            if c["mu"] is None:
                mu, val = m.maximize_likelihood(return_nll=True, allow_negative_signal=neg, par_bounds=bounds, **opts)
                require("ntrials" in setup or lo - 1e-6 <= mu <= hi + 1e-6, "best fit outside the bounds", got=float(mu), bounds=[lo, hi], setup=setup)
            else:
                val = m.likelihood(poi_test=c["mu"], return_nll=True, par_bounds=bounds, **opts)
        failed = any(lv >= 30 and ("not been able" in t or "failed" in t) for lv, t in q.got)
        key = f"{setup['minimizer']}-{setup.get('method', 'default')}"
        if "ntrials" in setup and c["mu"] is None:
            ev.tag("expanded")  # the documented expansion of the bounds may lead to a better point
            continue
        require(val >= want - 1e-4 * (1 + abs(want)) * 0.05 - 1e-4, "below the minimum of the reference", got=float(val), expected=float(want), setup=setup)
        if failed:
            ev.tag("reported-failure-" + key)
            continue
        slack = 2e-3 * (1 + abs(want)) if "trust" in key else 2e-3
        require(val - want <= slack, "the minimum differs from the reference", got=float(val), expected=float(want), setup=setup, reference=np.asarray(xref).tolist())
        ev.tag(key)
    ev.mark(len(c["setups"]) > 1)


SUBS = [
    Sub("convex", convex_case, convex_check, quick=1500, thorough=60000),
    Sub("steep", steep_case, steep_check, quick=800, thorough=20000),
    Sub("retry", retry_case, retry_check, quick=800, thorough=30000),
    Sub("engine", engine_case, engine_check, quick=400, thorough=15000),
    Sub("model", model_case, model_check, quick=160, thorough=6000, case_timeout=120),
]

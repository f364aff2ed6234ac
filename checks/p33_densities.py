"""P33: elementary densities match their textbook definitions."""
import math
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from harness import strategies as S
from harness.core import Sub, require, require_allclose, require_close

PROPERTY = "P33"
RULE = (
    "Random locations, scales, covariances (constant and functional), data types and parameter sub-ranges; oracle: closed-form log-densities written "
    "with math.lgamma and numpy.linalg, derivatives by central differences, sample moments within six standard errors. Non-trivial: more than one "
    "component, a sub-range or a functional width. large: 40-180 components against the closed form of an AR(1) covariance."
)
BUDGET = {"quick": 60, "thorough": 1200}
LOG2PI = math.log(2 * math.pi)


def domain_of(lead, n, form):
    return {"slice": slice(lead, lead + n), "open": slice(lead, None)}[form]


@st.composite
def poisson_case(draw):
    n = draw(st.integers(1, 5))
    dt = draw(st.sampled_from(["int64", "int32", "int16", "uint8", "uint64", "float64", "float32", "list-int", "list-float", "list-mixed"]))
    lam = [draw(st.one_of(S.num(0.01, 50, 2), st.sampled_from([1e-12, 0.0, -3.0, 1e3, 1e6]))) for _ in range(n)]
    if "float" in dt or "mixed" in dt:
        v = [draw(st.one_of(S.num(0, 200, 2), st.integers(0, 100).map(float))) for _ in range(n)]
        if dt == "list-mixed":
            v[0] = int(v[0])
    else:
        v = [draw(st.one_of(st.integers(0, 200 if dt == "uint8" else 10000), st.integers(0, {"uint8": 255, "int16": 32767}.get(dt, 2000000)))) for _ in range(n)]
    return {"lam": lam, "v": v, "dt": dt, "scalar": draw(st.integers(0, 5)) == 0, "main": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}


def poisson_check(c, ev):
    from autograd import grad

    from spey.backends.distributions import MainModel, Poisson

    lam, v = np.array(c["lam"]), list(c["v"])
    val = v if c["dt"].startswith("list") else np.array(v, dtype=c["dt"])
    eff = np.maximum(lam, 1e-20)
    vv = np.asarray(val, dtype=float)
    want = np.array([x * math.log(l) - l - math.lgamma(x + 1.0) for x, l in zip(vv, eff)])
    tol = 1e-5 if c["dt"] == "float32" else 1e-10
    scale = np.maximum(1.0, np.array([abs(x * math.log(l)) + l + abs(math.lgamma(x + 1)) for x, l in zip(vv, eff)]))
    if c["scalar"]:
        p = Poisson(float(lam[0]))
        got = p.log_prob(val[0])
        require(np.shape(got) == () and abs(float(got) - want[0]) <= tol * scale[0], "Poisson log-probability of a number", got=float(got), expected=float(want[0]))
        require_close(float(p.expected_data()), float(eff[0]), "expected value of a number")
        np.random.seed(c["seed"])
        require(np.shape(p.sample(7)) == (7,), "shape of samples of a number")
        ev.mark(True)
        return
    keep = np.array(lam, copy=True)
    p = Poisson(lam)
    got = np.asarray(p.log_prob(val))
    require(got.shape == (len(v),) and got.dtype == np.float64 and np.all(np.abs(got - want) <= tol * scale), "Poisson log-probability", got=got.tolist(), expected=want.tolist())
    require_allclose(p.expected_data(), eff, "expected value", rtol=0, atol=0)
    e = p.expected_data()
    e[:] = 7.0
    require_allclose(p.expected_data(), eff, "changing the expected value changes the distribution", rtol=0, atol=0)
    require(np.array_equal(keep, lam), "the location changed")
    m = MainModel(lambda q: q[0] * lam)
    for mu in (1.0, 0.3):
        tot = m.log_prob(np.array([mu]), val)
        e2 = np.maximum(mu * lam, 1e-20)
        w2 = sum(x * math.log(l) - l - math.lgamma(x + 1.0) for x, l in zip(vv, e2))
        require(np.shape(tot) == () and abs(float(tot) - w2) <= tol * max(scale.sum(), 1), "log-probability of the main model is the sum over bins", got=float(tot), expected=w2)
        require_allclose(m.expected_data(np.array([mu])), e2, "expected data of the main model", rtol=1e-14)
    if np.all(lam > 1e-3):
        g = grad(lambda q: m.log_prob(q, val))(np.array([1.0]))
        want_g = float(np.sum(vv - lam))
        require(abs(g[0] - want_g) <= max(tol, 1e-9) * np.sum(vv + lam), "derivative of the Poisson log-probability", got=float(g[0]), expected=want_g)
    np.random.seed(c["seed"])
    N = 4000
    if np.all(eff < 1e5):
        for smp in (p.sample(N), m.sample(np.array([1.0]), N)):
            require(np.shape(smp) == (N, len(v)), "shape of samples", got=np.shape(smp))
            require(np.all(smp == np.round(smp)) and np.all(smp >= 0), "samples are counts")
            err = np.sqrt(eff / N)
            require(np.all(np.abs(smp.mean(0) - eff) <= 6.5 * err + 7 / N), "mean of samples", got=smp.mean(0).tolist(), expected=eff.tolist())
            verr = np.sqrt((eff + 2 * eff**2) / N)
            require(np.all(np.abs(smp.var(0) - eff) <= 8 * verr + 60 / N), "variance of samples", got=smp.var(0).tolist(), expected=eff.tolist())
        require(np.shape(p.sample(1)) == (1, len(v)), "shape of a single sample")
    ev.mark(len(v) > 1)
    ev.tag(c["dt"])


@st.composite
def gauss_case(draw):
    n = draw(st.integers(1, 4))
    lead, tail = draw(st.integers(0, 3)), draw(st.integers(0, 2))
    return {
        "kind": draw(st.sampled_from(["normal", "mvn"])), "mean": draw(S.vec(n, -20, 20, 2)),
        "sd": draw(st.sampled_from([1.0, 1.0, 0.01, 50.0]).flatmap(lambda q: S.vec(n, 0.05, 10, 2).map(lambda v: [round(q * x, 6) for x in v]))),
        "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]], "z": draw(S.vec(n, -4, 4, 2)), "lead": draw(S.vec(lead, -5, 5, 1)) if lead else [],
        "tail": draw(S.vec(tail, -5, 5, 1)) if tail else [], "fun": draw(st.booleans()), "k": draw(S.num(0.05, 1, 2)), "seed": draw(st.integers(0, 10**6)),
        "open": draw(st.booleans()),
    }


def gauss_parts(c):
    n = len(c["mean"])
    mean, sd = np.array(c["mean"]), np.array(c["sd"])
    x = mean + np.array(c["z"]) * sd
    tail = [] if c["open"] else c["tail"]
    pars = np.array(list(c["lead"]) + list(x) + list(tail))
    lo = len(c["lead"])
    dom = slice(lo, None) if c["open"] else slice(lo, lo + n)
    return n, mean, sd, x, pars, dom


def gauss_check(c, ev):
    from autograd import grad
    import autograd.numpy as anp

    from spey.backends.distributions import ConstraintModel, MultivariateNormal, Normal

    n, mean, sd, x, pars, dom = gauss_parts(c)
    k = c["k"]
    stretch = (lambda y: 1.0 + k * anp.sum((y - mean) ** 2 / sd**2) / n) if c["fun"] else (lambda y: 1.0)
    f = float(stretch(x))
    if c["kind"] == "normal":
        scale = (lambda y: sd * stretch(y)) if c["fun"] else sd
        d = Normal(mean, scale, domain=dom)
        want = float(np.sum(-0.5 * ((x - mean) / (sd * f)) ** 2 - np.log(sd * f) - 0.5 * LOG2PI))
        each = np.asarray(d.log_prob(pars))
        require(each.shape == (n,), "one log-density per component", got=each.shape)
        total = float(np.sum(each))
        cov = np.diag(sd**2) * f * f
        name = "normal"
        args = [mean, scale]
    else:
        cov0 = np.array(c["rho"]) * np.outer(sd, sd)
        cv = (lambda y: cov0 * stretch(y) ** 2) if c["fun"] else cov0
        cov = cov0 * f * f
        d = MultivariateNormal(mean, cv, domain=dom)
        D = x - mean
        corr = np.array(c["rho"])
        u = D / (sd * f)
        want = float(-0.5 * (u @ np.linalg.solve(corr, u)) - 0.5 * (n * LOG2PI + np.linalg.slogdet(corr)[1]) - np.sum(np.log(sd * f)))
        got = d.log_prob(pars)
        require(np.shape(got) == (), "the log-density is a number")
        total = float(got)
        name = "multivariatenormal"
        args = [mean, cv]
    tol = 1e-7 * max(1.0, abs(want))
    require(abs(total - want) <= tol, "Gaussian log-density", got=total, expected=want)
    require_allclose(d.expected_data(), mean, "expected value", rtol=0, atol=0)
    e = d.expected_data()
    e += 1.0
    require_allclose(d.expected_data(), mean, "changing the expected value changes the distribution", rtol=0, atol=0)
    # derivative against central differences
    h = np.concatenate([np.full(len(c["lead"]), 1e-3), 1e-4 * sd, np.full(len(pars) - len(c["lead"]) - n, 1e-3)])
    g = grad(lambda q: anp.sum(d.log_prob(q)))(pars)
    for i in range(len(pars)):
        up, dn = pars.copy(), pars.copy()
        up[i] += h[i]
        dn[i] -= h[i]
        num = float(np.sum(d.log_prob(up)) - np.sum(d.log_prob(dn))) / (up[i] - dn[i])
        require(abs(g[i] - num) * h[i] / 1e-4 <= 1e-3 * (1 + abs(num) * h[i] / 1e-4), "derivative of the log-density", i=i, got=float(g[i]), expected=num)
    if np.linalg.cond(np.array(c["rho"])) < 1e6:
        np.random.seed(c["seed"])
        N = 4000
        smp = np.asarray(d.sample(pars, N))
        require(smp.shape == (N, n), "shape of samples", got=smp.shape)
        s = sd * f
        require(np.all(np.abs(smp.mean(0) - mean) <= 6.5 * s / math.sqrt(N)), "mean of samples", got=smp.mean(0).tolist(), expected=mean.tolist())
        C = np.cov(smp.T).reshape(n, n)
        require(np.all(np.abs(C - cov) <= 7 * np.outer(s, s) * math.sqrt(2 / N)), "covariance of samples", got=C.tolist(), expected=cov.tolist())
        require(np.shape(d.sample(pars, 1)) == (1, n), "shape of a single sample")
    # as part of a constraint model
    label = {0: name, 1: name.upper(), 2: name.capitalize()}[c["seed"] % 3]
    first = {"distribution_type": label, "args": args, "kwargs": {"domain": dom}}
    second = {"distribution_type": "normal", "args": [np.array([0.5]), np.array([2.0])], "kwargs": {"domain": slice(0, 1)}}
    extra = -0.5 * ((pars[0] - 0.5) / 2.0) ** 2 - math.log(2.0) - 0.5 * LOG2PI
    one, two = ConstraintModel([first]), ConstraintModel([first, second])
    require(len(one) == 1 and len(two) == 2, "number of constraint terms")
    require(abs(float(one.log_prob(pars)) - want) <= tol and abs(float(two.log_prob(pars)) - want - extra) <= tol + 1e-9,
            "the constraint model is the sum of its parts", got=[float(one.log_prob(pars)), float(two.log_prob(pars))], expected=[want, want + extra])
    require_allclose(two.expected_data(), np.append(mean, 0.5), "expected data of the constraint model", rtol=0, atol=0)
    require(np.shape(one.sample(pars, 3)) == (3, n) and np.shape(two.sample(pars, 3)) == (3, n + 1), "samples of the constraint model")
    # three terms, the last of several components
    k3 = 2 + c["seed"] % 2
    mean3 = np.arange(1, k3 + 1) * 3.0
    dom3 = [0] * k3 if len(pars) < k3 else list(range(k3))
    third = {"distribution_type": "normal", "args": [mean3, np.full(k3, 0.25)], "kwargs": {"domain": np.array(dom3)}}
    third_v = float(np.sum(-0.5 * ((pars[dom3] - mean3) / 0.25) ** 2 - math.log(0.25) - 0.5 * LOG2PI))
    parts, values, means, widths = [first, second, third], [want, extra, third_v], [mean, np.array([0.5]), mean3], [sd * f, np.array([2.0]), np.full(k3, 0.25)]
    order = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]][c["seed"] % 4]
    many = ConstraintModel([parts[o] for o in order])
    require(len(many) == 3 and abs(float(many.log_prob(pars)) - sum(values)) <= 1e-7 * (1 + sum(abs(v) for v in values)),
            "the constraint model is the sum of its parts", got=float(many.log_prob(pars)), expected=sum(values), order=order)
    wm, ws = np.concatenate([means[o] for o in order]), np.concatenate([widths[o] for o in order])
    require_allclose(many.expected_data(), wm, "expected data of the constraint model", rtol=0, atol=0)
    smp = np.asarray(many.sample(pars, 400))
    require(smp.shape == (400, len(wm)), "samples of the constraint model", got=smp.shape)
    require(np.all(np.abs(smp.mean(0) - wm) <= 7 * ws / 20) and np.all(np.abs(smp.std(0) / ws - 1) <= 7 / math.sqrt(800)),
            "moments of the samples of the constraint model", got=[smp.mean(0).tolist(), smp.std(0).tolist()], expected=[wm.tolist(), ws.tolist()])
    bad = None
    try:
        ConstraintModel([{"distribution_type": "cauchy", "args": args}])
    except (AssertionError, KeyError, ValueError) as err:
        bad = err
    require(bad is not None, "an unknown constraint distribution is rejected")
    ev.mark(n > 1 or c["fun"] or bool(c["lead"]))
    ev.tag(c["kind"], "functional" if c["fun"] else "constant")


@st.composite
def main_case(draw):
    c = draw(gauss_case())
    c["mu"] = draw(S.num(-2, 3, 2))
    c["bad"] = draw(st.sampled_from(["cauchy", "normal-without-width", "mvn-without-covariance", "", "Poiss"]))
    c["threads"] = draw(st.integers(0, 3)) == 0
    return c


def main_check(c, ev):
    from spey.backends.distributions import MainModel
    from spey.system.exceptions import DistributionError

    n, mean, sd, x, _, _ = gauss_parts(c)
    loc = lambda p: mean + p[0] * np.arange(1.0, n + 1)
    st_ = (lambda p: 1.0 + c["k"] * p[0] ** 2) if c["fun"] else (lambda p: 1.0)
    corr = np.array(c["rho"])
    if c["kind"] == "normal":
        m = MainModel(loc, (lambda p: sd * st_(p)) if c["fun"] else sd, pdf_type="normal")
        corr = np.eye(n)
    else:
        cov0 = corr * np.outer(sd, sd)
        m = MainModel(loc, (lambda p: cov0 * st_(p) ** 2) if c["fun"] else cov0, pdf_type="multivariate_normal")

    def want(mu):
        p = np.array([mu])
        s = sd * st_(p)
        u = (x - loc(p)) / s
        return float(-0.5 * (u @ np.linalg.solve(corr, u)) - 0.5 * (n * LOG2PI + np.linalg.slogdet(corr)[1]) - np.sum(np.log(s)))

    for mu in (c["mu"], 0.0, 1.0, c["mu"]):
        p = np.array([mu])
        got = m.log_prob(p, x)
        w = want(mu)
        require(np.shape(got) == () and abs(float(got) - w) <= 1e-7 * max(1, abs(w)), "log-density of the main model", mu=mu, got=float(got), expected=w)
        require_allclose(m.expected_data(p), loc(p), "expected data of the main model", rtol=1e-14)
    p = np.array([c["mu"]])
    np.random.seed(c["seed"])
    N = 2000
    smp = np.asarray(m.sample(p, N))
    s = sd * st_(p)
    require(smp.shape == (N, n), "shape of samples", got=smp.shape)
    require(np.all(np.abs(smp.mean(0) - loc(p)) <= 6.5 * s / math.sqrt(N)), "mean of samples of the main model")
    require(np.all(np.abs(np.cov(smp.T).reshape(n, n) - corr * np.outer(s, s)) <= 7 * np.outer(s, s) * math.sqrt(2 / N)), "covariance of samples of the main model")
    err = None
    try:
        if c["bad"] == "normal-without-width":
            MainModel(loc, pdf_type="normal")
        elif c["bad"] == "mvn-without-covariance":
            MainModel(loc, pdf_type="multivariate_normal")
        else:
            MainModel(loc, sd, pdf_type=c["bad"])
    except DistributionError as e:
        err = e
    require(err is not None, "unknown or incomplete main models are rejected with the documented error", what=c["bad"])
    if c["threads"]:
        bad = []
        vals = {mu: float(m.log_prob(np.array([mu]), x)) for mu in (0.0, 1.0, 2.5)}

        def work(mu):
            for _ in range(60):
                g = float(m.log_prob(np.array([mu]), x))
                if g != vals[mu]:
                    bad.append((mu, g, vals[mu]))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(mu,)) for mu in vals for _ in range(2)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        require(not bad, "concurrent evaluations influence each other", seen=bad[:2])
        ev.tag("threads")
    ev.mark(n > 1 or c["fun"])
    ev.tag(c["kind"])


# ------------------------------------------------------------------ many components
@st.composite
def large_case(draw):
    return {"n": draw(st.integers(40, 180)), "r": draw(st.sampled_from([0.0, 0.3, 0.8, -0.5, 0.95])), "log_sd": draw(S.num(-6, 6, 1)),
            "k": draw(S.num(0.0, 0.5, 2)), "how": draw(st.sampled_from(["constraint", "main", "backend"])), "fun": draw(st.booleans()),
            "seed": draw(st.integers(0, 10**6)), "mu": draw(S.num(-2, 2, 1))}


def large_check(c, ev):
    """Determinants of many components leave the range of doubles; log-densities must not."""
    from spey import get_backend
    from spey.backends.distributions import ConstraintModel, MainModel, MultivariateNormal

    n, r, rng = c["n"], c["r"], np.random.RandomState(c["seed"])
    sd = 10.0 ** c["log_sd"] * rng.uniform(0.5, 2, n)
    corr = r ** np.abs(np.subtract.outer(np.arange(n), np.arange(n))) if r else np.eye(n)
    mean, sig = rng.uniform(-5, 5, n) * sd, rng.uniform(-1, 1, n) * sd
    x = mean + rng.normal(size=n) * sd
    p = np.array([c["mu"]])

    def want(y, loc, f):
        u = (y - loc) / (sd * f)
        # AR(1): the precision matrix and the determinant are known in closed form
        e = np.append(u[0], (u[1:] - r * u[:-1]) / math.sqrt(1 - r * r))
        return float(-0.5 * (e @ e) - 0.5 * n * LOG2PI - 0.5 * (n - 1) * math.log(1 - r * r) - np.sum(np.log(sd)) - n * math.log(f))

    cov = corr * np.outer(sd, sd)
    if c["how"] == "constraint":
        f = (lambda y: 1 + c["k"] * np.tanh(y[0] / sd[0]) ** 2) if c["fun"] else (lambda y: 1.0)
        d = MultivariateNormal(mean, (lambda y: cov * f(y) ** 2) if c["fun"] else cov)
        w = want(x, mean, f(x))
        got = [float(d.log_prob(x)), float(ConstraintModel([{"distribution_type": "multivariatenormal", "args": [mean, (lambda y: cov * f(y) ** 2) if c["fun"] else cov]}]).log_prob(x))]
    elif c["how"] == "main":
        f = (lambda q: 1 + c["k"] * q[0] ** 2) if c["fun"] else (lambda q: 1.0)
        m = MainModel(lambda q: mean + q[0] * sig, (lambda q: cov * f(q) ** 2) if c["fun"] else cov, pdf_type="multivariate_normal")
        w = want(x, mean + p[0] * sig, f(p))
        got = [float(m.log_prob(p, x))]
    else:
        m = get_backend("default.multivariate_normal")(signal_yields=sig, background_yields=mean, data=x, covariance_matrix=cov)
        w = want(x, mean + p[0] * sig, 1.0)
        got = [-float(m.likelihood(poi_test=c["mu"])), float(m.backend.get_logpdf_func()(p))]
    for g in got:
        require(abs(g - w) <= 1e-6 * (n + abs(w)), "log-density of many components", got=g, expected=w)
    logdet = 2 * float(np.sum(np.log(sd))) + (n - 1) * math.log(1 - r * r)
    ev.mark(abs(logdet) > 650)
    ev.tag(c["how"], "functional" if c["fun"] else "constant")


SUBS = [
    Sub("poisson", poisson_case, poisson_check, quick=1500, thorough=40000),
    Sub("gaussian", gauss_case, gauss_check, quick=1500, thorough=40000),
    Sub("large", large_case, large_check, quick=300, thorough=6000),
    Sub("main", main_case, main_check, quick=1200, thorough=30000),
]

"""P05: metamorphic relations between descriptions of the same physics."""
import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Inconclusive, Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P05"
RULE = (
    "A case is a model plus a transformation (bin permutation, signal scale, an alternative "
    "documented description, an added signal-free bin) and a parameter point or tested signal "
    "strength. spectators: independent bins without signal leave likelihood ratios, CLs and limits alone. "
    "Non-trivial: two or more bins and a non-identity transformation."
)
CONVEX = ("uncorrelated", "correlated", "poisson", "normal", "mvn")


def permuted(spec, perm):
    n = len(perm)
    out = dict(spec)
    for k in ("b", "s", "data", "unc", "m3", "env"):
        if k in spec:
            out[k] = [spec[k][i] for i in perm]
    for k in ("cov", "corr"):
        if k in spec:
            m = np.array(spec[k])
            out[k] = m[np.ix_(perm, perm)].tolist()
    if "sfun" in spec:
        sf = dict(spec["sfun"])
        sf["c0"] = [sf["c0"][i] for i in perm]
        sf["c1"] = [[c[i] for i in perm] for c in sf["c1"]]
        out["sfun"] = sf
    if spec.get("mods"):
        out["mods"] = [dict(m, uncertainties=[m["uncertainties"][i] for i in perm]) for m in spec["mods"]]
    assert len(out["b"]) == n
    return out


def permuted_pars(ref, pars, perm):
    pars = np.asarray(pars, float)
    out = pars.copy()
    if ref.n_theta:
        out[ref.th0 : ref.th0 + ref.n] = pars[ref.th0 : ref.th0 + ref.n][perm]
    i = ref.mod0
    for m in ref.mods:
        if m["type"] == "shape":
            out[i : i + ref.n] = pars[i : i + ref.n][perm]
            i += ref.n
        else:
            i += 1
    return out


# ------------------------------------------------------------------ pointwise relations
@st.composite
def perm_case(draw):
    c = draw(S.point(S.model(min_bins=2, max_bins=5, signal_fn=True, modifiers=True, cov_fn=True), wild=True))
    c["perm"] = draw(st.permutations(list(range(len(c["spec"]["b"])))))
    c["expected"] = draw(st.sampled_from(["observed", "apriori"]))
    return c


def check_perm(c, ev):
    spec, perm = c["spec"], c["perm"]
    ref = Ref(spec)
    other = permuted(spec, perm)
    exp = models.expectation(c["expected"])
    a = models.build(spec).backend
    b = models.build(other).backend
    x = np.array(c["pars"], float)
    y = permuted_pars(ref, x, perm)
    t = 1e-6 if ref.kind == "third" else 1e-9
    require_close(float(b.get_logpdf_func(expected=exp)(y)), float(a.get_logpdf_func(expected=exp)(x)),
                  "log-likelihood after permuting the bins", rtol=t, atol=100 * t)
    da, db = np.array(a.expected_data(x)), np.array(b.expected_data(y))
    require_allclose(db[: ref.n], da[: ref.n][perm], "expected data after permuting the bins", rtol=1e-7, atol=1e-7)
    require_close(b.config().minimum_poi, a.config().minimum_poi, "smallest allowed signal strength")
    ev.tag("permutation", spec["kind"])
    ev.mark(list(perm) != sorted(perm))


@st.composite
def scale_case(draw):
    c = draw(S.point(S.model(max_bins=4, modifiers=True), wild=True))
    c["k"] = draw(S.num(0.2, 5, 2))
    return c


def check_scale(c, ev):
    spec, k = c["spec"], c["k"]
    other = dict(spec, s=[k * x for x in spec["s"]])
    if spec.get("mods"):
        other["mods"] = [
            dict(m, uncertainties=[[k * v for v in u] if isinstance(u, list) else k * u for u in m["uncertainties"]])
            for m in spec["mods"]
        ]
    a, b = models.build(spec).backend, models.build(other).backend
    x = np.array(c["pars"], float)
    y = x.copy()
    y[0] = x[0] / k
    require_close(float(b.get_logpdf_func()(y)), float(a.get_logpdf_func()(x)),
                  "log-likelihood after rescaling the signal", rtol=1e-9, atol=1e-7, k=k)
    if np.isfinite(a.config().minimum_poi):
        require_close(b.config().minimum_poi * k, a.config().minimum_poi, "smallest allowed signal strength", rtol=1e-9)
    ev.tag("signal-scale", spec["kind"])
    ev.mark(k != 1 and x[0] != 0)


@st.composite
def equiv_case(draw):
    rel = draw(st.sampled_from(["diag", "third0", "effsig", "mvn", "extra_bin"]))
    kinds = {"diag": ("uncorrelated",), "third0": ("correlated",), "effsig": ("correlated",), "mvn": ("normal",),
             "extra_bin": ("poisson", "normal", "mvn", "uncorrelated", "correlated")}[rel]
    c = draw(S.point(S.model(kinds=kinds, max_bins=4, modifiers=rel != "extra_bin"), wild=True))
    c["rel"] = rel
    c["b"], c["d"] = draw(S.num(0.5, 50, 2)), float(draw(st.integers(0, 60)))
    c["expected"] = draw(st.sampled_from(["observed", "apriori"]))
    return c


def check_equiv(c, ev):
    spec, rel = c["spec"], c["rel"]
    exp = models.expectation(c["expected"])
    x = np.array(c["pars"], float)
    a = models.build(spec).backend
    va = float(a.get_logpdf_func(expected=exp)(x))
    if rel == "extra_bin":
        o = dict(spec, b=spec["b"] + [c["b"]], s=spec["s"] + [0.0], data=spec["data"] + [c["d"]])
        n = len(spec["b"])
        if "unc" in spec:
            o["unc"] = spec["unc"] + [1.0]
        if "cov" in spec:
            cov = np.eye(n + 1)
            cov[:n, :n] = spec["cov"]
            o["cov"] = cov.tolist()
        ob = models.build(o).backend
        ref = Ref(spec)

        def up(p):
            return np.concatenate([p[: 1 + n], [0.0], p[1 + n :]]) if ref.n_theta else p

        f = ob.get_logpdf_func(expected=exp)
        x0 = x.copy()
        x0[0] = 0.0
        shift = float(f(up(x))) - va
        shift0 = float(f(up(x0))) - float(a.get_logpdf_func(expected=exp)(x0))
        require_close(shift, shift0, "signal-free bin shifts the log-likelihood by more than a constant", rtol=1e-8, atol=1e-7)
        require_close(ob.config().minimum_poi, a.config().minimum_poi, "smallest allowed signal strength")
        ev.tag(rel)
        ev.mark(x[0] != 0)
        return
    if rel == "diag":
        o = dict(spec, kind="correlated", cov=np.diag(np.array(spec["unc"]) ** 2).tolist())
    elif rel == "mvn":
        o = dict(spec, kind="mvn", cov=np.diag(np.array(spec["unc"]) ** 2).tolist())
    elif rel == "third0":
        o = dict(spec, kind="third", m3=[0.0] * len(spec["b"]))
    else:
        cov = np.array(spec["cov"])
        d = np.sqrt(np.diag(cov))
        o = dict(spec, kind="effsig", corr=(cov / np.outer(d, d)).tolist(), env=[[v, v] for v in d])
    ob = models.build(o).backend
    # the third-moment expansion is regularised with a small offset (1e-5) in its correlation matrix
    t = 1e-4 if rel == "third0" else 1e-8
    require_close(float(ob.get_logpdf_func(expected=exp)(x)), va, "equivalent descriptions: " + rel, rtol=t, atol=10 * t)
    n = len(spec["b"])
    require_allclose(np.array(ob.expected_data(x))[:n], np.array(a.expected_data(x))[:n], "expected data: " + rel, rtol=1e-6, atol=1e-6)
    ev.tag(rel)
    ev.mark(n > 1 and x[0] != 0)


# ------------------------------------------------------------------ inference-level relations
@st.composite
def infer_case(draw):
    spec = draw(S.model(kinds=CONVEX, min_bins=2, max_bins=3, tame=True, sig=(0.1, 1.0)))
    return {
        "spec": spec,
        "perm": draw(st.permutations(list(range(len(spec["b"]))))),
        "k": draw(S.num(0.6, 1.6, 2)),
        "mu": draw(S.num(0.1, 3, 2)),
        "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
    }


def cl(model, mu, exp):
    return np.array(model.exclusion_confidence_level(poi_test=mu, expected=exp), float).ravel()


def check_infer(c, ev):
    spec, k, mu = c["spec"], c["k"], c["mu"]
    exp = models.expectation(c["expected"])
    a = models.build(spec)
    variants = [("permutation", models.build(permuted(spec, c["perm"])), 1.0),
                ("signal-scale", models.build(dict(spec, s=[k * x for x in spec["s"]])), k)]
    if spec["kind"] == "uncorrelated":
        variants.append(("diagonal covariance", models.build(
            dict(spec, kind="correlated", cov=np.diag(np.array(spec["unc"]) ** 2).tolist())), 1.0))
    n0 = float(a.likelihood(mu, expected=exp))
    m0, nm0 = a.maximize_likelihood(expected=exp, allow_negative_signal=False)
    c0 = cl(a, mu, exp)
    u0 = a.poi_upper_limit(expected=exp)
    for name, b, f in variants:
        require_close(b.likelihood(mu / f, expected=exp), n0, name + ": profiled likelihood", rtol=0, atol=2e-4)
        m1, nm1 = b.maximize_likelihood(expected=exp, allow_negative_signal=False)
        require_close(nm1, nm0, name + ": maximum likelihood", rtol=0, atol=2e-4, muhat=(m0, m1 * f))
        require_allclose(cl(b, mu / f, exp), c0, name + ": exclusion confidence level", rtol=0, atol=5e-3)
        u1 = b.poi_upper_limit(expected=exp)
        if np.isinf(u0) or np.isinf(u1):
            require(np.isinf(u0) and np.isinf(u1), name + ": upper limit infinite on one side only", a=u0, b=u1)
        else:
            require_close(u1 * f, u0, name + ": upper limit", rtol=1e-2, atol=1e-3)
        ev.tag(name)
    ev.tag(spec["kind"], c["expected"])
    ev.mark()


@st.composite
def side_case(draw):
    return {"spec": draw(S.model(kinds=CONVEX, min_bins=1, max_bins=3, tame=True, sig=(0.1, 1.0))), "m": draw(st.integers(1, 40)), "seed": draw(st.integers(0, 10**6)),
            "scale": draw(st.sampled_from([10.0, 100.0, 3000.0])), "mu": draw(S.num(0.1, 3, 2)), "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
            "first": draw(st.booleans())}


def check_side(c, ev):
    """Regions without signal that are independent of the others say nothing about the signal."""
    spec, rng, k, mu = c["spec"], np.random.RandomState(c["seed"]), c["m"], c["mu"]
    exp = models.expectation(c["expected"])
    b2 = np.round(c["scale"] * rng.uniform(0.5, 2, k), 3)
    add = {"b": b2.tolist(), "s": [0.0] * k, "data": [float(x) for x in rng.poisson(b2)], "unc": np.round(0.1 * b2, 4).tolist()}
    join = (lambda x, y: list(y) + list(x)) if c["first"] else (lambda x, y: list(x) + list(y))
    o = dict(spec)
    for key in ("b", "s", "data", "unc"):
        if key in spec:
            o[key] = join(spec[key], add[key])
    if "cov" in spec:
        n = len(spec["b"])
        cov = np.zeros((n + k, n + k))
        old, new = (slice(k, None), slice(0, k)) if c["first"] else (slice(0, n), slice(n, None))
        cov[old, old] = spec["cov"]
        cov[new, new] = np.diag(np.array(add["unc"]) ** 2)
        o["cov"] = cov.tolist()
    a, b = models.build(spec), models.build(o)
    d = [float(m.likelihood(mu, expected=exp)) - float(m.likelihood(0.5, expected=exp)) for m in (a, b)]
    require_close(d[1], d[0], "independent signal-free bins change likelihood ratios", rtol=1e-4, atol=1e-3)
    r = [m.maximize_likelihood(expected=exp, allow_negative_signal=False) for m in (a, b)]
    d = [float(m.likelihood(mu, expected=exp)) - float(x[1]) for m, x in zip((a, b), r)]
    require_close(d[1], d[0], "independent signal-free bins change the likelihood relative to its maximum", rtol=1e-3, atol=2e-3, muhat=[float(x[0]) for x in r])
    if d[0] > 0.02:
        require_allclose(cl(b, mu, exp), cl(a, mu, exp), "independent signal-free bins change the exclusion", rtol=0, atol=1e-2)
    u0, u1 = a.poi_upper_limit(expected=exp), b.poi_upper_limit(expected=exp)
    if np.isinf(u0) or np.isinf(u1):
        require(np.isinf(u0) and np.isinf(u1), "upper limit infinite with or without signal-free bins only", a=u0, b=u1)
    else:
        require_close(u1, u0, "independent signal-free bins change the upper limit", rtol=1e-2, atol=1e-3)
    ev.tag(spec["kind"], "counts:%g" % c["scale"])
    ev.mark(k > 3)


SUBS = [
    Sub("permutation", perm_case, check_perm, quick=1600, thorough=20000),
    Sub("signal_scale", scale_case, check_scale, quick=1200, thorough=15000),
    Sub("equivalent", equiv_case, check_equiv, quick=1600, thorough=20000),
    Sub("spectators", side_case, check_side, quick=100, thorough=3000, case_timeout=120),
    Sub("inference", infer_case, check_infer, quick=160, thorough=3000),
]

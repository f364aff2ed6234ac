"""P23: parameters are addressed by number, index or name interchangeably."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Inconclusive, Sub, require, require_allclose, require_close
from harness.reference import Ref

PROPERTY = "P23"
RULE = (
    "A case is a model with extra parameters and generated names, a subset of pinned parameters with values, and several "
    "addressing forms (number, index, name, mixtures, orders) sent through every entry point that accepts a tested point. "
    "Non-trivial: at least one parameter other than the signal strength is pinned or requested."
)
BUDGET = {"quick": 150, "thorough": 2400}
ASSUMPTIONS = ["Profiling of the unpinned parameters is compared with an independent minimiser for log-concave models (1e-3)."]
POOL = ["mu", "a", "b", "theta", "0", "1", "", "mu ", "nuis_0", "x y"]
CONVEX = ("uncorrelated", "correlated", "poisson", "normal", "mvn", "poisson_unc")


@st.composite
def case(draw):
    spec = draw(S.model(max_bins=3, tame=True, modifiers=True, signal_fn=True, small_unc=True, sig=(0.05, 0.8)))
    n = Ref(spec).npar
    names = list(draw(st.permutations(POOL + [f"p{i}" for i in range(n)])))[:n]
    pins = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(3, n), unique=True))
    if draw(st.integers(0, 5)) == 0:
        pins = list(draw(st.permutations(range(n))))
    vals = [draw(S.num(-0.3, 1.5, 2)) if i == 0 else draw(S.num(-0.9, 0.9, 2)) for i in pins]
    forms = draw(st.lists(st.tuples(st.integers(0, 63), st.integers(0, 5)), min_size=2, max_size=4))
    return {"spec": spec, "names": names, "pins": pins, "vals": vals, "forms": forms,
            "expected": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
            "req": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)),
            "entry": draw(st.sampled_from(["chi2", "chi2_den", "asimov", "sampler", "hessian", "maximum", "chi2_scan", "pinned_max"])),
            "seed": draw(st.integers(0, 99))}


def form(c, bits, order):
    """One way of writing the same tested point."""
    items = list(zip(c["pins"], c["vals"]))
    k = order % len(items)
    items = items[k:] + items[:k]
    if order >= 3:
        items = items[::-1]
    out = {}
    for j, (i, v) in enumerate(items):
        key = c["names"][i] if bits >> j & 1 else (np.int64(i) if bits >> (j + 3) & 1 else i)
        out[key] = v if bits % 5 else np.float64(v)
    return out


def check(c, ev):
    if c.get("__known__"):  # replay of the recorded finding: dictionary form of exclusion_confidence_level()
        import spey

        m = spey.get_backend("default.uncorrelated_background")(**c["model"])
        m.exclusion_confidence_level(poi_test={0: c["value"]})
        return
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    model.backend.config().parameter_names = list(c["names"])
    exp = models.expectation(c["expected"])
    rdata = ref.b if c["expected"] == "apriori" else ref.data
    pins, vals = c["pins"], c["vals"]
    base = {int(i): float(v) for i, v in zip(pins, vals)}
    # skip pins for which no free parameters can keep the rates positive
    full = np.zeros(ref.npar)
    for i, v in base.items():
        full[i] = v
    lam = np.asarray(ref.rate(full), float)
    if not (np.all(np.isfinite(lam)) and np.all(lam > 0.03 * np.array(spec["b"]))):
        c = dict(c, vals=[round(0.2 * abs(v), 3) for v in vals])
        vals = c["vals"]
        base = {int(i): float(v) for i, v in zip(pins, vals)}
    forms = [form(c, b, o) for b, o in c["forms"]]
    if pins == [0]:
        forms.append(vals[0])
        forms.append(np.float64(vals[0]))
        ev.tag("number")
    r0, p0 = model.likelihood(base, expected=exp, return_parameters=True)
    r0, p0 = float(r0), np.asarray(p0, float)
    for i, v in base.items():
        require_close(p0[i], v, "pinned parameter does not hold its value", rtol=0, atol=1e-9, index=i)
    for f in forms:
        r, p = model.likelihood(f, expected=exp, return_parameters=True)
        require_close(float(r), r0, "addressing forms disagree", rtol=1e-10, atol=1e-10, form=repr(f), base=base)
        require_allclose(p, p0, "parameters of the addressing forms disagree", rtol=1e-8, atol=1e-8)
    t = 2e-6 if ref.kind == "third" else 1e-9
    require_close(r0, float(ref.nll(p0, rdata)), "not the likelihood at the returned parameters", rtol=t, atol=1e-6)
    if len(pins) == ref.npar:
        plain = -float(model.backend.get_logpdf_func(expected=exp)(np.array([base[i] for i in range(ref.npar)])))
        require_close(r0, plain, "pinning everything is the plain likelihood", rtol=1e-12, atol=1e-12)
        ev.tag("all-pinned")
    elif ref.kind in CONVEX and not ref.nsp and not ref.mods:
        best, bp = ref.minimise(rdata, fixed=base, starts=[p0])
        if bp is not None and (0 in base or (ref.minimum_poi + 1e-3 < bp[0] < 9.9)):
            require(r0 <= best + 1e-3, "the other parameters are not profiled", got=r0, best=best)
            ev.tag("profiled")
    e = c["entry"]
    f = forms[0]
    if e in ("chi2", "chi2_den"):
        den = None if e == "chi2" else 0.3
        a = [float(model.chi2(poi_test=x, poi_test_denominator=den, expected=exp, allow_negative_signal=True)) for x in [base] + forms]
        require_allclose(a, [a[0]] * len(a), "chi2 differs between addressing forms", rtol=1e-9, atol=1e-9)
        if den is not None:
            d = float(model.likelihood(den, expected=exp))
            require_close(a[0], 2 * (r0 - d), "chi2 of the tested point", rtol=1e-9, atol=1e-8)
            d2 = float(model.chi2(poi_test=base, poi_test_denominator={c["names"][0]: den}, expected=exp))
            require_close(d2, a[0], "named denominator", rtol=1e-9, atol=1e-9)
        elif pins == [0] or 0 in base:
            pass
        else:
            b = float(model.chi2(poi_test=base, expected=exp, allow_negative_signal=False))
            if ref.kind in CONVEX and not ref.nsp and not ref.mods:
                require(b >= -1e-3, "chi2 of a parameter is negative (numerator and denominator use different regions)", chi2=b)
    elif e == "chi2_scan":
        k = pins[-1]
        scan = [vals[-1], vals[-1] * 0.5]
        i1 = dict(base)
        i1[k] = list(scan)
        n1 = {c["names"][i]: (np.array(scan) if i == k else v) for i, v in base.items()}
        a = np.asarray(model.chi2(poi_test=i1, expected=exp, allow_negative_signal=True), float)
        b = np.asarray(model.chi2(poi_test=n1, expected=exp, allow_negative_signal=True), float)
        require_allclose(a, b, "scan by name and by index", rtol=1e-9, atol=1e-9)
        _, m = model.maximize_likelihood(expected=exp)
        require_close(a[0], 2 * (r0 - m), "first point of the scan", rtol=1e-9, atol=1e-7)
    elif e == "asimov":
        a = [float(model.asimov_likelihood(x, expected=exp)) for x in [base] + forms]
        require_allclose(a, [a[0]] * len(a), "Asimov likelihood differs between addressing forms", rtol=1e-9, atol=1e-9)
    elif e == "sampler":
        outs = []
        for x in [base] + forms:
            np.random.seed(c["seed"])
            outs.append(np.asarray(model.fixed_poi_sampler(x, size=3, expected=exp), float))
        for o in outs[1:]:
            require_allclose(o, outs[0], "samples differ between addressing forms", rtol=1e-7, atol=1e-7)
    elif e == "hessian":
        try:
            a = [float(model.sigma_mu_from_hessian(x, expected=exp)) for x in [base] + forms]
        except np.linalg.LinAlgError:
            raise Inconclusive("singular Hessian")
        a = [-1.0 if math.isnan(v) else v for v in a]
        require_allclose(a, [a[0]] * len(a), "curvature differs between addressing forms", rtol=1e-6, atol=1e-9)
    elif e == "maximum":
        req = c["req"]
        byi, v1 = model.maximize_likelihood(expected=exp, poi_indices=list(req))
        byn, v2 = model.maximize_likelihood(expected=exp, poi_indices=[c["names"][i] for i in req])
        mu, v3 = model.maximize_likelihood(expected=exp)
        require(list(byi) == req and list(byn) == [c["names"][i] for i in req], "keys of the requested parameters", got=[list(byi), list(byn)])
        require_close(float(v1), float(v3), "maximum depends on the requested parameters", rtol=1e-9, atol=1e-9)
        require_close(float(v2), float(v3), "maximum depends on the requested parameters", rtol=1e-9, atol=1e-9)
        for i in req:
            require_close(float(byi[i]), float(byn[c["names"][i]]), "requested parameter by index and by name", rtol=1e-9, atol=1e-9)
            if i == 0:
                require_close(float(byi[i]), float(mu), "signal strength by index", rtol=1e-9, atol=1e-9)
        allp, _ = model.maximize_likelihood(expected=exp, poi_indices=list(range(ref.npar)))
        require_close(float(v3), float(ref.nll(np.array([allp[i] for i in range(ref.npar)]), rdata)),
                      "requested parameters are not the best fit", rtol=t, atol=1e-6)
        m = model.maximize_asimov_likelihood(expected=exp, poi_indices=[c["names"][i] for i in req])
        m2 = model.maximize_asimov_likelihood(expected=exp, poi_indices=list(req))
        for i in req:
            require_close(float(m2[0][i]), float(m[0][c["names"][i]]), "Asimov parameters by index and by name", rtol=1e-9, atol=1e-9)
    elif e == "pinned_max":
        mx, v = model.maximize_likelihood(expected=exp, fixed_poi_value=forms[0], poi_indices=list(range(ref.npar)))
        require_close(float(v), r0, "fit with pinned parameters", rtol=1e-9, atol=1e-8)
        for i, x in base.items():
            require_close(float(mx[i]), x, "fit does not pin", rtol=0, atol=1e-9)
    ev.tag(e)
    ev.tag(f"pins{len(pins)}")

    # rejected forms
    bad_name = "no such parameter"
    some = {0: 0.2} if pins[0] != 0 else ({1: 0.1} if ref.npar > 1 else {})
    bads = [{bad_name: 0.5}, dict(some, **{bad_name: 0.5}), {ref.npar: 0.5}, {-1: 0.5}, {c["names"][0] + "_": 0.1}, {0.5: 0.2},
            {ref.npar - 0.5: 0.2}, {0: 0.2, c["names"][0]: 0.3}, {c["names"][-1]: 0.1, ref.npar - 1: 0.1}]
    bad = bads[c["seed"] % len(bads)]
    for what, call in (
        ("likelihood", lambda x: model.likelihood(x, expected=exp)),
        ("chi2", lambda x: model.chi2(poi_test=x, expected=exp)),
        ("denominator", lambda x: model.chi2(poi_test=0.5, poi_test_denominator=x, expected=exp)),
        ("asimov_likelihood", lambda x: model.asimov_likelihood(x, expected=exp)),
        ("sampler", lambda x: model.fixed_poi_sampler(x, size=2, expected=exp)),
        ("hessian", lambda x: model.sigma_mu_from_hessian(x, expected=exp)),
        ("maximum", lambda x: model.maximize_likelihood(expected=exp, poi_indices=list(x))),
    ):
        if what == "maximum" and not any(isinstance(k, str) and k not in c["names"] for k in bad):
            continue
        rejects(call, bad, what)
    if c["seed"] % 4 == 0:
        model = models.build(spec)  # maxima are memoised per model, names are part of the model
        model.backend.config().parameter_names = None
        rejects(lambda x: model.likelihood(x, expected=exp), {c["names"][0]: 0.5}, "unnamed model")
        rejects(lambda x: model.maximize_likelihood(expected=exp, poi_indices=[c["names"][0]]), None, "unnamed maximum")
        ev.tag("unnamed")
    ev.mark(any(i != 0 for i in pins) or c["req"] != [0])


def rejects(call, x, what):
    try:
        out = call(x)
    except (ValueError, IndexError, KeyError):
        return
    require(False, "unknown or unnamed parameter accepted", entry=what, tested=repr(x), result=repr(out))


@st.composite
def interval_case(draw):
    spec = draw(S.model(kinds=("uncorrelated", "correlated", "mvn", "normal"), max_bins=2, tame=True, small_unc=True, sig=(0.1, 0.6),
                        signal_fn=True))
    n = Ref(spec).npar
    return {"spec": spec, "names": list(draw(st.permutations(POOL)))[:n], "idx": draw(st.integers(1, max(1, n - 1))),
            "poi": draw(st.one_of(st.none(), S.num(0, 1.2, 1))), "cl": draw(st.sampled_from([0.5, 0.68]))}


def check_interval(c, ev):
    ref = Ref(c["spec"])
    if c["idx"] >= ref.npar or len(c["names"]) < ref.npar:
        ev.tag("single")
        return
    model = models.build(c["spec"])
    model.backend.config().parameter_names = list(c["names"])
    from spey.base.utils import resolve_parameter_index

    cfg = model.backend.config()
    require(resolve_parameter_index(c["names"][c["idx"]], cfg) == c["idx"], "name resolution")
    require(resolve_parameter_index(c["idx"], cfg) == c["idx"], "index resolution")
    # a configuration with the signal strength elsewhere in the list
    from spey.base import ModelConfig

    k = c["idx"]
    other = ModelConfig(k, -1.0, [1.0] * ref.npar, [(None, None)] * ref.npar, parameter_names=list(c["names"]))
    require(resolve_parameter_index(0, other) == 0, "the first parameter, with the signal strength elsewhere")
    require(resolve_parameter_index(c["names"][0], other) == 0, "the first parameter by name, with the signal strength elsewhere")
    rejects(lambda x: resolve_parameter_index(x, other), k, "index of a signal strength that is not first")
    require(other.resolve_poi_indices(0.5) == {k: 0.5}, "a number is the signal strength wherever it is listed")
    try:
        got = resolve_parameter_index(c["names"][0], cfg)
    except ValueError:
        got = 0  # the strength may be refused like its index is, but never mistaken for another parameter
    require(got == 0, "the name of the signal strength resolves to another parameter", got=got)
    for bad in ("no such", -1, ref.npar, 0, c["names"][0]):
        if bad == c["names"][0]:
            continue
        try:
            resolve_parameter_index(bad, cfg)
        except ValueError:
            continue
        require(False, "invalid parameter accepted", parameter=bad)
    ev.mark(True)


SUBS = [
    Sub("forms", case, check, quick=1500, thorough=30000),
    Sub("resolve", interval_case, check_interval, quick=400, thorough=4000),
]

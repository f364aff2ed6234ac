"""P10: results are pure: histories of queries on live models vs fresh models."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, Violation, require
from harness.reference import Ref

PROPERTY = "P10"
RULE = (
    "A case is a set of 1-3 model specifications and a history of 3-12 queries (method, target model or "
    "their combination, options, argument forms), interleaved with mutations of previously returned "
    "objects. Every answer of the live objects is compared with the answer of freshly built objects to "
    "that query alone. Non-trivial: at least two different queries hit the same target."
)
BUDGET = {"quick": 120, "thorough": 3000}
METHODS = [
    "likelihood", "likelihood", "maximize", "maximize", "maximize", "asimov", "max_asimov", "max_asimov",
    "gen_asimov", "gen_asimov", "sampler", "sigma", "chi2", "pull", "cls", "cls_chi2", "significance", "limit",
    "config", "expected_data", "logpdf",
]
COMB = ["likelihood", "maximize", "asimov", "max_asimov", "gen_asimov", "likelihood", "maximize", "max_asimov",
        "gen_asimov", "chi2", "cls", "limit", "minimum_poi"]


@st.composite
def query(draw, nspec, npars):
    tgt = draw(st.integers(0, nspec)) if nspec > 1 else 0
    comb = tgt == nspec
    q = {
        "t": tgt,
        "m": draw(st.sampled_from(COMB if comb else METHODS)),
        "e": draw(st.sampled_from(["observed", "aposteriori", "apriori"])),
        "mu": draw(st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.3])),
        "nll": draw(st.sampled_from([True, True, False])),
        "neg": draw(st.booleans()),
        "stat": draw(st.sampled_from(["q", "qtilde", "q0"])),
        "data": draw(st.sampled_from([None, None, None, "list", "int", "array"])),
        "scale": draw(st.sampled_from([0.8, 1.0, 1.1])),
        "init": draw(st.sampled_from([None, None, 0.5, 1.5])),
        "bounds": draw(st.sampled_from([None, None, 2.0, 6.0])),
        "poi": draw(st.sampled_from([None, None, "int", "name", "both"])),
        "pin": draw(st.sampled_from([None, None, None, "float", "dict", "mixed"])),
        "form": draw(st.sampled_from(["float", "float", "dict", "params"])),
        "constraints": draw(st.sampled_from([False, False, True])),
        "pos": draw(st.booleans()),
        "seed": draw(st.integers(0, 3)),
        "mutate": draw(st.booleans()),
    }
    return q


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    kinds = ("uncorrelated", "correlated", "poisson", "normal", "mvn")
    if n == 1:
        kinds += ("poisson_unc", "effsig", "third")
    specs = [
        draw(S.model(kinds=kinds, max_bins=2, tame=True, sig=(0.2, 1.0), modifiers=n == 1, signal_fn=False))
        for _ in range(n)
    ]
    k = draw(st.integers(3, 12))
    qs = [draw(query(n, 0)) for _ in range(k)]
    # duplicates with one option changed are the interesting histories
    if draw(st.booleans()):
        j = draw(st.integers(0, k - 1))
        d = dict(qs[j])
        f = draw(st.sampled_from(["e", "nll", "neg", "stat", "data", "scale", "init", "bounds", "poi", "pin", "mu"]))
        d[f] = draw(query(n, 0))[f]
        qs.append(d)
        qs.append(dict(qs[j]))
    return {"specs": specs, "q": qs}


def build_all(specs):
    import spey

    ms = [models.build(s, analysis=f"ana{i}", xsection=0.1 * (i + 1)) for i, s in enumerate(specs)]
    if len(ms) > 1:
        ms.append(spey.UnCorrStatisticsCombiner(*ms))
    return ms


def arguments(q, spec, comb, specs):
    """Fresh argument objects of a query (they must come back unchanged)."""
    ref = None if comb else Ref(spec)
    out = {"expected": models.expectation(q["e"])}
    m = q["m"]

    def dat(sp):
        d = [x * q["scale"] for x in sp["b"]]
        if q["data"] == "int":
            return [int(round(x)) for x in d]
        return np.array(d) if q["data"] == "array" else d

    if q["data"] is not None and m in ("likelihood", "maximize"):
        out["data"] = {f"ana{i}": dat(sp) for i, sp in enumerate(specs)} if comb else dat(spec)
    if not comb:
        if q["init"] is not None and m in ("likelihood", "maximize", "asimov", "max_asimov", "gen_asimov", "sampler", "sigma", "chi2"):
            out["init_pars"] = [q["init"]] * ref.npar
        if q["bounds"] is not None and m in ("likelihood", "maximize", "asimov", "max_asimov", "gen_asimov"):
            out["par_bounds"] = [(0.0, q["bounds"])] + [(None, None)] * (ref.npar - 1)
        if q["constraints"] and m in ("likelihood", "maximize", "sampler", "sigma"):
            out["constraints"] = []
        if m in ("maximize", "max_asimov") and q["poi"]:
            names = None
            out["poi_indices"] = {"int": [0], "name": ["mu"], "both": [0, ref.npar - 1]}[q["poi"]]
            del names
        if m == "maximize" and q["pin"]:
            out["fixed_poi_value"] = {"float": 0.7, "dict": {0: 0.7}, "mixed": {0: 0.7}}[q["pin"]]
            if q["pin"] == "mixed" and ref.npar > 1:
                out["fixed_poi_value"] = {0: 0.7, ref.npar - 1: 0.2}
    elif q["bounds"] is not None and m in ("maximize", "max_asimov"):
        out["par_bounds"] = [(0.0, q["bounds"])]
    if m == "chi2":
        mu = q["mu"]
        forms = [mu, mu, [mu, 0.4], np.array([mu, 0.4])] if comb else [mu, {0: [mu, 0.4]}, [mu, 0.4], {0: np.array([0.4, mu])}]
        out["poi_test"] = forms[q["seed"]]
        if not comb and q["pin"]:
            out["poi_test_denominator"] = 0.7 if q["pin"] == "float" else {0: 0.7}
    if m in ("likelihood", "maximize", "asimov", "max_asimov"):
        out["return_nll"] = q["nll"]
    return out


def run(q, target, comb, a, ref):
    mu = q["mu"]
    m = q["m"]
    if not comb and q["form"] == "dict":
        mu = {0: mu}
    if m == "likelihood":
        if not comb and q["form"] == "params":
            return target.likelihood(mu, return_parameters=True, **a)
        return target.likelihood(mu, **a)
    if m == "maximize":
        a["allow_negative_signal"] = q["neg"]
        if q["pos"]:
            e = a.pop("expected")
            r = a.pop("return_nll")
            return target.maximize_likelihood(r, e, **a)
        return target.maximize_likelihood(**a)
    if m == "asimov":
        return target.asimov_likelihood(mu, test_statistics=q["stat"], **a)
    if m == "max_asimov":
        return target.maximize_asimov_likelihood(test_statistics=q["stat"], **a)
    if m == "gen_asimov":
        return target.generate_asimov_data(test_statistic=q["stat"], **a)
    if m == "sampler":
        np.random.seed(q["seed"])
        return target.fixed_poi_sampler(mu, size=2, **a)
    if m == "sigma":
        return target.sigma_mu_from_hessian(q["mu"], **a)
    if m == "chi2":
        return target.chi2(allow_negative_signal=q["neg"], **a)
    if m == "pull":
        return target.pull(q["mu"], **a)
    if m == "cls":
        return target.exclusion_confidence_level(max(q["mu"], 0.5), allow_negative_signal=q["neg"], **a)
    if m == "cls_chi2":
        return target.exclusion_confidence_level(max(q["mu"], 0.5), calculator="chi_square", **a)
    if m == "significance":
        return target.significance(**a)
    if m == "limit":
        return target.poi_upper_limit(**a)
    if m == "config":
        c = target.backend.config(allow_negative_signal=q["neg"], poi_upper_bound=q["bounds"] or 10.0)
        return [c.poi_index, c.minimum_poi, c.suggested_init, c.suggested_bounds, c.parameter_names, c.npar]
    if m == "expected_data":
        return target.backend.expected_data(np.full(ref.npar, 0.3))
    if m == "logpdf":
        return target.backend.get_logpdf_func(expected=a["expected"])(np.full(ref.npar, 0.3))
    if m == "minimum_poi":
        return target.minimum_poi
    raise AssertionError(m)


def outcome(q, target, comb, a, ref):
    try:
        return ("value", run(q, target, comb, a, ref))
    except Violation:
        raise
    except Exception as err:  # pylint: disable=broad-except
        return ("error", type(err).__name__)


def same(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
    if isinstance(x, (float, np.floating)) or isinstance(y, (float, np.floating)):
        return x is not None and y is not None and (float(x) == float(y) or (x != x and y != y))
    return x == y


def scramble(x):
    """Mutate a returned object in place."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu" and x.ndim:
        x[...] = 77
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, dict, np.ndarray, tuple)):
                scramble(v)
            else:
                x[i] = -55.0
    elif isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, (list, dict, np.ndarray, tuple)):
                scramble(v)
            else:
                x[k] = -55.0
    elif isinstance(x, tuple):
        for v in x:
            scramble(v)


def snapshot(ms, n):
    out = []
    for m in ms[:n]:
        c = m.backend.config()
        out.append(copy.deepcopy([c.poi_index, c.minimum_poi, c.suggested_init, c.suggested_bounds,
                                  c.parameter_names, c.suggested_fixed, len(m.backend.constraints)]))
    return out


def check(c, ev):
    specs = c["specs"]
    live = build_all(specs)
    before = snapshot(live, len(specs))
    seen = {}
    for k, q in enumerate(c["q"]):
        comb = q["t"] == len(specs)
        if not comb and q["m"] == "minimum_poi":
            continue
        spec = None if comb else specs[q["t"]]
        ref = None if comb else Ref(spec)
        a = arguments(q, spec, comb, specs)
        keep = copy.deepcopy({x: y for x, y in a.items() if x != "expected"})
        ids = dict(a)
        got = outcome(q, live[q["t"]], comb, a, ref)
        for name, v in keep.items():
            require(same(ids[name], v), "the query changed the caller's argument " + name, query=q, k=k, before=v, after=ids[name])
        fresh = build_all(specs)
        want = outcome(q, fresh[q["t"]], comb, arguments(q, spec, comb, specs), ref)
        require(same(got, want), "answer depends on the history", query=q, k=k, live=got, fresh=want)
        require(same(snapshot(live, len(specs)), before), "the query changed the model configuration", query=q, k=k,
                before=before, after=snapshot(live, len(specs)))
        if q["mutate"] and q["m"] != "config":
            scramble(got[1])
            ev.tag("mutated-result")
        ev.tag(("comb:" if comb else "") + q["m"], "error" if got[0] == "error" else "value")
        seen.setdefault(q["t"], set()).add(q["m"])
    ev.mark(any(len(v) > 1 for v in seen.values()))


SUBS = [Sub("history", case, check, quick=220, thorough=4000, case_timeout=20)]

"""P30: matrix and bin-merging helpers are exact linear-algebra identities."""
import numpy as np
from hypothesis import strategies as st

from harness import strategies as S
from harness.core import Sub, require, require_allclose

PROPERTY = "P30"
RULE = (
    "matrices: a correlation matrix (positive definite, singular or block) and standard deviations over ten orders of magnitude, "
    "converted both ways. merge: 1-9 bins with integer or real yields, a covariance and a grouping (lists, tuples, arrays, negative "
    "positions, any order), valid or with one defect. Non-trivial: off-diagonal elements; for merging a group of several bins and an "
    "untouched bin, or a rejected input. The oracle is explicit summation with Python integers/floats and an aggregation matrix."
)
BUDGET = {"quick": 90, "thorough": 1200}


@st.composite
def matrix_case(draw):
    n = draw(st.integers(1, 7))
    return {
        "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]],
        "sd": [draw(st.one_of(S.num(0.1, 50, 2), st.sampled_from([1e-5, 1e-3, 1e4, 3e5]))) for _ in range(n)],
        "form": draw(st.sampled_from(["array", "list", "fortran", "readonly", "f4"])),
        "full": draw(st.sampled_from(["plain", "plain", "singular", "block"])),
    }


def matrix_check(c, ev):
    import spey.helper_functions as H

    rho, sd = np.array(c["rho"], dtype=float), np.array(c["sd"], dtype=float)
    n = len(sd)
    if c["full"] == "singular" and n > 1:
        rho[0, :] = rho[1, :]
        rho[:, 0] = rho[:, 1]
        rho[0, 0] = rho[0, 1] = rho[1, 0] = 1.0
    elif c["full"] == "block" and n > 2:
        rho[0, 1:] = rho[1:, 0] = 0.0
    tol = 1e-5 if c["form"] == "f4" else 1e-12

    def form(x):
        if c["form"] == "list":
            return x.tolist()
        if c["form"] == "fortran":
            return np.asfortranarray(x)
        if c["form"] == "f4":
            return x.astype(np.float32)
        x = x.copy()
        x.setflags(write=c["form"] != "readonly")
        return x

    a, b = form(rho), form(sd)
    keep = np.array(a, copy=True), np.array(b, copy=True)
    cov = np.asarray(H.correlation_to_covariance(a, b))
    require(np.array_equal(keep[0], a) and np.array_equal(keep[1], b), "the inputs changed")
    want = np.array([[rho[i, j] * sd[i] * sd[j] for j in range(n)] for i in range(n)])
    scale = np.outer(sd, sd)
    require_allclose(cov / scale, want / scale, "covariance elements", rtol=tol, atol=tol)
    back = np.asarray(H.covariance_to_correlation(form(cov)))
    require_allclose(back, rho, "the correlation matrix does not survive the round trip", rtol=tol * 10, atol=tol * 10)
    require_allclose(np.diag(back), np.ones(n), "diagonal of a correlation matrix", rtol=tol * 10, atol=0)
    require(np.all(np.abs(back) <= 1 + 10 * tol), "correlations above one", got=float(np.abs(back).max()))
    require_allclose(back, back.T, "a correlation matrix is symmetric", rtol=tol, atol=tol)
    # the other direction, from a covariance with its own standard deviations
    again = np.asarray(H.correlation_to_covariance(H.covariance_to_correlation(form(want)), np.sqrt(np.diag(want))))
    require_allclose(again / scale, want / scale, "the covariance matrix does not survive the round trip", rtol=10 * tol, atol=10 * tol)
    scaled = np.asarray(H.covariance_to_correlation(form(want * 7.25)))
    require_allclose(scaled, back, "correlations depend on the scale of the covariance", rtol=20 * tol, atol=20 * tol)
    ev.mark(n > 1 and np.any(np.abs(rho - np.eye(n)) > 1e-6))
    ev.tag(c["form"])


@st.composite
def merge_case(draw):
    n = draw(st.one_of(st.integers(1, 9), st.integers(10, 14)))
    perm = draw(st.permutations(list(range(n))))
    used = draw(st.integers(0, n))
    groups, cur = [], []
    for i in perm[:used]:
        cur.append(i)
        if draw(st.booleans()):
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    return {
        "n": n, "groups": groups, "neg": draw(st.lists(st.booleans(), min_size=n, max_size=n)) if draw(st.integers(0, 3)) == 0 else None,
        "b": draw(S.vec(n, 0.1, 60, 2)), "s": draw(st.one_of(st.none(), S.vec(n, 0, 30, 2))), "d": [draw(st.integers(0, 90)) for _ in range(n)],
        "int": draw(st.booleans()), "rho": draw(S.corr_matrix(n)) if n > 1 else [[1.0]], "sd": draw(S.vec(n, 0.2, 9, 2)),
        "indices": draw(st.booleans()), "wrap": draw(st.sampled_from(["list", "list", "tuple", "array"])),
        "bad": draw(st.sampled_from([None] * 6 + ["overlap", "within", "alias", "data", "signal", "cov", "rect", "range", "background"])),
        "pick": draw(st.integers(0, 99)),
    }


def merge_check(c, ev):
    from spey.helper_functions import merge_correlated_bins

    n, groups = c["n"], [list(g) for g in c["groups"]]
    cast = (lambda x: np.array(np.round(x), dtype=int)) if c["int"] else (lambda x: np.array(x, dtype=float))
    bkg, data = cast(c["b"]), np.array(c["d"], dtype=int if c["int"] else float)
    sig = cast(c["s"]) if c["s"] is not None else None
    sd = np.array(c["sd"])
    cov = np.array(c["rho"]) * np.outer(sd, sd)
    if c["int"]:
        cov = np.round(cov).astype(int)
    k = c["pick"]
    bad = c["bad"]
    flat = [i for g in groups for i in g]
    if bad in ("overlap", "within", "alias") and not flat:
        bad = None
    if bad == "overlap":
        groups.append([flat[k % len(flat)]])
    elif bad == "within":
        groups[k % len(groups)].append(groups[k % len(groups)][0])
    elif bad == "alias":
        groups.append([flat[k % len(flat)] - n])
    elif bad == "data":
        data = np.append(data, 3)
    elif bad == "background":
        bkg = bkg[:-1]
    elif bad == "signal":
        sig = np.ones(n + 1)
    elif bad == "cov":
        cov = np.eye(n + 1)
    elif bad == "rect":
        cov = np.ones((n, n + 1))
    elif bad == "range":
        groups.append([n + k % 3])
    call = groups
    if c["neg"] is not None and bad is None:
        call = [[i - n if c["neg"][i] else i for i in g] for g in groups]
    wrap = {"list": list, "tuple": tuple, "array": np.array}[c["wrap"]]
    call = [wrap(g) for g in call]
    kw = {"return_group_indices": True} if c["indices"] else {}
    if sig is not None:
        kw["signal_yields"] = sig
    keep = [np.array(x, copy=True) for x in (bkg, data, cov)]
    keep_groups = [list(g) for g in call]
    try:
        out = merge_correlated_bins(bkg, data, cov, call, **kw)
    except (AssertionError, IndexError, ValueError) as err:
        require(bad is not None, "a valid grouping is rejected", error=repr(err), groups=call)
        require(isinstance(err, AssertionError) or bad == "range", "the documented assertion is not raised", error=repr(err), bad=bad)
        ev.tag("rejected-" + bad)
        ev.mark()
        return
    require(bad is None, "invalid input accepted", bad=bad, groups=[list(map(int, g)) for g in call], out={k2: np.asarray(v, dtype=object).tolist() for k2, v in out.items()})
    require(all(np.array_equal(a, b) for a, b in zip(keep, (bkg, data, cov))) and [list(g) for g in call] == keep_groups, "the inputs changed")
    rest = [[i] for i in range(n) if i not in flat]
    full = groups + rest
    require(sorted(out) == sorted(["background_yields", "data", "covariance_matrix"] + (["signal_yields"] if sig is not None else [])
                                  + (["group_indices"] if c["indices"] else [])), "keys of the result", got=sorted(out))
    tol = 1e-12
    # the order of the untouched bins is the original one; groups come first as given
    for key, x in (("background_yields", bkg), ("data", data), ("signal_yields", sig)):
        if x is None:
            continue
        want = [float(sum(x[i] for i in g)) for g in full]
        require_allclose(out[key], want, "merged " + key, rtol=tol, atol=1e-12)
        require(abs(float(np.sum(out[key])) - float(np.sum(x))) <= 1e-9 * max(1, abs(float(np.sum(x)))), "total of " + key)
    agg = np.zeros((len(full), n))
    for r, g in enumerate(full):
        agg[r, g] = 1.0
    require_allclose(out["covariance_matrix"], agg @ cov @ agg.T, "merged covariance", rtol=1e-11, atol=1e-11)
    require(abs(float(np.sum(out["covariance_matrix"])) - float(np.sum(cov))) <= 1e-9 * max(1, float(np.sum(np.abs(cov)))), "total of the covariance")
    if c["indices"]:
        got = [[int(i) % n for i in g] for g in out["group_indices"]]
        require(got == full, "group indices", got=got, expected=full)
        require_allclose([sum(np.array(c["b"])[list(g)]) for g in out["group_indices"]], [sum(c["b"][i] for i in g) for g in full], "documented use of the indices")
    # merging the result into a single bin gives the grand totals (merging twice = merging once)
    m = len(full)
    once = merge_correlated_bins(out["background_yields"], out["data"], out["covariance_matrix"], [list(range(m))])
    require_allclose([once["background_yields"][0], once["data"][0], once["covariance_matrix"][0, 0]],
                     [float(np.sum(bkg)), float(np.sum(data)), float(np.sum(cov))], "merging twice differs from merging once", rtol=1e-9, atol=1e-9)
    ev.mark(any(len(g) > 1 for g in groups) and len(rest) > 0)
    ev.tag(f"groups-{min(len(groups), 4)}")


@st.composite
def model_case(draw):
    n = draw(st.integers(2, 4))
    return {"b": draw(S.vec(n, 5, 60, 1)), "s": draw(S.vec(n, 0.5, 10, 1)), "d": [draw(st.integers(2, 70)) for _ in range(n)],
            "rho": draw(S.corr_matrix(n)), "sd": draw(S.vec(n, 0.5, 6, 1)), "cut": draw(st.integers(1, n)), "mu": draw(S.num(0, 2, 2))}


def model_check(c, ev):
    """A model made from merged yields is the model of the aggregated counts."""
    import spey
    from harness.reference import Ref
    from spey.helper_functions import merge_correlated_bins

    n = len(c["b"])
    cov = np.array(c["rho"]) * np.outer(c["sd"], c["sd"])
    out = merge_correlated_bins(np.array(c["b"]), np.array(c["d"]), cov, [list(range(c["cut"]))], signal_yields=np.array(c["s"]))
    m = spey.get_backend("default.correlated_background")(signal_yields=out["signal_yields"], background_yields=out["background_yields"],
                                                          data=out["data"], covariance_matrix=out["covariance_matrix"])
    agg = np.zeros((n - c["cut"] + 1, n))
    agg[0, : c["cut"]] = 1.0
    for r in range(1, agg.shape[0]):
        agg[r, c["cut"] + r - 1] = 1.0
    ref = Ref({"kind": "correlated", "b": (agg @ c["b"]).tolist(), "s": (agg @ c["s"]).tolist(), "data": (agg @ c["d"]).tolist(),
               "cov": (agg @ cov @ agg.T).tolist()})
    p = np.zeros(ref.npar)
    p[0] = c["mu"]
    for off in (0.0, 0.4):
        p[1:] = off
        got = float(m.backend.get_logpdf_func()(p))
        require(abs(got - float(ref.logpdf(p))) <= 1e-8 * max(1, abs(got)), "density of a merged model", got=got, expected=float(ref.logpdf(p)))
    ev.mark(1 < c["cut"] < n)


SUBS = [
    Sub("matrices", matrix_case, matrix_check, quick=1200, thorough=40000),
    Sub("merge", merge_case, merge_check, quick=2400, thorough=100000),
    Sub("model", model_case, model_check, quick=200, thorough=6000),
]

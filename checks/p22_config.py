"""P22: model configurations are internally consistent."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_close
from harness.reference import Ref

PROPERTY = "P22"
RULE = (
    "A case is a built-in model of any kind with a sequence of configuration requests (bound changes, tested values, "
    "multi-parameter pins), or a free-standing configuration with generated bounds/names and a sequence of renamings and "
    "bound requests. Non-trivial: a requested bound change differs from the default or a tested value leaves the bounds."
)
BUDGET = {"quick": 120, "thorough": 1500}
# values of the signal strength, relative to |minimum_poi| when negative
VAL = st.one_of(S.num(-0.999, 15, 3), st.integers(0, 30).map(float), st.sampled_from([-1.0, 0.0, 10.0]))


def snap(cfg):
    return {k: copy.deepcopy(getattr(cfg, k)) for k in
            ("poi_index", "minimum_poi", "suggested_init", "suggested_bounds", "parameter_names", "suggested_fixed")}


def same(a, b):
    return repr(a) == repr(b)


def well_formed(cfg, lo, what):
    n = cfg.npar
    require(n == len(cfg.suggested_init) == len(cfg.suggested_bounds), f"{what}: lengths differ",
            init=len(cfg.suggested_init), bounds=len(cfg.suggested_bounds))
    require(0 <= cfg.poi_index < n, f"{what}: poi index")
    if cfg.parameter_names is not None:
        require(len(cfg.parameter_names) == n, f"{what}: number of names", names=cfg.parameter_names, npar=n)
        require(len(set(cfg.parameter_names)) == n, f"{what}: names not unique", names=cfg.parameter_names)
    for i, (x, (l, h)) in enumerate(zip(cfg.suggested_init, cfg.suggested_bounds)):
        require((l is None or l <= x) and (h is None or x <= h), f"{what}: start value outside its bounds", index=i,
                init=x, bounds=[l, h])


@st.composite
def model_case(draw):
    spec = draw(S.model(max_bins=4, signal_fn=True, modifiers=True))
    if draw(st.integers(0, 5)) == 0 and spec["kind"] in ("uncorrelated", "poisson", "correlated"):
        spec["b"][draw(st.integers(0, len(spec["b"]) - 1))] = 0.0
    if "s" in spec and draw(st.integers(0, 3)) == 0 and len(spec["s"]) > 1 and not spec.get("mods"):
        j = draw(st.integers(0, len(spec["s"]) - 1))
        if any(x > 0 for i, x in enumerate(spec["s"]) if i != j):
            spec["s"][j] = -abs(spec["s"][j])
    reqs = []
    for _ in range(draw(st.integers(2, 8))):
        reqs.append([draw(st.sampled_from(["config", "rescale", "rescale_none", "fixed", "multi", "none"])),
                     draw(st.booleans()), draw(st.one_of(st.just(10.0), S.num(1.1, 40, 2), st.integers(2, 50).map(float))),
                     draw(VAL), draw(st.integers(0, 5)), draw(S.num(-4, 30, 2))])
    return {"spec": spec, "reqs": reqs}


def check_model(c, ev):
    spec = c["spec"]
    ref = Ref(spec)
    model = models.build(spec)
    cfg = model.backend.config()
    lo = ref.minimum_poi
    require(cfg.npar == ref.npar, "number of parameters", got=cfg.npar, expected=ref.npar)
    if math.isinf(lo):
        require(cfg.minimum_poi == -np.inf, "minimum without a positive signal", got=cfg.minimum_poi)
    else:
        require_close(cfg.minimum_poi, lo, "minimum_poi is -min(b/s)", rtol=1e-12, atol=1e-300)
        b, s = np.array(spec["b"]), np.array(spec["s"])
        pos = s > 0
        lam = (b + cfg.minimum_poi * s)[pos]
        require(np.all(lam >= -1e-9 * np.maximum(1, b[pos])), "minimum_poi makes a bin negative", lam=lam)
        require(np.min(np.abs(lam) / np.maximum(1, b[pos])) <= 1e-9, "minimum_poi is not the smallest allowed value", lam=lam)
        for v in (cfg.minimum_poi * (1 + 1e-6) - 1e-6,):
            require(np.any((b + v * s)[pos] < 0), "a smaller value would be allowed")
    well_formed(cfg, lo, "default")
    require(cfg.suggested_bounds[cfg.poi_index][1] == 10.0, "default upper bound", b=cfg.suggested_bounds[0])
    low = cfg.suggested_bounds[cfg.poi_index][0]
    require((low is None) if False else (low == cfg.minimum_poi), "default lower bound is the minimum", low=low)
    if "sfun" in spec and spec["sfun"].get("bounds") is not None:
        for k, bb in enumerate(spec["sfun"]["bounds"]):
            require(tuple(cfg.suggested_bounds[1 + k]) == tuple(bb), "bounds of the signal parameters", k=k)
    before = snap(cfg)
    p = cfg.poi_index
    for kind, neg, ub, val, idx, other in c["reqs"]:
        if kind == "config":
            new = model.backend.config(allow_negative_signal=neg, poi_upper_bound=ub)
            well_formed(new, lo, "requested")
            require(new.poi_index == p and same(new.minimum_poi, cfg.minimum_poi), "index/minimum changed")
            exp = (cfg.minimum_poi if neg else 0.0, ub)
            require(new.suggested_bounds[p][0] == exp[0] and new.suggested_bounds[p][1] == exp[1],
                    "requested bounds of the signal strength", got=new.suggested_bounds[p], expected=exp)
            require(same([tuple(x) for i, x in enumerate(new.suggested_bounds) if i != p],
                         [tuple(x) for i, x in enumerate(before["suggested_bounds"]) if i != p]), "other bounds changed")
            require(same(list(new.suggested_init), list(before["suggested_init"])), "start values changed")
            require(new.parameter_names == before["parameter_names"], "names changed", got=new.parameter_names)
            if not neg or ub != 10.0:
                ev.tag("config-options")
        elif kind in ("rescale", "rescale_none"):
            u = ub if kind == "rescale" else None
            new = cfg.rescale_poi_bounds(allow_negative_signal=neg, poi_upper_bound=u)
            exp = (cfg.minimum_poi if neg else 0.0, 10.0 if u is None else u)
            require(len(new) == cfg.npar and tuple(new[p]) == exp, "rescaled bounds of the signal strength", got=new[p], expected=exp)
            require(all(same(tuple(a), tuple(b)) for i, (a, b) in enumerate(zip(new, before["suggested_bounds"])) if i != p),
                    "other bounds changed")
            for i in range(len(new)):
                new[i] = ("poisoned", i)
            ev.tag("rescale")
        else:
            if val < 0:
                val = val * (min(abs(lo), 5.0) if math.isfinite(lo) else 5.0)
            if kind == "fixed":
                new = cfg.fixed_poi_bounds(val)
                pins = {p: val}
            elif kind == "none":
                new = cfg.fixed_poi_bounds(None) if neg else cfg.fixed_poi_bounds_multi({} if idx % 2 else None)
                pins = {}
                require(same([tuple(x) for x in new], [tuple(x) for x in before["suggested_bounds"]]), "bounds without a tested value")
            else:
                pins = {p: val} if neg else {}
                pins[idx % cfg.npar] = val if idx % cfg.npar == p else other
                new = cfg.fixed_poi_bounds_multi(dict(pins))
            require(len(new) == cfg.npar, "number of bounds")
            for i, x in pins.items():
                l, h = new[i]
                require((l is None or l <= x) and (h is None or x <= h), "bounds do not contain the tested value", index=i,
                        value=x, bounds=[l, h])
                bl, bh = before["suggested_bounds"][i]
                if (bl is not None and x <= bl) or (bh is not None and x >= bh):
                    ev.tag("outside")
                else:
                    require(same(tuple(new[i]), tuple(before["suggested_bounds"][i])), "bounds changed although they contain the value")
            for i in range(cfg.npar):
                if i not in pins:
                    require(same(tuple(new[i]), tuple(before["suggested_bounds"][i])), "bounds of another parameter changed", i=i)
            for i in range(len(new)):
                new[i] = ("poisoned", i)
        require(same(snap(model.backend.config()), before), "the configuration changed", request=kind,
                now=snap(model.backend.config()), before=before)
    ev.tag(spec["kind"])
    ev.mark(any(r[0] in ("config", "rescale") and (not r[1] or r[2] != 10.0) for r in c["reqs"]) or "outside" in getattr(ev, "tags", ()))


NAMES = ["mu", "a", "b", "c", "theta_0", "theta_1", "", "a b"]


@st.composite
def cfg_case(draw):
    n = draw(st.integers(1, 5))
    names = draw(st.permutations(NAMES))[:n]
    bnds = []
    for _ in range(n):
        k = draw(st.integers(0, 3))
        l, h = draw(S.num(-8, 0.5, 2)), draw(S.num(1, 12, 2))
        bnds.append([(l, h), (None, h), (l, None), (None, None)][k])
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        if draw(st.booleans()):
            m = draw(st.dictionaries(st.sampled_from(NAMES), st.sampled_from(NAMES + ["x", "y"]), min_size=0, max_size=4))
            ops.append(["rename", [[k, v] for k, v in m.items()]])
        else:
            pins = draw(st.dictionaries(st.integers(0, n - 1), S.num(-12, 20, 2), max_size=3))
            ops.append(["pin", [[k, v] for k, v in pins.items()]])
    return {"n": n, "poi": draw(st.integers(0, n - 1)), "names": list(names), "bounds": bnds, "min": draw(S.num(-9, 0, 2)), "ops": ops}


def check_cfg(c, ev):
    from spey.base import ModelConfig

    poi = c["poi"]
    bounds = [tuple(b) for b in c["bounds"]]
    if all(x is not None for x in bounds[poi]) or c["n"] % 2:
        bounds[poi] = (c["min"], 10.0)
    cfg = ModelConfig(poi, c["min"], [0.7] * c["n"], list(bounds), parameter_names=list(c["names"]))
    mirror = list(c["names"])
    nontrivial = False
    for kind, arg in c["ops"]:
        if kind == "rename":
            m = {k: v for k, v in arg}
            unknown = [k for k in m if k not in mirror]
            target = [m.get(x, x) for x in mirror]
            ok = not unknown and len(set(target)) == len(target)
            try:
                cfg.change_parameter_names(m)
            except ValueError:
                require(not ok, "valid renaming refused", names=mirror, map=m)
                nontrivial = True
                ev.tag("refused")
            else:
                require(not unknown, "unknown name accepted", names=mirror, map=m)
                require(ok, "names are no longer unique", names=mirror, map=m, now=cfg.parameter_names)
                mirror = target
                if m:
                    ev.tag("renamed")
            require(list(cfg.parameter_names) == mirror, "parameter names after the renaming", got=cfg.parameter_names, expected=mirror)
        else:
            pins = {k: v for k, v in arg}
            new = cfg.fixed_poi_bounds_multi(dict(pins))
            single = cfg.fixed_poi_bounds(pins[poi]) if poi in pins else cfg.fixed_poi_bounds(None)
            if set(pins) == {poi}:
                require(same([tuple(x) for x in new], [tuple(x) for x in single]), "single and multi forms differ", a=new, b=single)
            for out in (new, single):
                require(out is not cfg.suggested_bounds, "the configuration's own bounds are returned")
                require(len(out) == c["n"], "number of bounds")
            for i in range(c["n"]):
                l, h = new[i]
                if i in pins and not any(x is None for x in bounds[i]):
                    v = pins[i]
                    if i == poi and v < c["min"]:
                        require(l == c["min"], "lower bound of the signal strength is the minimum", got=l)
                        nontrivial = True
                        continue
                    require(l <= v <= h, "bounds do not contain the tested value", i=i, v=v, bounds=[l, h])
                    if not bounds[i][0] < v < bounds[i][1]:
                        nontrivial = True
                        ev.tag("outside")
                else:
                    require(same((l, h), bounds[i]), "bounds of another parameter changed", i=i, got=[l, h])
            for out in (new, single):
                for i in range(len(out)):
                    out[i] = ("poisoned", i)
            require(same(list(cfg.suggested_bounds), bounds), "the configuration changed", now=cfg.suggested_bounds)
    require(cfg.npar == c["n"], "npar")
    ev.mark(nontrivial)


SUBS = [
    Sub("models", model_case, check_model, quick=1500, thorough=40000),
    Sub("free", cfg_case, check_cfg, quick=4000, thorough=150000),
]

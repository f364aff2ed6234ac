"""P02: signal-yield uncertainties (log-normal morphing modifiers)."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, Violation, require, require_allclose, require_close
from harness.reference import LOG2PI, Ref

PROPERTY = "P02"
RULE = (
    "A case is a simplified-likelihood model with 1-3 uncertainty sources (normalisation/shape, "
    "symmetric/asymmetric, named or not, zero entries) and a parameter point. Non-trivial: at least "
    "one non-zero variation and a non-zero source nuisance, with at least two sources or two bins."
)


@st.composite
def case(draw):
    sp = draw(S.model(kinds=S.KINDS_SL, max_bins=4, modifiers=False))
    sp["mods"] = draw(S.modifier_list(sp["s"]))
    return draw(S.point(st.just(sp), wild=False))


def names_of(spec):
    n = len(spec["b"])
    out = ["mu"] + [f"theta_bkg_{i}" for i in range(n)]
    for k, m in enumerate(spec["mods"]):
        nm = m.get("name", f"mod{k}")
        if m["type"] == "normalization":
            out.append(f"theta_sig_{nm}")
        else:
            out += [f"theta_sig_{nm}_{i}" for i in range(n)]
    return out


def check(c, ev):
    spec, pars = c["spec"], np.array(c["pars"], float)
    ref = Ref(spec)
    model = models.build(spec)
    cfg = model.backend.config()
    require(cfg.npar == ref.npar, "number of parameters", got=cfg.npar, want=ref.npar)
    require(list(cfg.parameter_names) == names_of(spec), "parameter names", got=cfg.parameter_names, want=names_of(spec))
    require(len(cfg.suggested_bounds) == ref.npar, "bounds length")
    require(list(cfg.suggested_init)[ref.mod0 :] == [1.0] * ref.n_mod, "start values of the sources")
    require(
        all(tuple(b) == (None, None) for b in cfg.suggested_bounds[ref.mod0 :]), "bounds of the sources",
        got=cfg.suggested_bounds,
    )
    t = 2e-6 if ref.kind == "third" else 1e-9
    f = model.backend.get_logpdf_func()
    require_close(float(f(pars)), float(ref.logpdf(pars)), "log-likelihood with sources", rtol=t, atol=t * 100)
    # rates are visible through the expected data
    got = np.asarray(model.backend.expected_data(pars))
    require_allclose(got, ref.expected_data(pars), "expected data with sources", rtol=t, atol=t * 10)
    # all source nuisances at zero -> plain model up to the constraint constant
    plain = models.build({k: v for k, v in spec.items() if k != "mods"})
    p0 = pars.copy()
    p0[ref.mod0 :] = 0.0
    a = float(f(p0))
    b = float(plain.backend.get_logpdf_func()(p0[: ref.mod0]))
    require_close(a, b - 0.5 * LOG2PI * ref.n_mod, "nominal source values", rtol=1e-9, atol=1e-8)
    # ... and mu = 0 removes any effect of the sources on the rates
    q = pars.copy()
    q[0] = 0.0
    require_allclose(
        np.asarray(model.backend.expected_data(q))[: ref.n], np.asarray(plain.backend.expected_data(q[: ref.mod0]))[: ref.n],
        "sources act on the signal only", rtol=1e-9, atol=1e-9,
    )
    types = [m["type"] for m in spec["mods"]]
    ev.tag(spec["kind"], f"sources:{len(types)}", *set(types))
    if any(isinstance(m["uncertainties"][0], list) for m in spec["mods"]):
        ev.tag("asymmetric")
    if any(x == 0 for x in spec["s"]):
        ev.tag("zero-signal-bin")
    if (pars[ref.mod0 :] < 0).any():
        ev.tag("negative-nuisance")
    var = any(np.any(np.array(m["uncertainties"], float) > 0) for m in spec["mods"])
    ev.mark(var and np.any(pars[ref.mod0 :] != 0) and (len(types) > 1 or ref.n > 1))


@st.composite
def bad_case(draw):
    sp = draw(S.model(kinds=S.KINDS_SL, max_bins=3))
    n = len(sp["b"])
    which = draw(st.sampled_from(["type", "short", "long", "callable", "ndim"]))
    good = draw(S.modifier_list(sp["s"]))
    bad = {"type": draw(st.sampled_from(["normalization", "shape"])), "uncertainties": [0.1] * n}
    if which == "type":
        bad["type"] = draw(st.sampled_from(["norm", "Shape", "", "normalisation", None]))
    elif which == "short":
        bad["uncertainties"] = [0.1] * (n - 1) if n > 1 else []
    elif which == "long":
        bad["uncertainties"] = [0.1] * (n + draw(st.integers(1, 2)))
    elif which == "ndim":
        bad["uncertainties"] = [[[0.1, 0.1]]] * n
    pos = draw(st.integers(0, len(good)))
    sp["mods"] = good[:pos] + [bad] + good[pos:]
    return {"spec": sp, "which": which}


def check_bad(c, ev):
    from spey.system.exceptions import InvalidUncertaintyDefinition
    import spey

    spec = c["spec"]
    kw = models.kwargs({k: v for k, v in spec.items() if k != "mods"})
    kw["modifiers"] = spec["mods"]
    want = InvalidUncertaintyDefinition
    if c["which"] == "callable":
        s = np.array(spec["s"])
        kw["signal_yields"] = lambda p: s * (1 + 0.1 * p[0])
        kw["n_signal_parameters"] = 1
        want = ValueError
    try:
        spey.get_backend(models.BACKEND[spec["kind"]])(**kw, analysis="x")
    except want:
        ev.tag("rejected:" + c["which"])
        ev.mark()
        return
    raise Violation(f"ill-formed source definition accepted ({c['which']})")


@st.composite
def synth_case(draw):
    n = draw(st.integers(1, 4))
    s = draw(S.vec(n, 0, 20, 2))
    mods = draw(S.modifier_list(s))
    # variations larger than the yield itself, and ill-formed ones (documented to mean "no variation")
    for m in mods:
        how = draw(st.sampled_from(["plain", "plain", "large", "invalid"]))
        if how == "plain":
            continue
        kinds = st.sampled_from([0.0, 0.3, 1.0, 1.5, 4.0, 30.0] if how == "large" else [0.4, -0.3, -2.0, float("nan"), 2.5])
        one = lambda x: round(draw(kinds) * max(x, 0.5), 4)  # noqa: E731
        m["uncertainties"] = [[one(x), one(x)] if isinstance(u, list) else one(x) for u, x in zip(m["uncertainties"], s)]
    return {
        "s": s, "mods": mods, "nsp": draw(st.integers(0, 3)),
        "start": draw(st.one_of(st.none(), st.integers(0, 9))), "al": draw(S.vec(12, -2, 2, 2)),
    }


def check_synth(c, ev):
    """The documented public synthesiser: layout shifted by extra signal parameters / start index."""
    from spey.backends.default_pdf.uncertainty_synthesizer import signal_uncertainty_synthesizer

    s = np.array(c["s"], float)
    n = len(s)
    mods = [dict(m, uncertainties=[tuple(u) if isinstance(u, list) else u for u in m["uncertainties"]]) for m in c["mods"]]
    kw = {} if c["start"] is None else {"domain_start": c["start"]}
    out = signal_uncertainty_synthesizer(list(c["s"]), mods, n_signal_parameters=c["nsp"], **kw)
    npars = sum(1 if m["type"] == "normalization" else n for m in mods)
    require(out["n_parameters"] == npars, "n_parameters", got=out["n_parameters"], want=npars)
    require(len(out["parameter_names"]) == npars == len(out["constraint"]), "names and constraints count")
    start = c["start"] if c["start"] is not None else 1 + c["nsp"] + n
    al = np.resize(np.array(c["al"]), npars)
    pars = np.full(start + npars, 0.37)
    pars[start:] = al
    f = np.ones(n)
    i = 0
    for m in c["mods"]:
        u = np.array(m["uncertainties"], float)
        up, dn = (u, u) if u.ndim == 1 else (u[:, 0], u[:, 1])
        a = np.full(n, al[i]) if m["type"] == "normalization" else al[i : i + n]
        i += 1 if m["type"] == "normalization" else n
        for j in range(n):
            d = up[j] if a[j] >= 0 else dn[j]
            if s[j] > 0 and d > 0:
                f[j] *= (1 + d / s[j]) ** a[j]
        if not np.all(u >= 0):
            ev.tag("invalid")
        elif np.any(up > s):
            ev.tag("larger-than-yield")
    require_allclose(np.broadcast_to(out["lambda"](pars), (n,)), f, "morphing factor", rtol=1e-10, atol=1e-12)
    dom = [int(np.ravel(d["kwargs"]["domain"])[0]) for d in out["constraint"]]
    require(sorted(dom) == list(range(start, start + npars)), "constraint domains", got=dom, start=start)
    ev.tag("explicit-start" if c["start"] is not None else "auto-start", f"nsp:{c['nsp']}")
    ev.mark(len(mods) > 1 or n > 1)


SUBS = [
    Sub("model", case, check, quick=1600, thorough=24000),
    Sub("rejects", bad_case, check_bad, quick=300, thorough=2000),
    Sub("synthesizer", synth_case, check_synth, quick=1200, thorough=16000),
]

"""Turn a specification into real spey objects (public API only)."""
import math

import numpy as np

from .reference import signal_fn

BACKEND = {
    "uncorrelated": "default.uncorrelated_background",
    "correlated": "default.correlated_background",
    "third": "default.third_moment_expansion",
    "effsig": "default.effective_sigma",
    "poisson": "default.poisson",
    "poisson_unc": "default.poisson",
    "normal": "default.normal",
    "mvn": "default.multivariate_normal",
}


def kwargs(spec):
    k = spec["kind"]
    kw = {"background_yields": list(spec["b"]), "data": list(spec["data"])}
    if "sfun" in spec:
        sf = spec["sfun"]
        kw["signal_yields"] = signal_fn(sf)
        kw["n_signal_parameters"] = sf["nsp"]
        if sf.get("bounds") is not None:
            kw["signal_parameter_bounds"] = [tuple(b) for b in sf["bounds"]]
    else:
        kw["signal_yields"] = list(spec["s"])
    if spec.get("mods"):
        kw["modifiers"] = [
            dict(m, uncertainties=[tuple(u) if isinstance(u, list) else u for u in m["uncertainties"]])
            for m in spec["mods"]
        ]
    if k in ("uncorrelated", "poisson_unc", "normal"):
        kw["absolute_uncertainties"] = list(spec["unc"])
        if "uncfun" in spec:
            u, a = np.array(spec["unc"]), spec["uncfun"]
            from autograd import numpy as anp

            kw["absolute_uncertainties"] = lambda pars: u * anp.sqrt(1.0 + a * pars[0] ** 2)
    if k in ("correlated", "mvn", "third"):
        kw["covariance_matrix"] = np.array(spec["cov"])
        if "covfun" in spec:
            c, a2 = np.array(spec["cov"]), spec["covfun"]
            kw["covariance_matrix"] = lambda pars: c * (1.0 + a2 * pars[0] ** 2)
    if k == "third":
        kw["third_moment"] = list(spec["m3"])
    if k == "effsig":
        kw["correlation_matrix"] = np.array(spec["corr"])
        kw["absolute_uncertainty_envelops"] = [tuple(e) for e in spec["env"]]
    return kw


def build(spec, analysis="ana", xsection=None, **extra):
    import spey

    xs = {} if xsection is None else {"xsection": xsection}
    return spey.get_backend(BACKEND[spec["kind"]])(**kwargs(spec), analysis=analysis, **xs, **extra)


def expectation(name):
    import spey

    return {
        "observed": spey.ExpectationType.observed,
        "aposteriori": spey.ExpectationType.aposteriori,
        "apriori": spey.ExpectationType.apriori,
    }[name]


def finite(x):
    return x is not None and math.isfinite(float(x))

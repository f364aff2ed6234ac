"""User-written back-ends with any subset of the optional methods (reference densities inside)."""
import numpy as np

from .reference import Ref

OPTIONAL = ("grad", "hessian", "sampler", "expected", "asimov_pair", "alive")


def make(spec, caps=(), name="verif.custom", no_name=False):
    """A back-end instance whose density is the reference one."""
    import spey
    from spey.base import ModelConfig

    ref = Ref(spec)
    lo = ref.minimum_poi

    class Custom(spey.BackendBase):
        version = "1.0.0"
        author = "verif"
        spey_requires = ">=0.0.1"

        def __init__(self):
            self.spec = spec
            self.ref = ref

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return ModelConfig(0, lo, [1.0] * ref.npar,
                               [(lo if allow_negative_signal else 0.0, poi_upper_bound)] + [(None, None)] * (ref.npar - 1))

        def _data(self, expected, data):
            if data is not None:
                return np.array(data, float)
            return np.array(ref.b if expected == spey.ExpectationType.apriori else ref.data, float)

        def get_logpdf_func(self, expected=spey.ExpectationType.observed, data=None):
            d = self._data(expected, data)
            return lambda pars: float(ref.logpdf(np.asarray(pars, float), d))

        if "grad" in caps:
            def get_objective_function(self, expected=spey.ExpectationType.observed, data=None, do_grad=True):
                from autograd import value_and_grad

                d = self._data(expected, data)
                f = lambda p: -ref.logpdf(p, d)  # noqa: E731
                return value_and_grad(f) if do_grad else f

        if "hessian" in caps:
            def get_hessian_logpdf_func(self, expected=spey.ExpectationType.observed, data=None):
                from autograd import hessian

                d = self._data(expected, data)
                return hessian(lambda p: ref.logpdf(p, d))

        if "sampler" in caps:
            def get_sampler(self, pars):
                lam = np.asarray(ref.rate(np.asarray(pars, float)), float)
                return lambda n: np.random.poisson(np.maximum(lam, 0), size=(n, len(lam)))

        if "expected" in caps:
            def expected_data(self, pars):
                return list(np.asarray(ref.rate(np.asarray(pars, float)), float))

        if "alive" in caps:
            @property
            def is_alive(self):
                return bool(np.any(np.array(spec["s"]) > 0))

    if not no_name:
        Custom.name = name
    return Custom()

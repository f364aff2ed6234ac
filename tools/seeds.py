"""Planted bugs used to try the checks (never applied to /repo by any check).  See seed_lib.py."""

SEEDS = []


def seed(id, property, file, old, new, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo))


D = "backends/default_pdf/__init__.py"
S = "backends/default_pdf/simple_pdf.py"
U = "backends/default_pdf/uncertainty_synthesizer.py"
T = "backends/default_pdf/third_moment.py"
DI = "backends/distributions.py"
MC = "base/model_config.py"
HB = "base/hypotest_base.py"
SM = "interface/statistical_model.py"
CO = "combiner/uncorrelated_statistics_combiner.py"

seed("p01-poisson-floor", "P01", DI,
     "self.loc = np.clip(loc, 1e-20, None)", "self.loc = np.clip(loc, 1e-3, None)",
     "a bin whose expected yield is positive but below 1e-3",
     "the Poisson mean of rare bins is replaced by a floor far above the documented expectation",
     """
import numpy as np, spey
from scipy.stats import poisson
m = spey.get_backend("default.poisson")(signal_yields=[2e-4, 1.0], background_yields=[1e-4, 3.0], data=[1, 2])
got = m.likelihood(0.7)
want = -(poisson.logpmf(1, 2.4e-4) + poisson.logpmf(2, 3.7))
assert abs(got - want) < 1e-6, (got, want)
""")

seed("p02-shape-sign", "P02", U,
     "                return alphas * chosen_log", "                return alphas * (chosen_log if np.all(alphas > 0) else ld)",
     "an asymmetric shape modifier evaluated where the nuisances of different bins have different signs",
     "bins pulled up use the downward variation as soon as another bin is pulled down",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0, 20.0], background_yields=[50.0, 60.0], data=[55, 70], absolute_uncertainties=[3.0, 4.0],
    modifiers=[{"name": "s", "type": "shape", "uncertainties": [(2.0, 1.0), (8.0, 1.0)]}])
x = np.array([1.0, 0.0, 0.0, 0.5, -0.7])
got = np.array(m.backend.expected_data(x))[:2]
want = np.array([50 + 10 * 1.2 ** 0.5, 60 + 20 * 1.05 ** -0.7])
assert np.allclose(got, want), (got, want)
""")

seed("p02-third-source", "P02", U,
     "return np.exp(reduce(lambda x, y: x + y, (lam(param) for lam in lambdas)))",
     "return np.exp(reduce(lambda _, y: lambdas[0](param) + y, (lam(param) for lam in lambdas)))",
     "three or more sources of signal uncertainty",
     "intermediate sources are left out of the product",
     """
import numpy as np, spey
mods = [{"name": f"m{i}", "type": "normalization", "uncertainties": [0.5 * (i + 1), 1.0]} for i in range(3)]
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0, 20.0], background_yields=[50.0, 60.0], data=[55, 70], absolute_uncertainties=[3.0, 4.0],
    modifiers=mods)
x = np.array([1.0, 0.0, 0.0, 0.5, 0.6, -0.7])
f0 = 1.05 ** 0.5 * 1.10 ** 0.6 * 1.15 ** -0.7
f1 = 1.05 ** (0.5 + 0.6 - 0.7)
got = np.array(m.backend.expected_data(x))[:2]
assert np.allclose(got, [50 + 10 * f0, 60 + 20 * f1]), got
""")

seed("p03-simple-hessian", "P03", S,
     """        data = current_data if data is None else data

        def log_prob(pars: np.ndarray) -> np.ndarray:""",
     """        data = self.data if data is None else data

        def log_prob(pars: np.ndarray) -> np.ndarray:""",
     "the Hessian of a Poisson model for the pre-fit expectation",
     "the pre-fit Hessian is the one of the observed data",
     """
import numpy as np, spey
m = spey.get_backend("default.poisson")(signal_yields=[3.0, 2.0], background_yields=[10.0, 20.0], data=[17, 12])
h = m.backend.get_hessian_logpdf_func(expected=spey.ExpectationType.apriori)(np.array([0.5]))
s, b = np.array([3.0, 2.0]), np.array([10.0, 20.0])
want = -np.sum(b * s ** 2 / (b + 0.5 * s) ** 2)
assert abs(float(np.squeeze(h)) - want) < 1e-8, (h, want)
""")

seed("p04-sampler-expected", "P04", SM,
     "        fit_opts = self.prepare_for_fit(expected=expected, **kwargs)\n\n        if (",
     "        fit_opts = self.prepare_for_fit(**kwargs)\n\n        if (",
     "sampling with the pre-fit expectation from a model with nuisance parameters",
     "nuisances are profiled on the observed data although the pre-fit expectation was requested",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[1.0], background_yields=[100.0], data=[160], absolute_uncertainties=[40.0])
np.random.seed(1)
x = m.fixed_poi_sampler(0.0, size=4000, expected=spey.ExpectationType.apriori, include_auxiliary=False) \
    if False else m.fixed_poi_sampler(0.0, expected=spey.ExpectationType.apriori)(4000)
assert abs(np.mean(x[:, 0]) - 100.0) < 3.0, np.mean(x[:, 0])
""")

seed("p05-poi-threshold", "P05", D,
     """                self.background_yields[self.signal_yields > 0.0]
                / self.signal_yields[self.signal_yields > 0.0]""",
     """                self.background_yields[self.signal_yields > 1e-2]
                / self.signal_yields[self.signal_yields > 1e-2]""",
     "signal normalised such that the bin that limits negative signal strengths has less than 0.01 events",
     "the allowed signal-strength range, and with it negative best fits and limits, depend on the signal normalisation",
     """
import numpy as np, spey
def model(scale):
    return spey.get_backend("default.uncorrelated_background")(
        signal_yields=[0.5 * scale, 5.0 * scale], background_yields=[0.2, 50.0], data=[0, 20],
        absolute_uncertainties=[0.05, 1.0])
k = 0.01
a = model(1.0).backend.config().minimum_poi
b = model(k).backend.config().minimum_poi * k
assert abs(a - b) < 1e-9 * abs(a), (a, b)
""")

seed("p06-zero-pin", "P06", "optimizer/core.py",
     "                init_pars[idx] = val\n                fixed_vals[idx] = True",
     "                init_pars[idx] = val\n                fixed_vals[idx] = bool(val) or idx == model_configuration.poi_index",
     "a nuisance parameter pinned at exactly zero",
     "a nuisance requested to stay at zero is profiled instead",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[4.0, 5.0], background_yields=[50.0, 60.0], data=[70, 50], absolute_uncertainties=[9.0, 8.0])
nll, pars = m.likelihood({0: 0.5, 1: 0.0}, return_parameters=True)
assert abs(pars[1]) < 1e-6 and abs(pars[0] - 0.5) < 1e-6, pars
""")

seed("p07-negative-with-data", "P07", SM,
     "            allow_negative_signal=allow_negative_signal,\n            data=data,\n            **kwargs,\n        )\n\n        logpdf, fit_param = fit(",
     "            allow_negative_signal=allow_negative_signal and data is None,\n            data=data,\n            **kwargs,\n        )\n\n        logpdf, fit_param = fit(",
     "maximising with caller-supplied data that fluctuate below the background",
     "the best fit is restricted to non-negative signals although negative ones were allowed",
     """
import numpy as np, spey
m = spey.get_backend("default.poisson")(signal_yields=[5.0], background_yields=[50.0], data=[55])
muhat, nll = m.maximize_likelihood(data=np.array([40.0]))
assert abs(muhat + 2.0) < 1e-3, muhat
""")

seed("p08-objective-data", "P08", D,
     "        data = current_data if data is None else data\n        log.debug(f\"Data: {data}\")\n\n        def negative_loglikelihood(",
     "        data = current_data if data is None or data is self.data else data\n        if expected == ExpectationType.apriori:\n            data = np.where(data > 10.0 * self.background_yields, self.background_yields, data)\n        log.debug(f\"Data: {data}\")\n\n        def negative_loglikelihood(",
     "pre-fit queries with supplied data that exceed the background of a bin more than tenfold",
     "the optimiser profiles the nuisances on other data than the ones the caller supplied",
     """
import numpy as np, spey
kw = dict(signal_yields=[0.5, 1.0], background_yields=[1.0, 5.0], absolute_uncertainties=[0.8, 1.0])
d = np.array([14.0, 6.0])
m = spey.get_backend("default.uncorrelated_background")(data=[1, 5], **kw)
r = spey.get_backend("default.uncorrelated_background")(data=d, **kw)
a = m.likelihood(1.0, expected=spey.ExpectationType.apriori, data=d)
b = r.likelihood(1.0)
assert abs(a - b) < 1e-4, (a, b)
""")

seed("p09-asimov-bounds", "P09", SM,
     """                test_statistic=test_statistics,
                init_pars=init_pars,
                par_bounds=par_bounds,
                **kwargs,
            ),
            init_pars=init_pars,
            par_bounds=par_bounds,
            poi_indices=poi_indices,""",
     """                test_statistic=test_statistics,
                init_pars=init_pars,
                **kwargs,
            ),
            init_pars=init_pars,
            par_bounds=par_bounds,
            poi_indices=poi_indices,""",
     "maximising the Asimov likelihood with parameter bounds that cut into the nuisances",
     "the Asimov data behind the maximum are profiled without the bounds the caller asked for",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[4.0, 5.0], background_yields=[50.0, 60.0], data=[80, 90], absolute_uncertainties=[9.0, 8.0])
bounds = [(0.0, 10.0), (-0.2, 0.2), (-0.2, 0.2)]
asi = m.generate_asimov_data(par_bounds=bounds)
want = m.maximize_likelihood(data=asi, allow_negative_signal=False, par_bounds=bounds)[1]
got = m.maximize_asimov_likelihood(par_bounds=bounds)[1]
assert abs(got - want) < 1e-4, (got, want)
""")

seed("p10-asimov-alias", "P10", SM,
     "    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)\n    def generate_asimov_data(",
     "    @cache_results(maxsize=128, copy_on_return=False, per_instance=True)\n    def generate_asimov_data(",
     "the caller modifies Asimov data it received and asks again",
     "later Asimov queries use the modified data",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[4.0, 5.0], background_yields=[50.0, 60.0], data=[52, 63], absolute_uncertainties=[9.0, 8.0])
a = m.generate_asimov_data()
keep = np.array(a, copy=True)
a[0] = 1000.0
assert np.allclose(m.generate_asimov_data(), keep)
""")

seed("p12-cls-floor", "P12", "hypothesis_testing/utils.py",
     "return p_sb, p_b, p_s if p_b != 0.0 else 0.0", "return p_sb, p_b, p_s if p_b > 1e-9 else 0.0",
     "observations more than six standard deviations away from the background-only hypothesis",
     "the ratio of p-values drops to zero, below the signal-plus-background p-value",
     """
from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level
from scipy.stats import norm
(cls,), _ = compute_asymptotic_confidence_level(0.5, 6.3, "qtilde")
want = norm.sf(6.8) / norm.sf(6.3)
assert abs(cls - want) < 1e-6, (cls, want)
""")

seed("p16-ceiling", "P16", "hypothesis_testing/upper_limits.py",
     "        hig_bound = 1e5\n        low, hig", "        hig_bound = 1e4\n        low, hig",
     "a signal so small that its upper limit lies between ten thousand and a hundred thousand",
     "finite limits of weak signals are reported as infinite",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[5e-4], background_yields=[50.0], data=[50], absolute_uncertainties=[5.0])
r = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[5.0], background_yields=[50.0], data=[50], absolute_uncertainties=[5.0])
a, b = m.poi_upper_limit() * 1e-4, r.poi_upper_limit()
assert np.isfinite(a) and abs(a / b - 1) < 1e-2, (a, b)
""")

seed("p18-hessian-expected", "P18", SM,
     "            hessian_func = self.backend.get_hessian_logpdf_func(expected=expected)",
     "            hessian_func = self.backend.get_hessian_logpdf_func()",
     "the curvature uncertainty for the pre-fit expectation with observed data away from the background",
     "the pre-fit uncertainty is computed with the observed data at the pre-fit parameters",
     """
import numpy as np, spey
m = spey.get_backend("default.poisson")(signal_yields=[5.0], background_yields=[50.0], data=[90])
got = m.sigma_mu_from_hessian(1.0, expected=spey.ExpectationType.apriori)
want = 1 / np.sqrt(50.0 * 25 / 55.0 ** 2)
assert abs(got - want) < 1e-6, (got, want)
""")

seed("p20-matmul-alias", "P20", CO,
     "        new_model = UnCorrStatisticsCombiner(*self._statistical_models)",
     "        new_model = UnCorrStatisticsCombiner()\n        new_model._statistical_models = self._statistical_models",
     "combining a stack with something and looking at the stack afterwards",
     "combining modifies the left operand",
     """
import spey
mk = lambda n: spey.get_backend("default.poisson")(signal_yields=[1.0], background_yields=[2.0], data=[2], analysis=n)
a = spey.UnCorrStatisticsCombiner(mk("a"))
b = a @ mk("b")
assert a.analyses == ["a"] and b.analyses == ["a", "b"], (a.analyses, b.analyses)
""")

seed("p21-upper-bound", "P21", CO,
     "                        max(10.0, mu_init),", "                        10.0,",
     "a combination whose best-fit signal strength is above ten",
     "the combined maximum is cut off at ten",
     """
import spey
mk = lambda n, d: spey.get_backend("default.poisson")(signal_yields=[1.0], background_yields=[50.0], data=[d], analysis=n)
c = spey.UnCorrStatisticsCombiner(mk("a", 70), mk("b", 76))
bounds = None
mu, nll = c.maximize_likelihood(initial_muhat_value=15.0)
assert abs(mu - 23.0) < 0.1 or mu > 14.0, mu
""")

seed("p24-native-negative", "P24", SM,
     """            nll, fit_param = self.backend.minimize_negative_loglikelihood(
                expected=expected,
                allow_negative_signal=allow_negative_signal,
                data=data,
                init_pars=init_pars,
                par_bounds=par_bounds,""",
     """            nll, fit_param = self.backend.minimize_negative_loglikelihood(
                expected=expected,
                allow_negative_signal=allow_negative_signal,
                data=data,
                init_pars=init_pars,
                par_bounds=par_bounds or None,""",
     "a back-end with its own maximisation that receives an empty list of bounds",
     "the native implementation does not receive the caller's arguments unchanged",
     """
import numpy as np, spey
from spey.base import BackendBase, ModelConfig
seen = {}
class B(BackendBase):
    name = "x"; version = "0"; author = ""; spey_requires = ">=0.0.0"
    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(0, -1.0, [1.0], [(-1.0, 10.0)])
    def get_logpdf_func(self, expected=None, data=None):
        return lambda p: -0.5 * p[0] ** 2
    def minimize_negative_loglikelihood(self, **kw):
        seen.update(kw); return 0.0, np.array([0.0])
spey.StatisticalModel(B(), "a").maximize_likelihood(par_bounds=[])
assert seen["par_bounds"] == [], seen
""")

seed("p25-register-first", "P25", "__init__.py",
     "    if Version(__version__) not in SimpleSpec(model.spey_requires):\n        raise PluginError(\n            f\"The backend {name}, requires spey version {model.spey_requires}. \"\n            f\"However the current spey version is {__version__}.\"\n        )\n\n",
     "    _backend_entries[name] = model\n    if Version(__version__) not in SimpleSpec(model.spey_requires):\n        raise PluginError(\n            f\"The backend {name}, requires spey version {model.spey_requires}. \"\n            f\"However the current spey version is {__version__}.\"\n        )\n\n",
     "registering a model that requires another spey version",
     "the rejected model stays in the registry",
     """
import spey
from spey.base import BackendBase
class B(BackendBase):
    name = "bad.version"; version = "0"; author = ""; spey_requires = ">=99.0.0"
    def config(self, **k): ...
    def get_logpdf_func(self, **k): ...
try:
    spey.register_backend(B)
    raise SystemExit(3)
except spey.PluginError if hasattr(spey, "PluginError") else Exception:
    pass
assert "bad.version" not in spey.AvailableBackends()
""")

seed("p26-token-shape", "P26", "system/cache.py",
     "        return (obj.shape, obj.dtype.str, digest)", "        return (obj.dtype.str, digest)",
     "two arrays with the same bytes but different shapes",
     "a memoised function returns the result of an array of another shape",
     """
import numpy as np
from spey.system.cache import cache_results
@cache_results
def f(x):
    return x.shape
f(np.arange(6.0))
assert f(np.arange(6.0).reshape(2, 3)) == (2, 3)
""")

seed("p26-exception-waiters", "P26", "system/cache.py",
     """                    if cache.get(key) is _COMPUTING:
                        del cache[key]
                    evt = events.pop(key, None)
                if evt is not None:
                    evt.set()  # wake up waiters
                raise""",
     """                    if cache.get(key) is _COMPUTING:
                        del cache[key]
                    events.pop(key, None)
                raise""",
     "a call that fails while another thread waits for the same arguments",
     "the waiting thread blocks forever",
     """
import threading, time, os
from spey.system.cache import cache_results
first = threading.Event(); n = []
@cache_results
def f(x):
    n.append(1)
    if len(n) == 1:
        first.set(); time.sleep(0.5); raise ValueError
    return 7
out = []
def a():
    try: f(1)
    except ValueError: pass
def b():
    first.wait(); out.append(f(1))
ts = [threading.Thread(target=t, daemon=True) for t in (a, b)]
[t.start() for t in ts]; [t.join(10) for t in ts]
os._exit(0 if out == [7] else 1)
""")

seed("p27-disable-reset", "P27", "system/logger.py",
     "        logging.disable(previous_level)", "        logging.disable(min(previous_level, highest_level))",
     "disabling logging up to a low level while it is already disabled up to a higher one",
     "the previous, stronger setting is lost on exit",
     """
import logging, spey
from spey.system.logger import disable_logging
logging.disable(logging.ERROR)
with disable_logging(logging.INFO):
    pass
assert logging.root.manager.disable == logging.ERROR, logging.root.manager.disable
""")

seed("p28-future-cache", "P28", "system/webutils.py",
     "                age = now - cache_file.stat().st_mtime\n                if age <= _CACHE_MAX_AGE_SECONDS:",
     "                age = now - cache_file.stat().st_mtime\n                if int(age) // 3600 <= _CACHE_MAX_AGE_SECONDS // 3600:",
     "a cache entry between 24 and 25 hours old",
     "a stale entry is used instead of the network",
     """
import json, os, tempfile, time, pathlib
home = tempfile.mkdtemp(); os.environ["HOME"] = home
import spey.system.webutils as w
from unittest import mock
d = pathlib.Path(home) / ".spey"; d.mkdir(); w._SPEY_DIR = d
f = d / "pypi_latest_20240101_000000.json"; f.write_text(json.dumps({"info": {"version": "0.0.1"}}))
t = time.time() - 86400 - 1200; os.utime(f, (t, t))
calls = []
def get(*a, **k):
    calls.append(a); raise OSError("no network")
with mock.patch.object(w.requests, "get", get):
    w.check_updates()
import shutil; shutil.rmtree(home)
assert len(calls) == 1, calls
""")

seed("p30-unmerged-order", "P30", "helper_functions.py",
     "    unmerged = sorted(all_indices - set(merged_indices))",
     "    unmerged = sorted(all_indices - set(merged_indices), key=str)",
     "more than ten bins, at least two of which stay unmerged",
     "untouched bins are reordered",
     """
import numpy as np
from spey.helper_functions import merge_correlated_bins
n = 12
r = merge_correlated_bins(np.arange(n) * 1.0, np.arange(n) * 2.0, np.diag(np.arange(1.0, n + 1)), [[0, 1]])
assert np.allclose(r["background_yields"], [1] + list(range(2, n))), r["background_yields"]
""")

seed("p31-invalid-clip", "P31", T,
     "            * np.arctan(np.sqrt(((8.0 * cov_diag**3) / third_moment**2) - 1.0))",
     "            * np.arctan(np.sqrt(np.abs(((8.0 * cov_diag**3) / third_moment**2) - 1.0)))",
     "a bin whose third moment violates the validity condition",
     "instead of reverting to the Gaussian coefficients the bin gets a skewness that reproduces neither moment",
     """
import numpy as np
from spey.backends.default_pdf.third_moment import third_moment_expansion
A, B, C = third_moment_expansion(np.array([10.0, 20.0]), np.diag([4.0, 9.0]), np.array([30.0, 5.0]))
assert abs(C[0]) < 1e-12 and abs(B[0] - 2.0) < 1e-9, (A, B, C)
""")

seed("p32-names-order", "P32", "multiparameter/contour.py",
     "        [_all_names[i] for i in contour_indices] if _all_names is not None else None",
     "        [_all_names[i] for i in (poi_indices or contour_indices) if i != poi_idx]\n        if _all_names is not None\n        else None",
     "contour parameters requested in another order than the model's",
     "the reported names do not belong to the reported columns",
     """
import numpy as np, spey
from spey.multiparameter import find_contour
m = spey.get_backend("default.multivariate_normal")(
    signal_yields=lambda p: p, background_yields=[0.0, 0.0], data=[1.0, 5.0], covariance_matrix=[[1.0, 0.0], [0.0, 0.25]],
    n_signal_parameters=2)
r = find_contour(m, poi_indices=[2, 1], n_radial=20, n_hmc_chains=1, n_hmc_steps=2, n_jobs=1, random_seed=1, n_coverage_passes=1)
est = dict(zip(r.parameter_names, r.theta_mle))
assert abs(est["signal_par_0"] - 1) < 1e-2 and abs(est["signal_par_1"] - 5) < 1e-2, est
""")

seed("p33-normal-scale-domain", "P33", DI,
     "        return logpdf(x, self.loc, self.scale(x))", "        return logpdf(x, self.loc, self.scale(value))",
     "a normal density with a functional width on a sub-range of the parameters",
     "the width function receives parameters outside of its range",
     """
import numpy as np
from scipy.stats import norm
from spey.backends.distributions import Normal
d = Normal(np.zeros(2), lambda x: 1.0 + np.abs(x[0]) * np.ones(2), domain=slice(1, 3))
x = np.array([5.0, 0.5, -1.0])
assert np.allclose(d.log_prob(x), norm.logpdf(x[1:], 0, 1.5)), d.log_prob(x)
""")

seed("p34-xsec-zero", "P34", SM,
     "        if np.isnan(self.xsection):\n            raise UnknownCrossSection",
     "        if np.isnan(self.xsection) or self.xsection < 1e-12:\n            raise UnknownCrossSection",
     "a cross section given in units in which it is tiny",
     "a valid cross section is treated as missing",
     """
import spey
m = spey.get_backend("default.poisson")(signal_yields=[5.0], background_yields=[50.0], data=[50], xsection=1e-15)
assert abs(m.excluded_cross_section() / (m.poi_upper_limit() * 1e-15) - 1) < 1e-6
""")

# ---------------------------------------------------------------------------------------------- second batch
HT = "base/hypotest_base.py"
UL = "hypothesis_testing/upper_limits.py"
TS = "hypothesis_testing/test_statistics.py"
DIST = "hypothesis_testing/distributions.py"
BU = "base/utils.py"
CA = "system/cache.py"
CT = "multiparameter/contour.py"

seed("p08-data-falsy", "P08", SM,
     '            "logpdf": self.backend.get_logpdf_func(expected=expected, data=data),',
     '            "logpdf": self.backend.get_logpdf_func(\n                expected=expected, data=data if data is not None and np.any(data) else None\n            ),',
     "caller data with zero counts in every bin",
     "an all-zero data set is replaced by the observed one",
     """
import spey
from scipy.stats import poisson
m = spey.get_backend("default.poisson")(signal_yields=[1.0, 1.0], background_yields=[5.0, 4.0], data=[6, 7])
got = m.likelihood(1.0, data=[0, 0])
assert abs(got - 11.0) < 1e-9, got
""")

seed("p09-asimov-init", "P09", SM,
     "            init_pars=init_pars,\n            par_bounds=par_bounds,\n            **kwargs,\n        )\n\n    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)\n    def maximize_likelihood(",
     "            init_pars=init_pars,\n            par_bounds=None,\n            **kwargs,\n        )\n\n    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)\n    def maximize_likelihood(",
     "an Asimov likelihood with caller-supplied parameter bounds that bind",
     "the bounds of the caller are dropped from the fit to the Asimov data",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0], background_yields=[50.0], data=[70], absolute_uncertainties=[9.0])
b = [(-5, 10), (0.5, 2.0)]
_, x = m.asimov_likelihood(poi_test=2.0, par_bounds=b, return_parameters=True)
assert 0.5 - 1e-6 <= x[1] <= 2.0 + 1e-6, x
""")

seed("p12-pvalue-cutoff", "P12", DIST,
     "        return_value = norm.cdf(float(self.shift - value))",
     "        return_value = max(norm.cdf(float(self.shift - value)), 1e-16)",
     "statistics more than eight standard deviations away",
     "tiny p-values are replaced by a floor",
     """
from scipy.stats import norm
from spey.hypothesis_testing.asymptotic_calculator import compute_asymptotic_confidence_level
(p,), _ = compute_asymptotic_confidence_level(4.0, 6.0, "q0")
assert abs(p / norm.sf(10.0) - 1) < 1e-9, p
""")

seed("p13-percentile", "P13", DIST,
     "return np.percentile(self.samples, norm.cdf(nsigma) * 100.0, method=\"linear\")",
     "return np.percentile(self.samples, round(norm.cdf(nsigma) * 100.0), method=\"linear\")",
     "more than a hundred pseudo-experiments with a spread statistic",
     "the quantiles of the expected band are rounded to whole per cents",
     """
import numpy as np
from scipy.stats import norm
from spey.hypothesis_testing.distributions import EmpricTestStatisticsDistribution
x = np.arange(10001.0)
d = EmpricTestStatisticsDistribution(x)
for k in (-2, -1, 0, 1, 2):
    assert abs(d.expected_value(k) - 10000 * norm.cdf(k)) < 1e-6, (k, d.expected_value(k))
""")

seed("p14-chi-null", "P14", HT,
     '-min_negloglike if muhat >= 0.0 or test_stat == "q" else null_logpdf',
     '-min_negloglike if muhat > poi_test or test_stat == "q" else null_logpdf',
     "the chi-square calculator with a best fit between zero and the tested strength",
     "the statistic of the null hypothesis vanishes although the best fit is positive",
     """
import numpy as np, spey
from scipy.stats import norm
m = spey.get_backend("default.normal")(
    signal_yields=[10.0], background_yields=[50.0], data=[56.0], absolute_uncertainties=[5.0])
(got,) = m.exclusion_confidence_level(poi_test=1.5, calculator="chi_square")
s, b = (1.5 - 0.6) * 2, 0.6 * 2
d = (b**2 - s**2) / (2 * s)
want = 1 - norm.sf(d + s) / norm.sf(d)
assert abs(got - want) < 1e-3, (got, want)
""")

seed("p15-apriori-asimov", "P15", HT,
     'expected=expected, test_statistics="q0", **kwargs)',
     'expected=expected, test_statistics="q0" if expected != "aposteriori" else "qtilde", **kwargs)',
     "the significance for the post-fit expectation",
     "the expected significance is computed from background-only pseudo-data and vanishes",
     """
import spey
m = spey.get_backend("default.poisson")(signal_yields=[25.0], background_yields=[50.0], data=[75])
a = m.significance(expected=spey.ExpectationType.aposteriori)[0]
assert a > 2.5, a
""")

seed("p16-band-slice", "P16", UL,
     '        "1sigma": range(1, 4),', '        "1sigma": range(1, 4) if confidence_level > 0.9 else range(0, 3),',
     "the one-sigma band at a confidence level below 0.9",
     "the band is taken one standard deviation off",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[5.0], background_yields=[50.0], data=[50], absolute_uncertainties=[5.0])
e = spey.ExpectationType.apriori
a = m.poi_upper_limit(expected=e, confidence_level=0.8, expected_pvalue="1sigma")
b = m.poi_upper_limit(expected=e, confidence_level=0.8, expected_pvalue="2sigma")
assert all(abs(x - y) < 1e-2 * abs(y) for x, y in zip(a, b[1:4])), (a, b)
""")

seed("p17-right-first", "P17", HT,
     "            if right_roots:\n                return right_roots", "            if right_roots:\n                return right_roots[:1]",
     "a profile with several crossings on the right-hand side",
     "only the first crossing is reported",
     """
import numpy as np, spey
m = spey.get_backend("default.normal")(
    signal_yields=lambda p: np.array([1.0]) * p[0], background_yields=[0.0], data=[1.0], absolute_uncertainties=[0.1],
    n_signal_parameters=1) if False else None
from spey.base.hypotest_base import HypothesisTestingBase
class M(HypothesisTestingBase):
    is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True
    f = staticmethod(lambda m: 5 * min((m - 1) ** 2, (m - 4) ** 2 + 0.05, (m - 7) ** 2 + 0.1))
    def likelihood(self, poi_test=1.0, **k): return self.f(poi_test)
    def maximize_likelihood(self, **k): return 1.0, 0.0
    def asimov_likelihood(self, poi_test=1.0, **k): return self.f(poi_test)
    def maximize_asimov_likelihood(self, **k): return 1.0, 0.0
    def sigma_mu(self, *a, **k): return 1.3
r = M().chi2_test(limit_type="right", n_scan=241)
assert len(r) == 5, r
""")

seed("p20-minimum-poi", "P20", CO,
     "        return max(model.backend.config().minimum_poi for model in self)",
     "        return max([model.backend.config().minimum_poi for model in self][:2])",
     "a combination of three analyses whose third one has the tightest physical bound",
     "the combined fit may move to negative yields in the third analysis",
     """
import spey
mk = lambda n, s: spey.get_backend("default.poisson")(signal_yields=[s], background_yields=[50.0], data=[50], analysis=n)
c = spey.UnCorrStatisticsCombiner(mk("a", 1.0), mk("b", 2.0), mk("c", 5.0))
assert abs(c.minimum_poi + 10.0) < 1e-9, c.minimum_poi
""")

seed("p21-options", "P21", CO,
     "                    data=current_data,\n                    **current_kwargs,\n                    **kwargs,",
     "                    data=current_data if current_data is None or len(data) == len(self) else None,\n                    **current_kwargs,\n                    **kwargs,",
     "a combination for which the caller supplies data for some of the analyses only",
     "the data of the caller are ignored unless there are data for every analysis",
     """
import spey
mk = lambda n: spey.get_backend("default.poisson")(signal_yields=[5.0], background_yields=[50.0], data=[50], analysis=n)
a, b = mk("a"), mk("b")
c = spey.UnCorrStatisticsCombiner(a, b)
got = c.likelihood(1.0, data={"b": [70]})
want = a.likelihood(1.0) + b.likelihood(1.0, data=[70])
assert abs(got - want) < 1e-9, (got, want)
""")

seed("p22-config-bound", "P22", D,
     "        if allow_negative_signal and poi_upper_bound == 10.0:",
     "        if allow_negative_signal and poi_upper_bound >= 10.0:",
     "a configuration requested with an upper bound above ten",
     "the requested upper bound is ignored",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[4.0], background_yields=[50.0], data=[52], absolute_uncertainties=[9.0])
c = m.backend.config(poi_upper_bound=40.0)
assert c.suggested_bounds[0][1] == 40.0, c.suggested_bounds
""")


seed("p23-select", "P23", BU,
     "        return cfg.parameter_names.index(parameter)\n",
     "        return len(cfg.parameter_names) - 1 - cfg.parameter_names[::-1].index(parameter) if cfg.poi_index else cfg.npar - len(cfg.parameter_names) + max(1, cfg.parameter_names.index(parameter))\n",
     "an interval requested for the signal strength through its name",
     "the interval is computed for the first nuisance parameter instead of the named one",
     """
from spey.base.utils import resolve_parameter_index
from spey.base.model_config import ModelConfig
c = ModelConfig(0, -1.0, [1.0] * 3, [(-1, 10)] * 3, ["mu", "a", "b"])
assert [resolve_parameter_index(n, c) for n in ("mu", "a", "b")] == [0, 1, 2]
""")

seed("p32-gap-names", "P32", CT,
     "    if confidence_level <= 0.0 or confidence_level >= 1.0:",
     "    confidence_level = np.clip(confidence_level, 0.0, 0.999)\n    if confidence_level <= 0.0 or confidence_level >= 1.0:",
     "a confidence level above 0.999",
     "the contour of very high levels is drawn at 99.9 per cent",
     """
import numpy as np, spey
from scipy.stats import chi2
from spey.multiparameter.contour import find_contour
m = spey.get_backend("default.multivariate_normal")(
    signal_yields=lambda p: np.array([1.0, 0.0]) * p[0] + np.array([0.0, 1.0]) * p[1], background_yields=[0.0, 0.0],
    data=[1.0, 2.0], covariance_matrix=np.eye(2), n_signal_parameters=2)
r = find_contour(m, confidence_level=0.9999, n_radial=5, n_hmc_chains=1, n_hmc_steps=1, random_seed=1, n_jobs=1)
assert abs(2 * (r.threshold - r.nll_min) - chi2.isf(1e-4, r.dof)) < 1e-6, r.threshold
""")


seed("p19-negative-level", "P19", "hypothesis_testing/upper_limits.py",
     "while low_computer(low) > loc and low > low_bound:", "while low_computer(low) > max(loc, 0.0) and low > low_bound:",
     "a bracket search for a level below zero",
     "the lower end stays above the level",
     """
from spey.hypothesis_testing.upper_limits import find_root_limits
low, hig = find_root_limits(lambda x: x - 3.0, loc=-2.9)
assert low[-1] <= -2.9 <= hig[-1], (low[-1], hig[-1])
""")


seed("p20-sensitive-obs", "P20", CO,
     "return self[np.argmin([model.s95exp for model in self])]", "return self[np.argmin([model.s95obs for model in self])]",
     "a stack whose ordering by observed and by expected limits differ",
     "the most sensitive analysis is chosen from the observed data",
     """
import spey
mk = lambda n, b, d: spey.get_backend("default.poisson")(signal_yields=[5.0], background_yields=[b], data=[d], analysis=n, xsection=1.0)
a, b = mk("a", 30.0, 45), mk("b", 40.0, 28)
assert a.s95exp < b.s95exp and a.s95obs > b.s95obs
assert spey.UnCorrStatisticsCombiner(a, b).find_most_sensitive().analysis == "a"
""")

seed("p01-envelope-sign", "P01", D,
     "sigma_minus.append(abs(lower))", "sigma_minus.append(lower)",
     "lower envelopes given with a minus sign (documented: the sign is ignored)",
     "the effective width mixes both envelopes with the wrong sign",
     """
import numpy as np, spey
mk = lambda sign: spey.get_backend("default.effective_sigma")(
    signal_yields=[4.0, 5.0], background_yields=[50.0, 60.0], data=[52, 66], correlation_matrix=[[1.0, 0.3], [0.3, 1.0]],
    absolute_uncertainty_envelops=[(9.0, sign * 6.0), (5.0, sign * 8.0)])
x = np.array([1.0, 0.4, -0.6])
assert abs(mk(1).backend.get_logpdf_func()(x) - mk(-1).backend.get_logpdf_func()(x)) < 1e-9
""")

seed("p33-constraint-sum", "P33", DI,
     "return sum(pdf.log_prob(pars).sum() for pdf in self._pdfs)",
     "return sum(pdf.log_prob(pars).sum() for pdf in self._pdfs[:2]) + sum(pdf.log_prob(pars).max() for pdf in self._pdfs[2:])",
     "three or more constraint terms, the third of several dimensions",
     "only the largest component of the third constraint term counts",
     """
import numpy as np, spey
from spey.backends.distributions import ConstraintModel
from scipy.stats import norm
term = lambda mean, lo, hi: {"distribution_type": "normal", "args": [np.array(mean), np.ones(len(mean))], "kwargs": {"domain": slice(lo, hi)}}
c = ConstraintModel([term([0.0], 0, 1), term([1.0], 1, 2), term([0.5, -0.5], 2, 4)])
x = np.array([0.3, 0.2, 0.9, 0.1])
want = norm.logpdf(x - np.array([0.0, 1.0, 0.5, -0.5])).sum()
assert abs(float(c.log_prob(x)) - want) < 1e-9
""")

seed("p08-type-text", "P08", "utils.py",
     "return other == current", "return other in current",
     "an expectation type compared with a text that is part of its name",
     "parts of a name are taken for the name: apriori data are used for unrelated texts",
     """
import spey
E = spey.ExpectationType
assert E.apriori == "apriori" and not (E.apriori == "prior") and not (E.aposteriori == "post")
""")

seed("p35-hessian-options", "P35", HB,
     """                return self.sigma_mu_from_hessian(
                    poi_test=poi_test, expected=expected, **kwargs
                )""", "                return self.sigma_mu_from_hessian(poi_test=poi_test, expected=expected)",
     "sigma_mu of a model with a Hessian called with fit options",
     "bounds and start values of the caller do not reach the fit that locates the curvature",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0, 20.0], background_yields=[50.0, 60.0], data=[55, 70], absolute_uncertainties=[3.0, 4.0])
orig = type(m).sigma_mu_from_hessian
seen = []
type(m).sigma_mu_from_hessian = lambda self, *a, **k: (seen.append(k), orig(self, *a, **k))[1]
m.sigma_mu(1.0, ntrials=3)
box = [(0.0, 10.0), (-0.01, 0.01), (-0.01, 0.01)]
a = m.sigma_mu(1.0, par_bounds=box, init_pars=[1.0, 0.0, 0.0])
assert seen[0].get("ntrials") == 3 and seen[1].get("par_bounds") == box, seen
""")

seed("p35-asimov-options", "P35", HB,
     """                expected=expected,
                test_statistics=test_statistics,
                **kwargs,
            )

        return (muhat, nll)""", """                expected=expected,
                test_statistics=test_statistics,
            )

        return (muhat, nll)""",
     "an exclusion level or significance asked with options for the fits (start values, bounds, method)",
     "the profile fits to the Asimov data run without the caller's options",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0, 20.0], background_yields=[50.0, 60.0], data=[55, 70], absolute_uncertainties=[3.0, 4.0])
seen = []
orig = type(m).asimov_likelihood
type(m).asimov_likelihood = lambda self, *a, **k: (seen.append(k), orig(self, *a, **k))[1]
m.exclusion_confidence_level(1.0, method="SLSQP", ntrials=4)
m.significance(method="SLSQP", ntrials=4)
assert seen and all(k.get("ntrials") == 4 for k in seen), seen
""")

seed("p10-scan-leak", "P10", HB,
     "current_poi_test = poi_test.copy()", "current_poi_test = poi_test",
     "a chi-square scan over one entry of a dictionary of tested parameters",
     "the caller's dictionary is changed by the scan",
     """
import spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[10.0, 20.0], background_yields=[50.0, 60.0], data=[55, 70], absolute_uncertainties=[3.0, 4.0])
q = {0: [0.5, 1.0, 1.5]}
m.chi2(poi_test=q)
assert q == {0: [0.5, 1.0, 1.5]}, q
""")

seed("p02-large-variation", "P02", U,
     "    return np.clip(delta, 1.0, None)", "    return np.clip(delta, 1.0, 4.0)",
     "a signal uncertainty more than three times the yield of its bin",
     "large signal uncertainties are silently capped",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[1.0, 8.0], background_yields=[20.0, 30.0], data=[22, 33], absolute_uncertainties=[2.0, 3.0],
    modifiers=[{"type": "normalization", "name": "th", "uncertainties": [5.0, 1.0]}])
y = np.array(m.backend.expected_data([1.0, 0.0, 0.0, 1.0], include_auxiliary=False))
assert np.allclose(y, [20.0 + 6.0, 30.0 + 9.0]), y
""")

seed("p17-poi-zero", "P17", HB,
     "                    if poi_value is None\n", "                    if not poi_value\n",
     "the interval of a nuisance at a pinned strength of exactly zero",
     "the scan profiles the strength although it is to be held at zero",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[12.0, 20.0], background_yields=[50.0, 60.0], data=[70, 85], absolute_uncertainties=[3.0, 4.0])
lo, hi = m.chi2_test(parameter=1, poi_value=0.0)
best = m.maximize_likelihood(fixed_poi_value=0.0)[1]
for x in (lo, hi):
    v = 2 * (m.likelihood({0: 0.0, 1: float(x)}) - best)
    assert abs(v - 3.841459) < 2e-2, (x, v)
""")

seed("p21-qmu-alias", "P21", CO,
     'allow_negative_signal: bool = True if test_statistics in ["q", "qmu"] else False', 'allow_negative_signal: bool = test_statistics == "q"',
     "a combined Asimov fit for the unbounded statistic under its long name",
     "the combined Asimov fit is cut at zero",
     """
import spey
mk = lambda n, d: spey.get_backend("default.normal")(
    signal_yields=[5.0], background_yields=[50.0], data=[d], absolute_uncertainties=[5.0], analysis=n)
c = spey.UnCorrStatisticsCombiner(mk("a", 38.0), mk("b", 41.0))
type(c).generate_asimov_data = lambda self, **k: {"a": [40.0], "b": [40.0]}
r = [c.maximize_asimov_likelihood(test_statistics=t)[0] for t in ("q", "qmu")]
assert abs(r[0] + 2.0) < 1e-2 and abs(r[0] - r[1]) < 1e-4, r
""")

seed("p32-profile-bounds", "P32", CT,
     "_profile_bounds = [_all_bounds[i] for i in profile_indices]", "_profile_bounds = _all_bounds[k + 1 :]",
     "a contour of some of the parameters of a model in which the profiled ones come first and have other bounds",
     "the profiled parameters are confined to the ranges of others, the level is not that of the profile likelihood",
     """
import autograd.numpy as np, spey
from spey.multiparameter.contour import find_contour
m = spey.get_backend("default.multivariate_normal")(
    signal_yields=lambda p: np.array([1.0, 0.0]) * p[0] + np.array([2.0, 1.0]) * p[1], background_yields=[0.0, 0.0],
    data=[6.0, 0.5], covariance_matrix=np.eye(2), n_signal_parameters=2, signal_parameter_bounds=[(-20.0, 20.0), (-1.0, 2.0)])
r = find_contour(m, poi_indices=[2], confidence_level=0.5, n_radial=6, n_hmc_chains=1, n_hmc_steps=1, random_seed=1, n_jobs=1)
# parameter 2 is measured by the second bin alone once parameter 1 is profiled
got = sorted(set(np.round(np.asarray(r.contour_points)[:, 0], 3)))
assert np.allclose(got, [0.5 - 0.6745, 0.5 + 0.6745], atol=2e-3), got
""")

seed("p19-merged-crossings", "P19", "base/utils.py",
     "max(1e-10, 1e-8 * abs(r)):", "max(1e-10, 1e-3 * abs(r)):",
     "an interval that is narrow compared with its distance from zero",
     "both ends of the interval are taken for one crossing",
     """
from spey.base.hypotest_base import HypothesisTestingBase

class M(HypothesisTestingBase):
    is_alive = is_asymptotic_calculator_available = is_toy_calculator_available = is_chi_square_calculator_available = True
    def likelihood(self, poi_test=1.0, **kw):
        return 0.5 * ((poi_test - 60.0) / 0.01) ** 2
    def maximize_likelihood(self, **kw):
        return 60.0, 0.0
    def asimov_likelihood(self, poi_test=1.0, **kw):
        return 0.5 * poi_test**2
    def maximize_asimov_likelihood(self, **kw):
        return 0.0, 0.0
    def fixed_poi_sampler(self, *a, **k):
        raise NotImplementedError

got = M(ntoys=2).chi2_test(confidence_level=0.95, limit_type="two-sided", rtol=1e-8)
assert len(got) == 2 and abs(got[0] - 59.9804) < 1e-3 and abs(got[1] - 60.0196) < 1e-3, got
""")

seed("p06-caller-constraints", "P06", SM,
     '        if hasattr(self.backend, "constraints"):', '        if hasattr(self.backend, "constraints") and not constraints:',
     "a fit with a constraint of the caller, in a model whose background would otherwise become negative",
     "the model's own constraints are dropped as soon as the caller gives one",
     """
import numpy as np, spey
m = spey.get_backend("default.uncorrelated_background")(
    signal_yields=[5.0], background_yields=[5.0], data=[0.0], absolute_uncertainties=[8.0])
con = {"type": "ineq", "fun": lambda v: 100.0 - v[1]}
a, p = m.likelihood(2.0, return_parameters=True)
b, q = m.likelihood(2.0, return_parameters=True, constraints=[con])
assert 5.0 + 8.0 * q[1] > -1e-5 and abs(a - b) < 1e-3, (a, b, p, q)
""")

"""P25: the plug-in registry only serves valid, matching, registered models."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require, require_close

PROPERTY = "P25"
RULE = (
    "A case is a sequence of local registrations (valid, abstract, incomplete, mismatching, duplicate), installations of real "
    "entry-point distributions in a scratch directory, registry rescans and look-ups, mirrored on an ordered dictionary; or a "
    "built-in name with generated model arguments. Non-trivial: at least one accepted and one rejected operation."
)
BUDGET = {"quick": 150, "thorough": 1800}
_COUNT = itertools.count()
BUILTIN = {
    "default.uncorrelated_background": "uncorrelated", "default.correlated_background": "correlated",
    "default.third_moment_expansion": "third", "default.effective_sigma": "effsig", "default.poisson": "poisson",
    "default.normal": "normal", "default.multivariate_normal": "mvn",
}
REGISTER = ["valid", "valid", "valid", "converter", "abstract", "no_name", "no_req", "no_meta", "old", "new", "dup", "dup_builtin", "not_model"]
INSTALL = ["valid", "valid", "converter", "abstract", "unnamed", "misnamed", "no_req", "old"]


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["register", "register", "get", "get", "meta", "meta", "unknown", "reset", "install", "builtin"]))
        ops.append([k, draw(st.sampled_from(REGISTER)), draw(st.sampled_from(INSTALL)), draw(st.integers(0, 9)),
                    draw(S.num(1, 20, 1)), draw(st.integers(0, 95))])
    return {"ops": ops}


def requirement(spey, kind, meta):
    v = spey.version()
    bad = ["<0.0.2", f"<{v}", f">{v}", ">=0.0.1,<0.2.0", ">=99.0.0", "==0.1.0"]
    good = [">=0.0.1", f">={v}", f"=={v}", f"<={v}", ">=0.2.0,<1.0.0", ">=0.0.1"]
    return (bad if kind in ("old", "new") else good)[(meta >> 4) % 6]


def body(spey, kind, name, meta):
    """Class attributes for a model of the given kind."""
    from spey.base import ModelConfig

    attrs = {}
    if meta & 1:
        attrs["author"] = "A. Uthor"
    if meta & 2:
        attrs["version"] = "3.2.1"
    if meta & 4:
        attrs["doi"] = ["10.1/abc", "10.2/def"]
    if meta & 8:
        attrs["arXiv"] = ["1234.56789"]
        attrs["zenodo"] = ["42"]
    if kind not in ("no_name", "no_meta", "unnamed"):
        attrs["name"] = name
    if kind == "misnamed":
        attrs["name"] = name + ".other"
    if kind not in ("no_req", "no_meta"):
        attrs["spey_requires"] = requirement(spey, kind, meta)

    def __init__(self, signal, background, data):
        self.s, self.b, self.d = (np.array(x, float) for x in (signal, background, data))

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        lo = float(-np.min(self.b / self.s))
        return ModelConfig(0, lo, [1.0], [(lo if allow_negative_signal else 0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=spey.ExpectationType.observed, data=None):
        obs = np.array(data) if data is not None else (self.b if expected == spey.ExpectationType.apriori else self.d)
        return lambda p: float(np.sum(obs * np.log(p[0] * self.s + self.b) - (p[0] * self.s + self.b)))

    def expected_data(self, pars):
        return list(pars[0] * self.s + self.b)

    if kind == "converter":
        def __call__(self, signal, background, data):
            return make(spey, "valid", "inner", 0)(signal, background, data)

        return (spey.ConverterBase,), dict(attrs, __call__=__call__)
    attrs.update(__init__=__init__, config=config, get_logpdf_func=get_logpdf_func, expected_data=expected_data)
    if kind == "abstract":
        del attrs["get_logpdf_func"]
    return (spey.BackendBase,), attrs


def make(spey, kind, name, meta):
    bases, attrs = body(spey, kind, name, meta)
    return type("M", bases, attrs)


def expected_meta(spey, name, meta):
    return {"name": name, "author": "A. Uthor" if meta & 1 else "__unknown_author__",
            "version": "3.2.1" if meta & 2 else "__unknown_version__", "spey_requires": requirement(spey, "valid", meta),
            "doi": ["10.1/abc", "10.2/def"] if meta & 4 else [], "arXiv": ["1234.56789"] if meta & 8 else [],
            "zenodo": ["42"] if meta & 8 else []}


def install(scratch, spey, kind, name, meta):
    """A real distribution with one entry point."""
    root = tempfile.mkdtemp(dir=scratch)
    mod = f"verif_plugin_{os.getpid()}_{next(_COUNT)}"
    with open(os.path.join(root, mod + ".py"), "w") as f:
        f.write(f"import spey\nfrom checks.p25_registry import make\nModel = make(spey, {kind!r}, {name!r}, {meta})\n")
    info = os.path.join(root, f"{mod}-1.0.dist-info")
    os.mkdir(info)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        f.write(f"[spey.backend.plugins]\n{name} = {mod}:Model\n")
    sys.path.append(root)
    return root


def check(c, ev):
    import spey
    from spey.interface.statistical_model import StatisticalModel
    from spey.system.exceptions import AbstractModel, MissingMetaData, PluginError

    reg = getattr(spey, "_backend_entries", None)
    saved = dict(reg) if reg is not None else None
    path = list(sys.path)
    scratch = tempfile.mkdtemp(prefix="verif-p25-")
    names, state = [], {}  # name -> (status, meta, kind)
    pending = {}
    start = list(spey.AvailableBackends())
    accepted = rejected = 0
    fresh = lambda: f"verif.local_{os.getpid()}_{next(_COUNT)}"  # noqa: E731

    def listing():
        now = list(spey.AvailableBackends())
        require(len(set(now)) == len(now), "a model is listed twice", listed=now)
        require(now == start + names, "listed models", got=[x for x in now if x not in start], expected=names)

    def raises(fn, exc, what):
        try:
            out = fn()
        except exc:
            return
        require(False, "invalid operation accepted", what=what, result=repr(out))

    def works(name, mu, kind):
        m = spey.get_backend(name)([2.0, 1.0], [5.0, 4.0], [6.0, 3.0], analysis="x", xsection=0.5, ntoys=3)
        require(isinstance(m, StatisticalModel) and m.analysis == "x" and m.xsection == 0.5 and m.ntoys == 3, "wrapped model")
        require(isinstance(m.backend, spey.BackendBase), "back-end of the model")
        v = float(m.likelihood(mu))
        lam = mu * np.array([2.0, 1.0]) + np.array([5.0, 4.0])
        require_close(v, float(-np.sum(np.array([6.0, 3.0]) * np.log(lam) - lam)), "likelihood of a registered model", rtol=1e-12)
        if kind != "converter":
            require(m.backend_type == name, "back-end name", got=m.backend_type, expected=name)

    try:
        listing()
        for op, rk, ik, slot, mu, meta in c["ops"]:
            if op == "register":
                if rk == "dup":
                    if not names:
                        continue
                    nm = names[slot % len(names)]
                    raises(lambda: spey.register_backend(make(spey, "valid", nm, meta)), ValueError, "duplicate name")
                    rejected += 1
                elif rk == "dup_builtin":
                    nm = start[slot % len(start)]
                    raises(lambda: spey.register_backend(make(spey, "valid", nm, meta)), ValueError, "name of a built-in model")
                    rejected += 1
                elif rk == "not_model":
                    raises(lambda: spey.register_backend(type("X", (), {"name": fresh(), "spey_requires": ">=0.0.1"})),
                           (AssertionError, TypeError), "not a back-end")
                    rejected += 1
                else:
                    nm = fresh()
                    cls = make(spey, rk, nm, meta)
                    if rk in ("valid", "converter"):
                        out = spey.register_backend(cls)
                        require(out is cls, "the decorator returns the class")
                        names.append(nm)
                        state[nm] = ("ok", meta, rk)
                        accepted += 1
                    else:
                        exc = {"abstract": AbstractModel, "old": PluginError, "new": PluginError}.get(rk, MissingMetaData)
                        raises(lambda: spey.register_backend(cls), exc, rk)
                        raises(lambda: spey.get_backend(nm), PluginError, "look-up of a rejected model")
                        rejected += 1
                ev.tag("register-" + rk)
            elif op == "install":
                nm = fresh()
                install(scratch, spey, ik, nm, meta)
                importlib.invalidate_caches()
                pending[nm] = ("bad" if ik in ("abstract", "misnamed", "no_req", "old") else "ok", meta, ik)
                raises(lambda: spey.get_backend(nm), PluginError, "not scanned yet")
                ev.tag("install-" + ik)
            elif op == "reset":
                spey.reset_backend_entries()
                found = [x for x in spey.AvailableBackends() if x not in start and x not in names]
                require(sorted(found) == sorted(pending), "models found by a rescan", got=found, expected=sorted(pending))
                for x in found:
                    names.append(x)
                    state[x] = pending.pop(x)
                    accepted += 1
            elif op in ("get", "meta") and names:
                nm = names[slot % len(names)]
                status, mt, kind = state[nm]
                if op == "meta":
                    if status == "ok":
                        got = spey.get_backend_metadata(nm)
                        exp = expected_meta(spey, nm, mt)
                        if kind == "unnamed" and got["name"] == "__unknown_model__":
                            exp["name"] = "__unknown_model__"  # named once it has been served
                        require(got == exp, "metadata", got=got, expected=exp)
                        got["doi"].append("poison")
                        require(spey.get_backend_metadata(nm)["doi"] == exp["doi"], "metadata can be modified from outside")
                elif status == "ok":
                    works(nm, mu, kind)
                else:
                    exc = {"abstract": AbstractModel, "old": PluginError}.get(kind, AssertionError)
                    raises(lambda: spey.get_backend(nm), exc, "invalid installed model: " + kind)
                    rejected += 1
                ev.tag(op + "-" + kind)
            elif op == "unknown":
                nm = ["", "default", "default.poisson ", "Default.Poisson", "no.such", fresh()][slot % 6]
                raises(lambda: spey.get_backend(nm), PluginError, "unknown name")
                raises(lambda: spey.get_backend_metadata(nm), PluginError, "metadata of an unknown name")
                rejected += 1
            elif op == "builtin":
                nm = sorted(BUILTIN)[slot % len(BUILTIN)]
                require(nm in spey.AvailableBackends(), "built-in model is not listed", name=nm)
                md = spey.get_backend_metadata(nm)
                require(md["name"] == nm and md["author"] and md["version"] and md["spey_requires"], "metadata of a built-in model", md=md)
            listing()
        ev.mark(accepted > 0 and rejected > 0)
    finally:
        sys.path[:] = path
        if reg is not None:
            reg.clear()
            reg.update(saved)
        shutil.rmtree(scratch, ignore_errors=True)


@st.composite
def builtin_case(draw):
    name = draw(st.sampled_from(sorted(BUILTIN)))
    return {"name": name, "spec": draw(S.model(kinds=(BUILTIN[name],), max_bins=3, tame=True)), "mu": draw(S.num(0, 1, 2))}


def check_builtin(c, ev):
    """Every listed model is retrievable, described like its class and builds a working model."""
    import spey
    from harness.reference import Ref

    from semantic_version import SimpleSpec, Version

    avail = spey.AvailableBackends()
    require(c["name"] in avail, "not listed", name=c["name"], listed=avail)
    avail.append("poison")
    avail.clear()
    require(c["name"] in spey.AvailableBackends(), "the listing can be modified from outside")
    for n in spey.AvailableBackends():
        require(callable(spey.get_backend(n)), "listed model cannot be retrieved", name=n)
    md = spey.get_backend_metadata(c["name"])
    m = spey.get_backend(c["name"])(**models.kwargs(c["spec"]), analysis="a")
    cls = type(m.backend)
    for k in ("name", "author", "version", "spey_requires"):
        require(md[k] == getattr(cls, k), "metadata differ from the class", key=k, got=md[k])
    for k in ("doi", "arXiv", "zenodo"):
        require(md[k] == list(getattr(cls, k, [])), "metadata differ from the class", key=k, got=md[k])
    require(Version(spey.version()) in SimpleSpec(md["spey_requires"]), "served although the version requirement is not met")
    require(m.backend_type == c["name"], "back-end name", got=m.backend_type)
    ref = Ref(c["spec"])
    p = np.zeros(ref.npar)
    p[0] = c["mu"]
    require_close(float(m.backend.get_logpdf_func()(p)), float(ref.logpdf(p)), "density of the retrieved model",
                  rtol=2e-6 if ref.kind == "third" else 1e-9, atol=1e-7)
    ev.tag(c["name"])
    ev.mark(True)


SUBS = [
    Sub("registry", case, check, quick=1200, thorough=20000),
    Sub("builtin", builtin_case, check_builtin, quick=300, thorough=3000),
]

"""P28: web look-ups never break the library and hit the network at most once a day."""
import importlib.util
import io
import itertools
import json
import logging
import os
import platform
import shutil
import tempfile
import time
from datetime import datetime, timezone
from urllib.parse import unquote, urlparse

from hypothesis import strategies as st

from harness.core import Sub, require

PROPERTY = "P28"
RULE = (
    "updates: a home directory (missing, blocked by a file, with fresh/stale/corrupt/foreign cache files) and a sequence of "
    "(network outcome, published version and Python requirement, elapsed time, corruption) with the installed version, Python "
    "version and time zone generated; the reference predicts the number of requests, the cache files and the warnings of every "
    "step. Non-trivial: the history contains a request and an answer from the cache, or a faulty request or cache file. "
    "bibtex: scripted answers per address for single look-ups, a registered back-end's references and cite(). Non-trivial: at least two different outcomes."
)
ASSUMPTIONS = ["the network is replaced below requests (HTTPAdapter.send); HOME is a scratch directory"]
BUDGET = {"quick": 120, "thorough": 1800}
DAY = 86400
_COUNT = itertools.count()


# ------------------------------------------------------------------ scripted network
def make_response(request, status, body, headers=None):
    import requests

    r = requests.models.Response()
    r.status_code = status
    r.request = request
    r.url = request.url
    r.raw = io.BytesIO(body)
    r.headers = requests.structures.CaseInsensitiveDict(headers or {"content-type": "text/plain"})
    return r


def exceptions():
    import requests

    e = requests.exceptions
    return {
        "connection": e.ConnectionError("scripted"), "connect_timeout": e.ConnectTimeout("scripted"), "read_timeout": e.ReadTimeout("scripted"),
        "ssl": e.SSLError("scripted"), "proxy": e.ProxyError("scripted"), "chunked": e.ChunkedEncodingError("scripted"),
        "decoding": e.ContentDecodingError("scripted"), "redirects": e.TooManyRedirects("scripted"), "url": e.InvalidURL("scripted"),
        "oserror": OSError("scripted"), "value": ValueError("scripted"), "runtime": RuntimeError("scripted"),
    }


CONNECTIVITY = ["connection", "connect_timeout", "read_timeout", "ssl", "proxy"]
OTHER = ["chunked", "decoding", "redirects", "url", "oserror", "value", "runtime"]


class Network:
    """Replaces the transport of requests for the duration of a case."""

    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def __enter__(self):
        import requests

        self.cls = requests.adapters.HTTPAdapter
        self.orig = self.cls.send
        net = self

        def send(self, request, **kwargs):
            net.calls.append(request.url)
            return net.answer(request)

        self.cls.send = send
        return self

    def __exit__(self, *exc):
        self.cls.send = self.orig
        return False


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage()))


class Listening:
    def __enter__(self):
        self.lg = logging.getLogger("Spey")
        self.state = (list(self.lg.handlers), self.lg.level, self.lg.propagate)
        self.h = Records()
        self.lg.handlers[:] = [self.h]
        self.lg.setLevel(10)
        self.lg.propagate = False
        return self.h

    def __exit__(self, *exc):
        self.lg.handlers[:], self.lg.propagate = self.state[0], self.state[2]
        self.lg.setLevel(self.state[1])
        return False


# ------------------------------------------------------------------ update check
ident = st.sampled_from(["alpha", "beta", "rc", "b3", "dev", "beta.1", "beta.2", "beta.11", "alpha.beta", "rc.1", "betas"])
num = st.sampled_from([0, 1, 2, 7, 9, 10, 11])


@st.composite
def version(draw, pre=0.4):
    v = [0, draw(st.sampled_from([1, 2, 2, 10])), draw(num)]
    if draw(st.booleans()) and draw(st.booleans()):
        v[0] = draw(st.integers(0, 2))
    out = ".".join(map(str, v))
    if draw(st.floats(0, 1)) < pre:
        out += "-" + draw(ident)
    return out


clause = st.tuples(st.sampled_from([">=", ">=", "<", "<=", ">", "!=", "=="]), st.sampled_from([[3, 8], [3, 10], [3, 12], [3, 12, 3], [3, 9, 1], [4, 0], [3, 13]]))


@st.composite
def published(draw):
    kind = draw(st.sampled_from(["good"] * 8 + ["noinfo", "noversion", "nullversion", "badversion", "pep440", "badreq", "infolist", "nondict"]))
    out = {"kind": kind, "version": draw(version(0.15)), "requires": None, "sep": draw(st.sampled_from([",", ", "]))}
    out["requires"] = draw(st.one_of(st.none(), st.just([]), st.lists(clause, min_size=1, max_size=3), st.lists(clause, min_size=1, max_size=2)))
    out["extra"] = draw(st.sampled_from([None, "é✓", {"a": [1, None, 2.5]}]))
    out["missing"] = draw(st.booleans())
    return out


ages = st.sampled_from([5, 70, 3600, 3 * 3600, 12 * 3600, 20 * 3600, DAY - 60, DAY + 60, 27 * 3600, 33 * 3600, 2 * DAY, 30 * DAY])
outcome = st.one_of(
    st.tuples(st.just("ok"), st.sampled_from([200, 200, 200, 201]), published()),
    st.tuples(st.just("ok"), st.just(200), published()),
    st.tuples(st.just("raise"), st.sampled_from(CONNECTIVITY + OTHER)),
    st.tuples(st.just("text"), st.sampled_from([200, 404, 500, 503]), st.sampled_from(["", "<html>", "{", "nul", '{"info": ', "\xff\xfe"])),
)


@st.composite
def update_case(draw):
    files = draw(st.lists(st.tuples(ages, st.one_of(st.just("good"), st.just("good"), st.sampled_from(
        ["trunc", "empty", "binary", "dir", "null", "list"])), published()), max_size=4, unique_by=lambda f: f[0]))
    steps = draw(st.lists(st.tuples(outcome, st.sampled_from([0, 0, 3600, DAY // 2, DAY + 60, 3 * DAY]),
                                    st.sampled_from(["keep", "keep", "keep", "trunc", "delete"])), min_size=1, max_size=5))
    return {
        "home": draw(st.sampled_from(["ok", "ok", "ok", "ok", "nodir", "nodir", "blocked", "nohome", "dangling"])),
        "files": [list(f) for f in files], "steps": [list(s) for s in steps],
        "version": draw(version(0.5)), "python": draw(st.sampled_from(["3.8.0", "3.8.19", "3.9.1", "3.10.2", "3.12.3", "3.13.0", "3.14.1", "4.0.0"])),
        "tz": draw(st.sampled_from(["UTC0", "AAA-9", "BBB+8", "CCC+3:30"])),
        "foreign": draw(st.lists(st.sampled_from(["config.json", "pypi_latest.json", "pypi_latest_20240101_000000.txt", "notes"]), max_size=2, unique=True)),
    }


def payload(p):
    if p["kind"] == "nondict":
        return ["not", "a", "dictionary"]
    if p["kind"] == "noinfo":
        return {"urls": []}
    if p["kind"] == "infolist":
        return {"info": [1, 2]}
    info = {"version": p["version"], "requires_python": None, "summary": p["extra"]}
    if p["requires"] is not None:
        info["requires_python"] = p["sep"].join(op + ".".join(map(str, v)) for op, v in p["requires"])
    elif p["missing"]:
        del info["requires_python"]
    if p["kind"] == "noversion":
        del info["version"]
    elif p["kind"] == "nullversion":
        info["version"] = None
    elif p["kind"] == "badversion":
        info["version"] = ["0", "1"]
    elif p["kind"] == "pep440":
        info["version"] = "0.2.7b3.post1"
    elif p["kind"] == "badreq":
        info["requires_python"] = "python three"
    return {"info": info, "urls": [{"u": 1}], "releases": {}}


def semkey(v):
    """Precedence key of a semantic version (semver.org, section 11)."""
    core, _, pre = v.partition("-")
    ids = [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in pre.split(".")] if pre else []
    return [int(x) for x in core.split(".")], (not ids), ids


def less(a, b):
    (ca, sa, ia), (cb, sb, ib) = semkey(a), semkey(b)
    if ca != cb:
        return ca < cb
    if sa != sb:
        return not sa  # a pre-release precedes the release
    return ia < ib


def satisfied(python, requires):
    """Does the Python version match every clause?  Partial versions stand for the whole series."""
    py = [int(x) for x in python.split(".")]
    for op, v in requires or []:
        head = py[: len(v)]
        ok = {">=": head >= v, "<": head < v, "<=": head <= v, ">": head > v, "!=": head != v, "==": head == v}[op]
        if not ok:
            return False
    return True


def check_warnings(got, p, current, python):
    """The warnings of one update check given the information it used."""
    warnings = [m for lv, m in got if lv >= 30]
    if p is None:
        require(not warnings, "warnings although nothing is known about the published version", got=warnings)
        return "none"
    if p["kind"] in ("noinfo", "noversion", "nullversion"):
        require(not warnings, "warnings although no version is published", got=warnings)
        return "none"
    if p["kind"] in ("badversion", "pep440", "infolist", "nondict"):
        return "undecided"
    new = p["version"]
    pre = current.partition("-")[2].split(".") if "-" in current else []
    kind = "prerelease" if "beta" in pre else "newer" if less(current, new) else "unstable" if less(new, current) else "equal"
    text = {"prerelease": "A prerelease version of Spey is in use", "newer": "A newer version", "unstable": "An unstable version of Spey", "equal": None}[kind]
    about = [m for m in warnings if "requires python" not in m]
    if text is None:
        require(not about, "warning although the published version is the installed one", got=about)
    else:
        require(len(about) == 1 and text in about[0] and new in about[0] and current in about[0], f"the version warning is missing or wrong ({kind})",
                got=warnings, current=current, published=new)
    if p["kind"] != "badreq":
        req = [m for m in warnings if "requires python" in m]
        bad = not satisfied(python, p["requires"])
        require(len(req) == int(bad), "the warning about the Python version is missing or unfounded", got=warnings, requires=p["requires"], python=python)
        if bad:
            require(python in req[0], "the warning names another Python version", got=req)
            kind += "+python"
    return kind


def stamp(t):
    return datetime.fromtimestamp(t, tz=timezone.utc).strftime("%Y%m%d_%H%M%S")


def load(current, python):
    """A fresh copy of the module bound to the scratch home, version and Python version."""
    import spey._version
    from spey.system import webutils

    spec = importlib.util.spec_from_file_location(f"verif_webutils_{next(_COUNT)}", webutils.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def update_check(case, ev):
    import spey
    import spey._version

    scratch = tempfile.mkdtemp(prefix="verif-p28-")
    home = os.path.join(scratch, "home")
    cache = os.path.join(home, ".spey")
    env = {k: os.environ.get(k) for k in ("HOME", "TZ")}
    keep_version, keep_python = spey._version.__version__, platform.python_version
    keep_spey = getattr(spey, "__version__", None)
    by_text = {}  # serialised payload -> description
    try:
        if case["home"] != "nohome":
            os.mkdir(home)
        if case["home"] == "blocked":
            with open(cache, "w") as f:
                f.write("x")
        elif case["home"] == "dangling":
            os.symlink(os.path.join(scratch, "nowhere", "deep"), cache)
        elif case["home"] == "ok":
            os.mkdir(cache)
            now = time.time()
            for age, kind, p in case["files"]:
                path = os.path.join(cache, f"pypi_latest_{stamp(now - age)}.json")
                data = payload(p)
                text = json.dumps(data)
                by_text[json.dumps(data, sort_keys=True)] = p
                if kind == "dir":
                    os.mkdir(path)
                else:
                    raw = {"good": text.encode(), "trunc": text.encode()[: len(text) // 2], "empty": b"", "binary": b"\xff\x00\xfe" * 9,
                           "null": b"null", "list": b"[1, 2]"}[kind]
                    with open(path, "wb") as f:
                        f.write(raw)
                os.utime(path, (now - age, now - age))
            for name in case["foreign"]:
                with open(os.path.join(cache, name), "w") as f:
                    f.write("{}")
        writable = case["home"] in ("ok", "nodir")
        os.environ["HOME"], os.environ["TZ"] = home, case["tz"]
        time.tzset()
        spey._version.__version__ = case["version"]
        if keep_spey is not None:
            spey.__version__ = case["version"]
        platform.python_version = lambda: case["python"]
        mod = load(case["version"], case["python"])

        def state():
            """[(name, age, raw bytes or None for a directory)], newest first, and the foreign files."""
            out, other = [], {}
            if not os.path.isdir(cache):
                return out, other
            for n in sorted(os.listdir(cache), reverse=True):
                path = os.path.join(cache, n)
                raw = None if os.path.isdir(path) else open(path, "rb").read()
                if n.startswith("pypi_latest_") and n.endswith(".json"):
                    out.append((n, time.time() - os.stat(path).st_mtime, raw))
                else:
                    other[n] = raw
            return out, other

        requests_seen = cached_seen = faults = 0
        for (step, elapsed, tamper) in case["steps"]:
            files, foreign = state()
            # what the cache offers: the newest readable entry younger than a day
            usable, odd = None, False
            for n, age, raw in files:
                if age > DAY:
                    break
                try:
                    data = json.loads(raw.decode("utf-8"))
                except Exception:  # noqa: BLE001
                    faults += 1
                    continue
                if not isinstance(data, dict):
                    odd = True  # readable JSON of another shape: either answer is fine
                    break
                usable = data
                break
            if step[0] == "ok":
                data = payload(step[2])
                by_text[json.dumps(data, sort_keys=True)] = step[2]
                body = json.dumps(data, ensure_ascii=False).encode()

                def answer(request, status=step[1], body=body):
                    return make_response(request, status, body, {"content-type": "application/json"})
            elif step[0] == "text":
                def answer(request, status=step[1], body=step[2].encode("latin-1")):
                    return make_response(request, status, body)
            else:
                def answer(request, err=step[1]):
                    raise exceptions()[err]

            with Listening() as records, Network(answer) as net:
                try:
                    out = mod.check_updates()
                except Exception as err:  # noqa: BLE001
                    require(False, "checking for updates raised", error=repr(err))
            require(out is None, "check_updates returns a value", got=repr(out))
            after, foreign_after = state()
            require(foreign_after == foreign, "files that are not cache entries changed")
            require(all("pypi.org" in u for u in net.calls), "another address was contacted", calls=net.calls)
            if odd:
                ev.tag("odd-cache")
                require(len(net.calls) <= 1, "more than one request", calls=net.calls)
            elif usable is not None:
                cached_seen += 1
                require(not net.calls, "the network was contacted although a cache entry younger than a day exists",
                        ages=[a for _, a, _ in files])
                require([(n, r) for n, _, r in after] == [(n, r) for n, _, r in files], "answering from the cache changed the cache files")
                kind = check_warnings(records.got, by_text.get(json.dumps(usable, sort_keys=True)), case["version"], case["python"])
                ev.tag("warn-" + kind)
            else:
                requests_seen += 1
                require(len(net.calls) == 1, "exactly one request is expected without a usable cache entry", calls=net.calls,
                        ages=[a for _, a, _ in files], home=case["home"])
                if step[0] == "ok":
                    kind = check_warnings(records.got, step[2], case["version"], case["python"])
                    ev.tag("warn-" + kind)
                    if writable and not isinstance(payload(step[2]), dict):
                        pass
                    elif writable:
                        left = [(n, r) for n, _, r in after if r is not None]
                        require(len(left) == 1, "after a refresh exactly the newest cache entry remains", left=[n for n, _ in left])
                        require(json.loads(left[0][1].decode("utf-8")) == payload(step[2]), "the cached information differs from the answer")
                else:
                    faults += 1
                    check_warnings(records.got, None, case["version"], case["python"])
                    require([(n, r) for n, _, r in after] == [(n, r) for n, _, r in files], "a failed request changed the cache")
            # time passes (older name and modification time for every entry), files get damaged
            if tamper != "keep" and os.path.isdir(cache):
                names = [n for n, _, r in state()[0] if r is not None]
                if names:
                    path = os.path.join(cache, names[0])
                    if tamper == "delete":
                        os.remove(path)
                    else:
                        mtime = os.stat(path).st_mtime
                        raw = open(path, "rb").read()
                        with open(path, "wb") as f:
                            f.write(raw[: len(raw) // 2])
                        os.utime(path, (mtime, mtime))
            if elapsed and os.path.isdir(cache):
                for n, _, _ in reversed(state()[0]):  # oldest first: names stay distinct
                    path = os.path.join(cache, n)
                    t = os.stat(path).st_mtime - elapsed
                    new = os.path.join(cache, f"pypi_latest_{stamp(t)}.json")
                    if not os.path.exists(new):
                        os.rename(path, new)
                        path = new
                    os.utime(path, (t, t))
        ev.mark((requests_seen and cached_seen) or faults)
        ev.tag("home-" + case["home"])
    finally:
        spey._version.__version__ = keep_version
        if keep_spey is not None:
            spey.__version__ = keep_spey
        platform.python_version = keep_python
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ bibliography
BODIES = ["@article{Key:2020,\n    title = \"A title\",\n    year = 2020\n}\n", "@software{key_2023,\n  author = {Ü, ñ ✓},\n}", "plain", "two\nlines", "@software{odd[(*,\n x}\n",
          "@misc{a,\n\n b\n}"]
lookup = st.one_of(
    st.tuples(st.just("ok"), st.sampled_from([200, 200, 201, 299]), st.integers(0, len(BODIES) - 1)),
    st.tuples(st.just("ok"), st.just(200), st.integers(0, len(BODIES) - 1)),
    st.tuples(st.just("status"), st.sampled_from([300, 301, 304, 400, 403, 404, 406, 410, 429, 500, 502, 503]), st.integers(0, len(BODIES) - 1)),
    st.tuples(st.just("raise"), st.sampled_from(CONNECTIVITY), st.just(0)),
    st.tuples(st.just("raise"), st.sampled_from(OTHER), st.just(0)),
    st.tuples(st.just("redirect"), st.just(200), st.integers(0, len(BODIES) - 1)),
    st.tuples(st.just("bytes"), st.just(200), st.just(0)),
)


@st.composite
def bib_case(draw):
    return {
        "arXiv": draw(st.lists(lookup, max_size=3)), "doi": draw(st.lists(st.tuples(lookup, lookup), max_size=3)),
        "zenodo": draw(st.lists(lookup, max_size=2)), "calm": draw(st.booleans()),
        "cite": [draw(lookup), draw(lookup)],
        "single": draw(st.lists(st.tuples(st.sampled_from(["inspire/arxiv", "inspire/doi", "doi", "zenodo"]), lookup), min_size=1, max_size=3)),
    }


RAW = b"caf\xe9 \xff \xe2\x9c\x93"


def outcome_of(script):
    """(text or None for a connectivity problem) of one scripted look-up."""
    kind, arg, body = script
    if kind == "raise":
        return None if arg in CONNECTIVITY else ""
    if kind == "status":
        return ""
    if kind == "bytes":
        return RAW.decode("utf-8", "replace")
    return BODIES[body]


def lines(text):
    return [x.strip() for x in text.splitlines() if x.strip()]


def bib_check(case, ev):
    import spey
    from spey.system.webutils import ConnectionError as Documented

    table = {}

    def answer(request):
        url = urlparse(request.url)
        path = unquote(url.path)
        if url.netloc == "mirror.example":
            return make_response(request, 200, BODIES[int(path.strip("/"))].encode("utf-8"))
        for (host, ident_), script in table.items():
            if host in url.netloc + path and path.endswith("/" + ident_):
                kind, arg, body = script
                if kind == "raise":
                    raise exceptions()[arg]
                if kind == "redirect":
                    return make_response(request, 302, b"", {"location": f"http://mirror.example/{body}"})
                if kind == "bytes":
                    return make_response(request, 200, RAW, {"content-type": "text/plain; charset=latin-1"})
                return make_response(request, arg, BODIES[body].encode("utf-8"), {"content-type": "application/x-bibtex; charset=iso-8859-1"})
        raise AssertionError(f"unexpected address {request.url}")

    def calm(script):
        return ("status", 404, 0) if case["calm"] and script[0] == "raise" and script[1] in CONNECTIVITY else tuple(script)

    outcomes = set()
    unexpected = []
    with Listening(), Network(answer):
        # single look-ups
        hosts = {"inspire/arxiv": "inspirehep.net/api/arxiv", "inspire/doi": "inspirehep.net/api/doi", "doi": "doi.org", "zenodo": "zenodo.org"}
        for k, (home, script) in enumerate(case["single"]):
            ident_ = ["2101.0001", "10.1234/ab-c", "10.5281/z.1", "424242"][["inspire/arxiv", "inspire/doi", "doi", "zenodo"].index(home)]
            table.clear()
            table[(hosts[home], ident_)] = script
            want = outcome_of(script)
            outcomes.add((script[0], script[1] if script[0] == "raise" else 0))
            try:
                got = spey.get_bibtex(home, ident_)
            except Documented:
                require(want is None, "the documented connectivity error for something else", script=script)
            except Exception as err:  # noqa: BLE001
                require(False, "a bibliography look-up raised an undocumented error", error=repr(err), script=script)
            else:
                require(want is not None, "a connectivity problem is not reported", script=script, got=got)
                require(got == want, "text of a look-up", got=got, want=want, script=script)
        # the references of a back-end
        table.clear()
        ids = {"arXiv": [f"2101.000{i}" for i in range(len(case["arXiv"]))], "doi": [f"10.1234/d{i}" for i in range(len(case["doi"]))],
               "zenodo": [f"90{i}" for i in range(len(case["zenodo"]))]}
        full, sure, down = {"inspire": [], "doi.org": [], "zenodo": []}, {"inspire": [], "doi.org": [], "zenodo": []}, False

        def add(key, text):
            full[key].append(text)
            if not down:
                sure[key].append(text)

        for i, sc in zip(ids["arXiv"], case["arXiv"]):
            sc = table[("inspirehep.net/api/arxiv", i)] = calm(sc)
            t = outcome_of(sc)
            down = down or t is None
            if t:
                add("inspire", t)
        for i, (a, b) in zip(ids["doi"], case["doi"]):
            a = table[("inspirehep.net/api/doi", i)] = calm(a)
            b = table[("doi.org", i)] = calm(b)
            t = outcome_of(a)
            down = down or t is None
            if t:
                add("inspire", t)
            else:
                t = outcome_of(b)
                down = down or t is None
                if t:
                    add("doi.org", t)
        for i, sc in zip(ids["zenodo"], case["zenodo"]):
            sc = table[("zenodo.org", i)] = calm(sc)
            t = outcome_of(sc)
            down = down or t is None
            if t:
                add("zenodo", t)
        outcomes.update((s[0], s[1] if s[0] == "raise" else 0) for s in table.values())
        from checks.p25_registry import make as make_backend

        name = f"verif.bib_{os.getpid()}_{next(_COUNT)}"
        cls = make_backend(spey, "valid", name, 0)
        for k, v in ids.items():
            setattr(cls, k, v)
        spey.register_backend(cls)
        got = spey.get_backend_bibtex(name)
        require(isinstance(got, dict) and sorted(got) == ["doi.org", "inspire", "zenodo"], "shape of the collected references", got=got)
        for k in full:
            g = [lines(x) for x in got[k]]
            f, s = [lines(x) for x in full[k]], [lines(x) for x in sure[k]]
            if down:
                it = iter(f)
                require(all(x in it for x in g), "references nobody returned", key=k, got=g, available=f)
                require(g[: len(s)] == s, "references found before the connection failed are lost", key=k, got=g, expected=s)
            else:
                require(g == f, "collected references", key=k, got=g, expected=f)
        # citing the package
        table.clear()
        for h, sc in zip(("inspirehep.net/api/arxiv", "zenodo.org"), case["cite"]):
            table[(h, {"inspirehep.net/api/arxiv": "2307.06996", "zenodo.org": "10156353"}[h])] = calm(sc)
        a, z = (outcome_of(calm(sc)) for sc in case["cite"])
        got = spey.cite()
        require(isinstance(got, str), "cite() does not return text", got=repr(got))
        if a is None or z is None:
            require(got == "", "cite() without a connection", got=got)
        else:
            require(got.startswith(a), "cite() loses the article", got=got)
            want = z
            if z.startswith("@software{") and ",\n" in z:
                key = z[len("@software{"): z.index(",\n")]
                want = z.replace(key, "spey_zenodo")
            require(got[len(a):].strip() == want.strip(), "cite() loses the software reference", got=got, want=want)
    ev.mark(len(outcomes) > 1)
    ev.tag("down" if down else "up")


SUBS = [
    Sub("updates", update_case, update_check, quick=1600, thorough=60000),
    Sub("bibtex", bib_case, bib_check, quick=800, thorough=30000),
]

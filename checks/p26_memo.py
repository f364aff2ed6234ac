"""P26: memoisation: sequential histories against a reference cache and scripted thread schedules."""
import collections
import copy
import threading
import time

import numpy as np
from hypothesis import strategies as st

from harness import strategies as S
from harness.core import Sub, require

PROPERTY = "P26"
RULE = (
    "history: a sequence of calls (plain function, two methods on up to three instances, an overriding subclass "
    "method, slots classes; nested list/dict/set/array/None/string arguments passed by position or keyword; "
    "raising values; cache_clear; mutation of returned values) compared with a reference FIFO cache. Non-trivial: "
    "it contains a hit and a recomputation of an evicted, cleared, failed or differing call. "
    "threads: a scripted schedule of concurrent callers, gated computations, failures and clears. Non-trivial: at "
    "least two callers wait for one computation. recursion: a memoised recursive function deeper than its cache."
)
BUDGET = {"quick": 120, "thorough": 2400}


# ------------------------------------------------------------------ values
scalars = st.one_of(
    st.integers(2, 6), S.num(0.1, 0.9, 1), st.sampled_from(["a", "b", "mu", ""]), st.none(),
)


def arr(draw):
    shape = draw(st.sampled_from([[2], [3], [1, 2], [2, 1], [2, 2], [0]]))
    n = int(np.prod(shape))
    return {"arr": draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)), "shape": shape,
            "dt": draw(st.sampled_from(["f8", "i8", "f4", "O", "bits"])), "order": draw(st.sampled_from(["C", "F"]))}


arrays = st.composite(arr)()
values = st.recursive(
    st.one_of(scalars, arrays),
    lambda ch: st.one_of(
        st.lists(ch, max_size=3).map(lambda v: {"list": v}),
        st.lists(st.tuples(st.one_of(st.integers(2, 4), st.sampled_from(["a", "b"])), ch), max_size=3,
                 unique_by=lambda kv: kv[0]).map(lambda v: {"dict": [list(x) for x in v]}),
        st.lists(st.tuples(st.sampled_from(["a", "b"]), ch), min_size=1, max_size=2).map(
            lambda v: {"list": [{"list": list(x)} for x in v]}),
        st.lists(st.integers(2, 5), max_size=3, unique=True).map(lambda v: {"set": v}),
    ),
    max_leaves=5,
)


def real(v):
    """JSON description -> fresh Python object."""
    if isinstance(v, dict):
        if "arr" in v:
            a = np.array(v["arr"], dtype=float).reshape(v["shape"])
            if v["dt"] == "O":
                o = np.empty(a.size, dtype=object)
                o[:] = [f"v{int(x)}" * 2 for x in a.ravel()]
                return o.reshape(a.shape)
            if v["dt"] == "bits":  # same bytes as the float array, other numbers
                return np.array(np.ascontiguousarray(a).view("i8"), order=v["order"])
            return np.array(a, dtype=v["dt"], order=v["order"])
        if "list" in v:
            return [real(x) for x in v["list"]]
        if "dict" in v:
            return {k: real(x) for k, x in v["dict"]}
        return set(v["set"])
    return v


def canon(x):
    """Reference equality: hashable canonical form of a real object."""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.dtype.str, tuple(map(str, x.ravel().tolist())))
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return ("map", frozenset((canon(k), canon(i)) for k, i in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(map(canon, x)))
    return (type(x).__name__, x)


class Boom(Exception):
    pass


# ------------------------------------------------------------------ sequential histories
class World:
    """The memoised objects under test with one shared call log."""

    def __init__(self, maxsize, copyret):
        from spey.system.cache import cache_results

        log = self.log = []
        fail = self.fail = set()

        def body(tag, a, b, rest, kw):
            # the value the plain function returns for these arguments (fresh containers)
            key = (tag, canon(a), canon(b), canon(list(rest)), canon(kw))
            log.append(key)
            if key[1] in fail:
                fail.discard(key[1])
                raise Boom(repr(key[1]))
            return {"tag": tag, "args": [repr(canon(a)), repr(canon(b)), repr(canon(list(rest))), sorted(kw)],
                    "box": [1, 2], "arr": np.arange(3.0)}

        deco = cache_results(maxsize=maxsize, copy_on_return=copyret)

        @deco
        def plain(a, b=0.25, *rest, **kw):
            return body("plain", a, b, rest, kw)

        @deco
        def other(a, b=0.25, *rest, **kw):
            return body("other", a, b, rest, kw)

        class A:
            def __init__(self, name):
                self.name = name

            @deco
            def m(self, a, b=0.25, *rest, **kw):
                return body(self.name + ".m", a, b, rest, kw)

            @cache_results(maxsize=maxsize, copy_on_return=copyret, per_instance=True)
            def k(self, a, b=0.25, *rest, **kw):
                return body(self.name + ".k", a, b, rest, kw)

        class B(A):
            @deco
            def m(self, a, b=0.25, *rest, **kw):
                return body(self.name + ".mB", a, b, rest, kw)

            def base(self, *args, **kw):
                return super().m(*args, **kw)

        class Slot:
            __slots__ = ("name", "__weakref__")

            def __init__(self, name):
                self.name = name

            @deco
            def m(self, a, b=0.25, *rest, **kw):
                return body(self.name + ".m", a, b, rest, kw)

        class Slot2:
            __slots__ = ("name",)

            def __init__(self, name):
                self.name = name

            @deco
            def m(self, a, b=0.25, *rest, **kw):
                return body(self.name + ".m", a, b, rest, kw)

        self.keep = [A("x"), A("y"), B("z"), Slot("s"), Slot("t"), Slot2("u")]
        x, y, z, s, t, u = self.keep
        self.targets = {
            "plain": lambda: plain, "other": lambda: other,
            "x.m": lambda: x.m, "x.k": lambda: x.k, "y.m": lambda: y.m, "z.mB": lambda: z.m, "z.k": lambda: z.k,
            "z.m": lambda: z.base, "s.m": lambda: s.m, "t.m": lambda: t.m, "u.m": lambda: u.m,
        }


TARGETS = ["plain", "other", "x.m", "x.k", "y.m", "z.mB", "z.k", "z.m", "s.m", "t.m", "u.m"]


def sibling(draw, v):
    """A value that differs from v in its layout, type or nesting only."""
    if isinstance(v, dict) and "arr" in v:
        n = len(v["arr"])
        if v["dt"] in ("f8", "i8", "bits") and draw(st.integers(0, 2)) == 0:
            return dict(v, dt="bits") if v["dt"] == "f8" else dict(v, dt="f8")
        shape = draw(st.sampled_from([[n], [1, n], [n, 1], [1, 1, n]]))
        return dict(v, shape=shape) if draw(st.booleans()) else dict(v, order="F" if v["order"] == "C" else "C",
                                                                     dt=draw(st.sampled_from([v["dt"], "f8", "i8", "f4"])))
    if isinstance(v, dict) and "dict" in v:
        return {"list": [{"list": [k, x]} for k, x in v["dict"]]}
    if isinstance(v, dict) and "set" in v:
        return {"list": list(v["set"])}
    if isinstance(v, dict) and "list" in v:
        return draw(st.sampled_from([{"list": [v]}, {"list": v["list"][::-1]}, {"list": v["list"] + [None]}]))
    if isinstance(v, int):
        return str(v)
    return {"list": [v]}


@st.composite
def history(draw):
    pool = draw(st.lists(values, min_size=2, max_size=5))
    pool = pool + [0.25] + [sibling(draw, v) for v in pool[: draw(st.integers(0, 3))]]
    tg = draw(st.lists(st.sampled_from(TARGETS), min_size=1, max_size=4, unique=True))
    ops = []
    for _ in range(draw(st.integers(4, 30))):
        kind = draw(st.sampled_from(["call"] * 7 + ["clear", "fail", "near", "near"]))
        t = draw(st.sampled_from(tg))
        i = draw(st.integers(0, len(pool) - 1))
        if kind == "call" or kind == "near":
            form = draw(st.sampled_from(["a", "ka", "ab", "a,kb", "kba", "abr", "kw", "akw2"]))
            j = draw(st.integers(0, len(pool) - 1))
            ops.append({"op": "call", "t": t, "a": i, "b": j, "form": form,
                        "mut": draw(st.booleans()), "inplace": draw(st.integers(0, 5)) == 0})
            if kind == "near":  # the same call with a value that is nearly the same
                pool.append(sibling(draw, pool[i]))
                ops.append(dict(ops[-1], a=len(pool) - 1))
        elif kind == "fail":
            ops.append({"op": "fail", "a": i})
        else:
            ops.append({"op": "clear", "t": t})
    return {"pool": pool, "maxsize": draw(st.sampled_from([1, 2, 3, 4, 128, None])),
            "copy": draw(st.sampled_from([True, True, False])), "ops": ops}


def call_forms(form, a, b):
    """args, kwargs and the effective (a, b, rest, kw)."""
    if form == "a":
        return (a,), {}, (a, 0.25, [], {})
    if form == "ka":
        return (), {"a": a}, (a, 0.25, [], {})
    if form == "ab":
        return (a, b), {}, (a, b, [], {})
    if form == "a,kb":
        return (a,), {"b": b}, (a, b, [], {})
    if form == "kba":
        return (), {"b": b, "a": a}, (a, b, [], {})
    if form == "abr":
        return (a, b, b), {}, (a, b, [b], {})
    if form == "kw":
        return (a,), {"b": b, "z": b}, (a, b, [], {"z": b})
    return (a,), {"y": b, "z": a}, (a, 0.25, [], {"z": a, "y": b})


def check_history(c, ev):
    w = World(c["maxsize"], c["copy"])
    ref = collections.defaultdict(collections.OrderedDict)  # target -> key -> None
    hits = misses = again = 0
    seen = set()
    for k, op in enumerate(c["ops"]):
        if op["op"] == "fail":
            w.fail.add(canon(real(c["pool"][op["a"]])))
            continue
        t = op["t"]
        if op["op"] == "clear":
            if t == "z.m":
                continue
            w.targets[t]().cache_clear()
            ref[t].clear()
            ev.tag("clear")
            continue
        a, b = real(c["pool"][op["a"]]), real(c["pool"][op["b"]])
        args, kw, eff = call_forms(op["form"], a, b)
        key = (t,) + tuple(canon(x) for x in eff)
        want = {"tag": t, "args": [repr(key[1]), repr(key[2]), repr(key[3]), sorted(eff[3])]}
        before = len(w.log)
        will_hit = key in ref[t]
        will_fail = (not will_hit) and key[1] in w.fail
        keep = copy.deepcopy((args, kw))
        try:
            got = w.targets[t]()(*args, **kw)
            err = None
        except Boom as e:
            got, err = None, e
        ran = len(w.log) - before
        require(canon(list(keep[0])) == canon(list(args)) and canon(keep[1]) == canon(kw),
                "arguments were modified", k=k, op=op)
        if will_fail:
            require(err is not None and ran == 1, "a failing call must raise its own error", k=k, op=op, ran=ran)
            ev.tag("failure")
            again += 1
            continue
        require(err is None, "call raised although the plain function returns", k=k, op=op)
        require(got["tag"] == want["tag"] and got["args"] == want["args"],
                "returned the result of other arguments, instance or function", k=k, op=op,
                got=(got["tag"], got["args"]), want=want)
        if c["copy"]:
            require(got["box"] == [1, 2] and got["arr"].tolist() == [0.0, 1.0, 2.0],
                    "mutating an earlier result changed this one", k=k, got=got)
        require(ran == (0 if will_hit else 1), "recomputation does not match the reference cache", k=k, op=op,
                ran=ran, will_hit=will_hit, maxsize=c["maxsize"])
        if will_hit:
            hits += 1
        else:
            misses += 1
            again += key in seen
            ref[t][key] = None
            if c["maxsize"] is not None:
                while len(ref[t]) > c["maxsize"]:
                    ref[t].popitem(last=False)
                    ev.tag("evicted")
        seen.add(key)
        if op["mut"] and c["copy"]:
            got["box"][0] = 99
            got["arr"][:] = -1
            got["args"][0] = "mutated"
        if op["inplace"]:
            # mutate the argument object after the call: the stored entry must not follow it
            if isinstance(a, list):
                a.append("tail")
            elif isinstance(a, dict):
                a["tail"] = 1
            elif isinstance(a, np.ndarray) and a.size and a.dtype.kind != "O":
                a[...] = 7
            ev.tag("argument-mutated-later")
        if t != "z.m":
            info = w.targets[t]().cache_info()
            require(info["size"] == len(ref[t]) and info["maxsize"] == c["maxsize"], "cache_info", k=k, info=info,
                    want=len(ref[t]))
        ev.tag("target:" + t)
    ev.tag("hit" if hits else "no-hit")
    ev.mark(hits > 0 and misses > 1 and again + (misses > 2) > 0)


# ------------------------------------------------------------------ scripted thread schedules
@st.composite
def schedule(draw):
    nkeys = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        op = draw(st.sampled_from(["call"] * 6 + ["finish"] * 3 + ["finish_err", "clear"]))
        ops.append([op, draw(st.integers(0, nkeys - 1))])
    return {"ops": ops, "maxsize": draw(st.sampled_from([1, 2, 128, None])),
            "kind": draw(st.sampled_from(["plain", "method"])), "tail": draw(st.sampled_from(["ok", "err_then_ok"]))}


WAIT = 8.0


def check_threads(c, ev):
    from spey.system.cache import cache_results

    cond = threading.Condition()
    running = collections.defaultdict(list)   # key -> list of gates of computations in progress
    computed = collections.Counter()
    serial = [0]

    def body(key):
        gate = {"go": None}
        with cond:
            running[key].append(gate)
            computed[key] += 1
            cond.notify_all()
            ok = cond.wait_for(lambda: gate["go"] is not None, timeout=60)
            running[key].remove(gate)
            serial[0] += 1
            me = serial[0]
            cond.notify_all()
        if not ok:
            raise RuntimeError("gate never opened")
        if gate["go"] == "err":
            raise Boom(key)
        return {"key": key, "run": me, "box": [1]}

    if c["kind"] == "plain":
        @cache_results(maxsize=c["maxsize"])
        def fn(key):
            return body(key)
        call, clear = fn, fn.cache_clear
    else:
        class A:
            @cache_results(maxsize=c["maxsize"])
            def fn(self, key):
                return body(key)
        obj = A()

        def call(key):
            return obj.fn(key)

        def clear():
            obj.fn.cache_clear()

    threads = []

    def caller(rec):
        try:
            rec["value"] = call(rec["key"])
            rec["value"]["box"].append(2)
        except Boom as err:
            rec["error"] = err
        except BaseException as err:  # pylint: disable=broad-except
            rec["crash"] = repr(err)

    def settle():
        time.sleep(0.004)

    shared = 0
    cleared = failed = False
    stored = collections.OrderedDict()
    evict = False
    for op, k in c["ops"]:
        key = f"k{k}"
        if op == "call":
            rec = {"key": key}
            with cond:
                busy = bool(running[key])
            t = threading.Thread(target=caller, args=(rec,), daemon=True)
            rec["thread"] = t
            threads.append(rec)
            t.start()
            if busy:
                shared += 1
            else:
                with cond:
                    cond.wait_for(lambda: running[key] or "value" in rec, timeout=0.2)
            settle()
        elif op == "clear":
            clear()
            cleared = True
            settle()
        else:
            with cond:
                if running[key]:
                    gate = running[key][0]
                    gate["go"] = "ok" if op == "finish" else "err"
                    failed |= op != "finish"
                    cond.notify_all()
                    cond.wait_for(lambda: gate not in running[key], timeout=WAIT)
            if op == "finish":
                stored[key] = 1
                evict |= c["maxsize"] is not None and len(stored) > c["maxsize"]
            settle()
    # drain: open every gate until all the threads are done
    first = c["tail"]
    end = time.time() + WAIT
    while any(r["thread"].is_alive() for r in threads) and time.time() < end:
        with cond:
            for gates in running.values():
                for gate in gates:
                    if gate["go"] is None:
                        gate["go"] = "err" if first == "err_then_ok" else "ok"
                        failed |= gate["go"] == "err"
                        first = "ok"
            cond.notify_all()
        time.sleep(0.001)
    stuck = [r["key"] for r in threads if r["thread"].is_alive()]
    require(not stuck, "callers blocked forever", stuck=stuck, computed=dict(computed))
    crash = [r["crash"] for r in threads if "crash" in r]
    require(not crash, "a caller got an error of the cache itself", crash=crash)
    distinct_keys = {r["key"] for r in threads}
    for r in threads:
        require("value" in r or "error" in r, "caller got neither result nor error", rec=r["key"])
        if "value" in r:
            require(r["value"]["key"] == r["key"], "caller got the result of another key", got=r["value"]["key"])
            require(r["value"]["box"] == [1, 2], "callers share a mutable result", got=r["value"]["box"])
        elif not failed:
            require(False, "caller failed although no computation failed", key=r["key"])
        else:
            require(str(r["error"]) == r["key"], "caller got the error of another key", got=str(r["error"]))
    small = c["maxsize"] is not None and len(distinct_keys) > c["maxsize"]
    if not cleared and not failed and not small:
        for key in distinct_keys:
            require(computed[key] == 1, "a value was computed more than once", key=key, n=computed[key])
            require(len({r["value"]["run"] for r in threads if r["key"] == key}) == 1,
                    "callers saw different computations")
        ev.tag("exactly-once")
    n = len(threads)
    require(sum(computed.values()) <= n, "more computations than calls", computed=dict(computed), n=n)
    errs = sum("error" in r for r in threads)
    require(sum(computed.values()) >= errs, "a failure was delivered to several callers or stored")
    # failures are not stored: the next call computes and succeeds
    late = {}
    for key in sorted(distinct_keys):
        rec = {"key": key}
        t = threading.Thread(target=caller, args=(rec,), daemon=True)
        t.start()
        e2 = time.time() + WAIT
        while t.is_alive() and time.time() < e2:
            with cond:
                for gate in running[key]:
                    gate["go"] = gate["go"] or "ok"
                cond.notify_all()
            time.sleep(0.0005)
        require(not t.is_alive(), "a later call blocks forever", key=key)
        require("value" in rec and rec["value"]["key"] == key, "a later call does not return its value", rec=repr(rec))
        late[key] = 1
    ev.tag("cleared" if cleared else "not-cleared", "failed" if failed else "not-failed", "shared" if shared else "alone")
    ev.mark(shared >= 1)


# ------------------------------------------------------------------ first accesses and recursion
def rec_case():
    return st.fixed_dictionaries({
        "depth": st.integers(1, 25), "maxsize": st.sampled_from([1, 2, 3, 5, 128, None]),
        "branch": st.integers(1, 2), "method": st.booleans(), "again": st.integers(0, 25)})


def check_recursion(c, ev):
    from spey.system.cache import cache_results

    calls = collections.Counter()
    br = c["branch"]
    if c["method"]:
        class A:
            @cache_results(maxsize=c["maxsize"])
            def f(self, n):
                calls[n] += 1
                return 1 if n <= 0 else sum(self.f(n - 1 - i) for i in range(br))
        a = A()

        def f(n):
            return a.f(n)
        info = lambda: a.f.cache_info()  # noqa: E731
    else:
        @cache_results(maxsize=c["maxsize"])
        def f(n):
            calls[n] += 1
            return 1 if n <= 0 else sum(f(n - 1 - i) for i in range(br))
        info = f.cache_info

    def plain(n):
        x = [1, 1]
        for _ in range(n):
            x.append(x[-1] + (x[-2] if br == 2 else 0))
        return x[n + 1] if n >= 0 else 1

    depth = min(c["depth"], 12) if (br == 2 and c["maxsize"] in (1, 2)) else c["depth"]
    for n in (depth, min(c["again"], depth), depth):
        require(f(n) == plain(n), "recursive memoised value", n=n, got=f(n), want=plain(n))
        size = info()["size"]
        require(c["maxsize"] is None or size <= c["maxsize"], "cache exceeds its size", size=size)
    if c["maxsize"] is None or c["maxsize"] > depth + 2:
        require(max(calls.values()) == 1, "computed twice", calls=dict(calls))
    ev.mark(c["maxsize"] is not None and depth >= c["maxsize"])


def first_case():
    return st.fixed_dictionaries({"n": st.integers(2, 8), "rounds": st.integers(5, 20), "slots": st.booleans()})


def check_first(c, ev):
    """Concurrent first accesses of a cached method: still computed once per instance."""
    import sys

    from spey.system.cache import cache_results

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(c["rounds"]):
            count = collections.Counter()
            ns = {"__slots__": ("__weakref__",)} if c["slots"] else {}

            def f(self, x):
                count[id(self), x] += 1
                return [x]

            ns["f"] = cache_results(f)
            cls = type("T", (), ns)
            objs = [cls(), cls()]
            bar = threading.Barrier(c["n"])
            out = []

            def go(i):
                bar.wait()
                out.append(objs[i % 2].f(i // 2 % 2))

            ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(c["n"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join(WAIT)
            require(not any(t.is_alive() for t in ts), "a caller blocks forever")
            require(len(out) == c["n"], "a caller failed", n=len(out))
            require(max(count.values()) == 1, "computed twice under concurrent first accesses", counts=list(count.values()))
    finally:
        sys.setswitchinterval(old)
    ev.mark(c["n"] >= 3)


SUBS = [
    Sub("history", history, check_history, quick=3000, thorough=60000, case_timeout=30, hang=True),
    Sub("threads", schedule, check_threads, quick=1200, thorough=20000, case_timeout=60),
    Sub("recursion", rec_case, check_recursion, quick=400, thorough=4000, case_timeout=60, hang=True),
    Sub("first", first_case, check_first, quick=120, thorough=3000, case_timeout=120),
]

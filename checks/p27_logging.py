"""P27: log capture de-duplicates and always restores the logger."""
import io
import logging
import re
import sys

import numpy as np
from hypothesis import strategies as st

from harness import models, strategies as S
from harness.core import Sub, require

PROPERTY = "P27"
RULE = (
    "history: a tree of log calls, capture blocks, disable blocks, raises and guarded regions, starting from a generated logger "
    "state (handlers with levels, level, propagation, globally disabled level); the reference is an interpreter of the tree on a "
    "stack of capture sets. Non-trivial: a capture block sees a repeated message, or is left by an exception, or is nested. "
    "init/format: (re)initialisation and formatting of generated records. inference: the logger is unchanged after inference calls."
)
BUDGET = {"quick": 120, "thorough": 1800}
LEVELS = [10, 20, 25, 30, 35, 40, 50]
MSGS = ["alpha", "alpha ", "beta", "", "two\nlines", "100%", "ünïcode ✓", "Spey: alpha", "x" * 300]
ANSI = r"(?:\x1b\[[0-9;]*m)*"


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


EXC = {"boom": Boom, "hard": Hard, "kbd": KeyboardInterrupt, "sysexit": SystemExit, "value": ValueError}


def node(depth):
    leaf = st.one_of(
        st.tuples(st.just("log"), st.sampled_from(LEVELS), st.integers(0, len(MSGS) - 1),
                  st.sampled_from(["plain", "plain", "args", "child", "obj"]), st.integers(1, 3)),
        st.tuples(st.just("log"), st.sampled_from(LEVELS), st.integers(0, 2),
                  st.sampled_from(["plain", "plain", "args"]), st.integers(1, 3)),
        st.tuples(st.just("setlevel"), st.sampled_from([10, 20, 30, 40])),
        st.tuples(st.just("raise"), st.sampled_from(sorted(EXC))),
    )
    if depth == 0:
        return leaf
    sub = st.lists(st.deferred(lambda: node(depth - 1)), max_size=5)
    return st.one_of(
        leaf, leaf,
        st.tuples(st.just("capture"), st.sampled_from([10, 20, 25, 30, 40, 50]), sub,
                  st.sampled_from(["own", "own", "stdout", "shared"])),
        st.tuples(st.just("disable"), st.sampled_from([0, 10, 20, 30, 40, 50]), sub, st.booleans()),
        st.tuples(st.just("try"), sub),
    )


@st.composite
def history_case(draw):
    return {
        "tree": draw(st.lists(node(3), min_size=1, max_size=6)),
        "handlers": draw(st.lists(st.sampled_from([0, 10, 20, 30, 50]), max_size=3)),
        "level": draw(st.sampled_from([0, 10, 20, 30, 40])),
        "propagate": draw(st.booleans()),
        "disabled": draw(st.sampled_from([0, 0, 0, 10, 20])),
    }


class Saved:
    """Isolate the case from the process-wide logging state."""

    def __enter__(self):
        lg, root = logging.getLogger("Spey"), logging.getLogger()
        self.state = (list(lg.handlers), lg.level, lg.propagate, logging.root.manager.disable, list(root.handlers), root.level, logging.lastResort)
        logging.lastResort = None
        return lg

    def __exit__(self, *exc):
        lg, root = logging.getLogger("Spey"), logging.getLogger()
        lg.handlers[:] = self.state[0]
        lg.setLevel(self.state[1])
        lg.propagate = self.state[2]
        logging.disable(self.state[3])
        root.handlers[:] = self.state[4]
        root.setLevel(self.state[5])
        logging.lastResort = self.state[6]
        return False


class Sink(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage()))


def prefix(level):
    return r"Spey - ERROR: " if level >= 40 else r"Spey - WARNING: " if level >= 30 else r"Spey: " if level >= 20 else r"Spey - DEBUG \(.*?\): "


def group(level):
    return 4 if level >= 40 else 3 if level >= 30 else 2 if level >= 20 else 1


def matches(text, entries):
    """Does ``text`` consist of exactly the formatted entries in order?"""
    pos = 0
    for level, msg in entries:
        m = re.compile(ANSI + prefix(level) + re.escape(msg) + ANSI + r"\n").match(text, pos)
        if m is None:
            return False
        pos = m.end()
    return pos == len(text)


def snapshot(lg):
    return (tuple(id(h) for h in lg.handlers), tuple(h.level for h in lg.handlers), lg.level, lg.propagate, logging.root.manager.disable)


class Machine:
    """Runs the tree against the real context managers and a reference stack in lock step."""

    def __init__(self, lg, sinks, root_sink, ev):
        self.lg, self.sinks, self.root_sink, self.ev = lg, sinks, root_sink, ev
        self.want = [[] for _ in sinks]
        self.want_root = []
        self.captures = []  # reference stack: [level, seen set, ordered entries]
        self.shared = io.StringIO()
        self.want_shared = []

    def enabled(self, level):
        return logging.root.manager.disable < level and self.lg.getEffectiveLevel() <= level

    def run(self, nodes):
        for n in nodes:
            getattr(self, "do_" + n[0])(*n[1:])

    def do_log(self, level, msg, form, times):
        for _ in range(times):
            text = MSGS[msg]
            on = self.enabled(level)  # decided by the level and disable state the previous steps were checked to leave
            target = logging.getLogger("Spey.child") if form == "child" else self.lg
            if form == "args":
                text = f"{text}|3|{1.5:.2f}"
                target.log(level, MSGS[msg].replace("%", "%%") + "|%d|%.2f", 3, 1.5)
            elif form == "obj":
                target.log(level, KeyError(MSGS[msg]))
                text = str(KeyError(MSGS[msg]))
            else:
                target.log(level, text)
            if not on:
                continue
            if self.captures:
                top = self.captures[-1]
                if level >= top[0]:
                    if (group(level), text) in top[1]:
                        self.ev.mark()
                    else:
                        top[1].add((group(level), text))
                        top[2].append((level, text))
            else:
                for s, w in zip(self.sinks, self.want):
                    if level >= s.level:
                        w.append((level, text))
                if self.lg.propagate:
                    self.want_root.append((level, text))

    def do_setlevel(self, level):
        if not self.captures:  # inside a block the caller's change is undone on exit; see do_capture
            self.lg.setLevel(level)

    def do_raise(self, kind):
        raise EXC[kind](f"scripted {kind}")

    def do_try(self, nodes):
        depth = len(self.captures)
        before = snapshot(self.lg) if depth else None
        try:
            self.run(nodes)
        except (Boom, Hard, KeyboardInterrupt, SystemExit, ValueError) as err:
            if not str(err).startswith("scripted"):
                raise
        require(len(self.captures) == depth, "harness stack out of step")
        if before is not None:
            require(snapshot(self.lg) == before, "logger state differs after blocks left by an exception")

    def do_capture(self, level, nodes, where):
        from spey.system.logger import capture_logs

        before = snapshot(self.lg)
        own = io.StringIO()
        stream = {"own": own, "stdout": None, "shared": self.shared}[where]
        if self.captures:
            self.ev.mark()
        entry = [level, set(), []]
        out = io.StringIO()
        old_stdout, raised, caught = sys.stdout, None, None
        if where == "stdout":
            sys.stdout = out
        try:
            try:
                with capture_logs(level, stream=stream):
                    self.captures.append(entry)
                    try:
                        require(not any(h in self.lg.handlers for h in self.sinks) and not self.lg.propagate,
                                "the previous handlers still receive records inside the block")
                        try:
                            self.run(nodes)
                        except BaseException as err:  # noqa: B036
                            raised = err
                            raise
                    finally:
                        self.captures.pop()
            finally:
                sys.stdout = old_stdout
        except BaseException as err:  # noqa: B036
            caught = err
        if raised is not None and not str(raised).startswith("scripted"):
            raise raised
        require(caught is raised, "the exception leaving a capture block was replaced or swallowed", raised=repr(raised), caught=repr(caught))
        if raised is not None:
            self.ev.mark()
        require(snapshot(self.lg) == before, "logger handlers, level, propagation or disabled level differ after a capture block",
                before=before, after=snapshot(self.lg))
        if where == "shared":
            self.want_shared += entry[2]
        else:
            text = out.getvalue() if where == "stdout" else own.getvalue()
            require(matches(text, entry[2]), "captured messages are not written exactly once in first-seen order", got=text, want=entry[2])
        self.ev.tag(f"captured-{min(len(entry[2]), 3)}")
        if caught is not None:
            raise caught

    def do_disable(self, level, nodes, default):
        from spey.system.logger import disable_logging

        before = snapshot(self.lg)
        raised, caught = None, None
        try:
            with disable_logging() if default else disable_logging(level):
                require(logging.root.manager.disable == (50 if default else level), "logging is not disabled up to the requested level")
                try:
                    self.run(nodes)
                except BaseException as err:  # noqa: B036
                    raised = err
                    raise
        except BaseException as err:  # noqa: B036
            caught = err
        if raised is not None and not str(raised).startswith("scripted"):
            raise raised
        require(caught is raised, "the exception leaving a disable block was replaced or swallowed", raised=repr(raised), caught=repr(caught))
        require(logging.root.manager.disable == before[4], "the disabled level differs after the block", before=before, after=snapshot(self.lg))
        require(snapshot(self.lg)[:2] == before[:2], "handlers differ after a disable block")
        if caught is not None:
            raise caught


def history_check(case, ev):
    import spey  # noqa: F401

    with Saved() as lg:
        root = logging.getLogger()
        sinks = [Sink(l) for l in case["handlers"]]
        root_sink = Sink()
        root.handlers[:] = [root_sink]
        root.setLevel(30)
        lg.handlers[:] = sinks
        lg.setLevel(case["level"])
        lg.propagate = case["propagate"]
        logging.disable(case["disabled"])
        m = Machine(lg, sinks, root_sink, ev)
        try:
            m.run(case["tree"])
        except (Boom, Hard, KeyboardInterrupt, SystemExit, ValueError) as err:
            if not str(err).startswith("scripted"):
                raise
            ev.tag("left-by-exception")
        require(not m.captures, "harness stack out of step")
        require(list(lg.handlers) == sinks and lg.propagate == case["propagate"], "handlers or propagation differ at the end")
        require(logging.root.manager.disable == case["disabled"], "the disabled level differs at the end")
        for i, (s, w) in enumerate(zip(sinks, m.want)):
            require(s.got == w, f"handler {i} of the logger got other records than those emitted outside capture blocks", got=s.got, want=w)
        require(root_sink.got == m.want_root, "the root handler got other records than those emitted outside capture blocks",
                got=root_sink.got, want=m.want_root)
        require(matches(m.shared.getvalue(), m.want_shared), "a stream shared by several blocks got other messages",
                got=m.shared.getvalue(), want=m.want_shared)
        if m.want_shared or any(m.want):
            ev.tag("written")


# ------------------------------------------------------------------ init, formatting, levels
@st.composite
def init_case(draw):
    return {
        "inits": draw(st.integers(1, 4)),
        "handlers": draw(st.integers(0, 4)),
        "propagate": draw(st.booleans()),
        "records": draw(st.lists(st.tuples(st.sampled_from(LEVELS + [5]), st.integers(0, len(MSGS) - 1),
                                           st.sampled_from(["plain", "args", "obj", "exc"])), min_size=1, max_size=6)),
        "verbosity": draw(st.integers(0, 3)),
        "once": draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=8)),
    }


def init_check(case, ev):
    import spey
    from spey.system import logger as L

    with Saved() as lg:
        root = logging.getLogger()
        root_sink = Sink()
        root.handlers[:] = [root_sink]
        lg.handlers[:] = [Sink() for _ in range(case["handlers"])]
        old = list(lg.handlers)
        lg.propagate = case["propagate"]
        logging.disable(0)
        streams = []
        for _ in range(case["inits"]):
            streams.append(io.StringIO())
            L.init(streams[-1])
            require(len(lg.handlers) == 1 and lg.handlers[0] not in old, "initialising the logger does not replace all previous handlers",
                    handlers=len(lg.handlers))
            require(lg.propagate is False, "the initialised logger propagates to the root logger")
        ev.mark(case["handlers"] + case["inits"] > 2)
        spey.set_log_level(case["verbosity"])
        require(lg.level == {0: 40, 1: 30, 2: 20, 3: 10}[case["verbosity"]], "set_log_level sets another level")
        second = Sink()
        lg.addHandler(second)
        want = []
        for level, msg, form in case["records"]:
            text = MSGS[msg]
            if form == "args":
                text = text + "|7"
                lg.log(level, MSGS[msg].replace("%", "%%") + "|%d", 7)
            elif form == "obj":
                text = str([MSGS[msg]])
                lg.log(level, [MSGS[msg]])
            else:
                lg.log(level, text)
            if level >= lg.level:
                want.append((level, text))
        require(matches(streams[-1].getvalue(), want), "the initialised logger writes other messages", got=streams[-1].getvalue(), want=want)
        require(all(s.getvalue() == "" for s in streams[:-1]) and not root_sink.got and not any(h.got for h in old),
                "previous handlers still receive records after the initialisation")
        require(second.got == want, "a second handler sees modified records (formatting alters the shared record)", got=second.got, want=want)
        # log_once: each (message, type) of a run of at most ten distinct ones is logged once
        spey.log_once.cache_clear() if hasattr(spey.log_once, "cache_clear") else None
        second.got.clear()
        lg.setLevel(10)
        seen, expect = set(), []
        for m, t in case["once"]:
            kind = ["warning", "error", "info", "debug"][t]
            spey.log_once(f"once {m}", kind)
            if (m, t) not in seen and len(seen) < 10:
                seen.add((m, t))
                expect.append(({"warning": 30, "error": 40, "info": 20, "debug": 10}[kind], f"once {m}"))
        if len(seen) <= 10:
            require(second.got == expect, "log_once repeats or loses messages", got=second.got, want=expect)


# ------------------------------------------------------------------ inference leaves the logger alone
@st.composite
def inf_case(draw):
    return {
        "model": draw(S.model(kinds=("poisson", "normal", "uncorrelated"), min_bins=1, max_bins=2, tame=True)),
        "calls": draw(st.lists(st.sampled_from(["upper", "band", "left", "right", "fisher", "chi2", "contour", "fail", "excl"]),
                               min_size=1, max_size=3)),
        "level": draw(st.sampled_from([10, 20, 30, 40])),
        "handlers": draw(st.integers(0, 3)),
        "propagate": draw(st.booleans()),
        "disabled": draw(st.sampled_from([0, 0, 20, 50])),
    }


def inf_check(case, ev):
    import spey

    model = models.build(case["model"])
    with Saved() as lg:
        sinks = [Sink() for _ in range(case["handlers"])]
        lg.handlers[:] = sinks
        root = logging.getLogger()
        root.handlers[:] = [Sink()]
        lg.setLevel(case["level"])
        lg.propagate = case["propagate"]
        logging.disable(case["disabled"])
        before = snapshot(lg)
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            for c in case["calls"]:
                try:
                    if c == "upper":
                        model.poi_upper_limit()
                    elif c == "band":
                        model.poi_upper_limit(expected=spey.ExpectationType.apriori, expected_pvalue="1sigma")
                    elif c in ("left", "right"):
                        model.chi2_test(limit_type=c)
                    elif c == "chi2":
                        model.chi2_test()
                    elif c == "fisher":
                        model.sigma_mu(1.0, expected=spey.ExpectationType.observed)
                    elif c == "excl":
                        model.exclusion_confidence_level(poi_test=1.0)
                    elif c == "contour":
                        model.likelihood(poi_test=1.0)
                    else:
                        model.poi_upper_limit(confidence_level=0.95, expected="not an expectation")
                except Exception:  # noqa: BLE001  (failures are other properties' business)
                    ev.tag("call-raised")
                require(snapshot(lg) == before, f"the logger state differs after {c}", before=before, after=snapshot(lg))
                require(list(root.handlers) and logging.root.manager.disable == case["disabled"], f"the root logger changed after {c}")
        finally:
            sys.stdout = old
    ev.mark(len(set(case["calls"])) > 1)


SUBS = [
    Sub("history", history_case, history_check, quick=2400, thorough=150000),
    Sub("init", init_case, init_check, quick=600, thorough=20000),
    Sub("inference", inf_case, inf_check, quick=60, thorough=1500, case_timeout=120),
]

"""C17: logging never changes results, and log levels mean what they say."""

import io
import logging
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, LongRun, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, ints, logu, num, pick

from rkstiff.util import loghelper

EIGS = ("ETD34", "ETD35", "IF34")
RULE = (
    "Generated runs (up to 250 steps, every start time sign, end time zero, failing runs) repeated at several log levels "
    "with a capturing handler that formats every record: results, times, errors and evaluation counts must be identical, "
    "every record must format and be at or above the level. Level names in every casing, numbers and random strings for "
    "the helper functions, repeated setup with captured output. Non-trivial: at least 100 steps or a failure (runs); "
    "any accepted or refused level (helper)."
)
LEVELS = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = 0
        self.low = 100
        self.bad = None

    def emit(self, record):
        self.records += 1
        self.low = min(self.low, record.levelno)
        try:
            record.getMessage()
        except Exception as e:  # pylint: disable=broad-except
            self.bad = "%s in log message %r %% %r" % (e, record.msg, record.args)


@st.composite
def run_st(draw):
    kind = draw(pick("diag", "diag", "mat"))
    c = dict(draw(gen.evo_system(kind, nmax=3, stiff=False, units=True)))
    c["solver"] = draw(pick(*(ALL if kind == "diag" else ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34"))))
    c["diagonalize"] = kind == "mat" and draw(BOOL)
    c["cfg"] = draw(gen.solver_cfg((-10, -3)))
    c["t0"] = draw(pick(0.0, "-T", "-T/2", "2T", -5.0, 1e3))
    if c["T"] < 5e-3:
        c["t0"] = c["t0"] if isinstance(c["t0"], str) else c["t0"] * c["T"]
        c["cfg"] = dict(c["cfg"], minh=1e-16 * c["T"])
    c["steps"] = draw(st.one_of(pick(99, 100, 101, 200), ints(1, 250)))
    c["hi"] = draw(pick(None, 1.0, 1e-2, 1e-4))
    c["levels"] = draw(st.lists(st.one_of(pick("DEBUG", "debug", "INFO", "Info", "ERROR", "CRITICAL"), pick(10, 15, 20, 30, 45, 5)), min_size=1, max_size=2))
    c["how"] = draw(pick("constructor", "set_loglevel"))
    c["bad_at"] = draw(pick(None, None, None, 3, 40))
    c["call"] = draw(pick("evolve", "evolve", "evolve", "steps", "refused"))
    return c


@st.composite
def long_st(draw):
    c = dict(draw(gen.evo_system("diag", nmax=2, stiff=False, nlT=0.3)))
    steps = draw(st.one_of(pick(999, 1000, 1001, 2000, 2047, 2048, 2500), ints(300, 2600)))
    c.update(solver=draw(pick(*ALL)), diagonalize=False, steps=steps, hi=1.0 / steps, bad_at=None, call="evolve")
    c["cfg"] = dict(epsilon=0.1, incr_f=1e6)  # never grow: the initial step is kept throughout
    c["t0"] = draw(pick(0.0, "-T", "-T/2", "2T", 1e3))
    c["levels"] = [draw(pick("DEBUG", "INFO", "ERROR", 5))]
    c["how"] = draw(pick("constructor", "set_loglevel"))
    return c


def one_run(case, level, cap):
    name = case["solver"]
    L, u0 = gen.decode_L(case), gen.decode_u(case)
    f = gen.NL(case["nl"])
    n = [0]

    def nl(u):
        n[0] += 1
        if n[0] > 60000:
            raise LongRun("more than 60000 evaluations")
        if case["bad_at"] is not None and n[0] >= case["bad_at"]:
            return np.full(u.shape, np.nan)
        return f(u)

    T = case["T"]
    t0 = {"-T": -T, "-T/2": -T / 2, "2T": 2 * T}.get(case["t0"], case["t0"])
    tf = 0.0 if case["t0"] == "-T" else t0 + T
    s = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None, loglevel=level if case["how"] == "constructor" else "WARNING")
    if case["how"] == "set_loglevel":
        s.set_loglevel(level)
    hs = []
    try:
        if case["call"] == "refused":
            r = s.evolve(u0, tf, t0, T / 10)
        elif case["call"] == "steps":
            r = u0
            h = T / 20
            for _ in range(min(case["steps"], 20)):
                o = s.step(r, h)
                r, h = (o[0], min(o[2], T / 20)) if name in ADAPTIVE else (o, h)
                hs.append(h)
            s.reset()
        elif name in ADAPTIVE:
            r = s.evolve(u0, t0, tf, None if case["hi"] is None else case["hi"] * T)
        else:
            r = s.evolve(u0, t0, tf, (tf - t0) / case["steps"])
        exc = None
    except LongRun:
        raise
    except (RuntimeError, ValueError) as e:
        if isinstance(e, RuntimeError) and not (name in ADAPTIVE and isinstance(e, s.SolverError)):
            raise
        r, exc = None, type(e).__name__ + ": " + str(e)
    return r, exc, [float(t) for t in s.t], [v.copy() for v in s.u], n[0], hs


def check_run(case):
    name = case["solver"]
    if case["diagonalize"] and name in ADAPTIVE:
        L = gen.decode_L(case)
        if np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3:
            return False, ["ill-conditioned basis"]
    logger = logging.getLogger("rkstiff." + name)
    old = logger.level
    quiet = one_run(case, "WARNING", None)
    try:
        for level in case["levels"]:
            cap = Capture()
            logger.addHandler(cap)
            try:
                got = one_run(case, level, cap)
            finally:
                logger.removeHandler(cap)
            require(got[1] == quiet[1], "%s at level %r: outcome %s, at WARNING %s", name, level, got[1], quiet[1])
            require(got[4] == quiet[4], "%s at level %r: %d evaluations, at WARNING %d", name, level, got[4], quiet[4])
            require(got[2] == quiet[2] and got[5] == quiet[5], "%s at level %r: other times than at WARNING", name, level)
            require((got[0] is None) == (quiet[0] is None) and (got[0] is None or np.array_equal(got[0], quiet[0], equal_nan=True)), "%s at level %r: result %s, at WARNING %s", name, level, got[0], quiet[0])
            require(len(got[3]) == len(quiet[3]) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got[3], quiet[3])), "%s at level %r: other snapshots", name, level)
            require(cap.bad is None, "%s at level %r: %s", name, level, cap.bad)
            num_level = LEVELS[level.upper()] if isinstance(level, str) else level
            require(logger.level == num_level, "%s: level %r left the logger at %d", name, level, logger.level)
            low = 30 if case["how"] == "set_loglevel" and cap.low >= 30 else cap.low
            require(cap.records == 0 or low >= num_level or (case["how"] == "set_loglevel" and low >= 30), "%s at level %r emitted a record of level %d", name, level, cap.low)
            if num_level <= 10:
                require(cap.records > 0, "%s at level %r emitted nothing", name, level)
    finally:
        logger.setLevel(old)
    nsteps = len(quiet[2]) - 1
    return nsteps >= 100 or quiet[1] is not None, [name, ">=100 steps" if nsteps >= 100 else "<100 steps", "fails" if quiet[1] else "ends", "t0=%s" % (case["t0"] if isinstance(case["t0"], str) else "number")]


@st.composite
def helper_st(draw):
    k = draw(pick("name", "name", "number", "junk"))
    if k == "name":
        nm = draw(pick(*LEVELS))
        lv = "".join(ch.lower() if draw(BOOL) else ch for ch in nm)
    elif k == "number":
        lv = draw(st.one_of(pick(10, 20, 30, 40, 50, 1, 15), ints(1, 100)))
    else:
        lv = draw(st.one_of(st.text(alphabet="ABCDEFGINORTUWabdefginotuw _-0123456789.", max_size=9), pick("VERBOSE", "DEBUGGING", "Logger", "BASIC_FORMAT", "getLogger", "TRACE", "", "INFO ", "10", "Handler", "WARNINGS", "__doc__", "raiseExceptions", "_lock")))
    return dict(kind=k, level=lv, again=draw(st.lists(pick("DEBUG", "INFO", "warning", 25), max_size=4)), id=draw(ints(0, 10**9)))


def check_helper(case):
    lv = case["level"]
    name = "rkstiff.vftest%d" % case["id"]
    lg = logging.getLogger(name)
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.propagate = False
    valid = case["kind"] != "junk" or (isinstance(lv, str) and lv.upper() in dict(LEVELS, WARN=30, FATAL=50, NOTSET=0))
    buf, err = io.StringIO(), sys.stderr
    sys.stderr = buf
    try:
        try:
            got = loghelper.setup_logger(name, lv)
        except ValueError:
            got = None
        require((got is not None) == valid, "log level %r was %s", lv, "refused" if got is None else "accepted")
        if not valid:
            try:
                loghelper.set_log_level(lg, lv)
            except ValueError:
                return True, ["refused"]
            require(False, "set_log_level accepted %r", lv)
        want = lv if isinstance(lv, int) else dict(LEVELS, WARN=30, FATAL=50, NOTSET=0)[lv.upper()]
        require(got is lg and lg.level == want, "level %r set the logger to %r", lv, lg.level)
        if want in LEVELS.values():
            require(loghelper.get_level_name(want) == {v: k for k, v in LEVELS.items()}[want], "name of level %d is %r", want, loghelper.get_level_name(want))
        else:
            require(loghelper.get_level_name(want) == "Level %d" % want, "name of level %d is %r", want, loghelper.get_level_name(want))
        for a in case["again"]:
            loghelper.setup_logger(name, a)
        loghelper.set_log_level(lg, lv)
        require(lg.level == want, "set_log_level(%r) left level %d", lv, lg.level)
        for mark in (10, 20, 25, 30, 40, 50, want, want - 1):
            buf.seek(0)
            buf.truncate()
            lg.log(mark, "marker-%d", mark)
            n = buf.getvalue().count("marker-%d" % mark)
            require(n == (1 if mark >= want and mark > 0 else 0) or want == 0, "at level %r (set up %d times) a record of level %d was printed %d times", lv, 1 + len(case["again"]), mark, n)
    finally:
        sys.stderr = err
        for h in list(lg.handlers):
            lg.removeHandler(h)
    return True, [case["kind"]]


FACETS = [
    Facet("runs", run_st(), check_run, quick=3000, shards=8, rule="the same run at several levels"),
    Facet("long", long_st(), check_run, quick=120, shards=8, rule="runs of 300 to 2600 steps"),
    Facet("helper", helper_st(), check_helper, quick=3000, shards=3, rule="level parsing and repeated setup"),
]

"""C08: adaptive evolution covers the interval exactly, in increasing times."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..env import ADAPTIVE
from ..gen import BOOL, ints, logu, num, pick, unif

RULE = (
    "Generated systems over generated intervals (zero, negative, zero-crossing, large start times; default, tiny, exact, "
    "oversized initial steps; tolerances 1e-8..1e-2): recorded times must start at t0, strictly increase and end at tf; "
    "the states must be those obtained by stepping a fresh solver over the recorded sizes; the same interval moved to "
    "start at zero must give the same states. Non-trivial: at least two steps were taken."
)
ASSUMPTIONS = ["the interval is at least 1e5 units in the last place of the time values (facet 'coarse' drops this)"]


@st.composite
def case_st(draw, kind):
    c = dict(draw(gen.evo_system(kind, nmax=3, units=True)))
    c["solver"] = draw(pick(*(ADAPTIVE if kind == "diag" else ("ETD34", "ETD35", "IF34"))))
    if kind == "diag" and c["solver"].startswith("IF"):  # these resolve the decay of stiff modes step by step
        w = gen.carr(c["L"]) * c["T"]
        c["L"] = gen.enc((np.maximum(w.real, -300) + 1j * w.imag) / c["T"])
    c["diagonalize"] = kind == "mat" and draw(BOOL)
    c["cfg"] = draw(gen.solver_cfg((-7.5, -1.5)))
    c["t0"] = draw(st.one_of(pick(0.0, 0.0, 1.0, -1.0, 0.1), num(-50, 50), pick(1e5, -1e6, "-T", "-T/2", "-T/3")))
    c["hi"] = draw(pick(None, None, None, 1.0, 0.3, 0.01, 1e-3, 1e-6, 2.0, 100.0, 1 / 3))
    return c


def span(case):
    t0, T = case["t0"], case["T"]
    if isinstance(t0, str):
        t0 = {"-T": -T, "-T/2": -T / 2, "-T/3": -T / 3}[t0]
    return t0, t0 + T


def solver(case, nl=None):
    L = gen.decode_L(case)
    return gen.make(case["solver"], L, nl or gen.NL(case["nl"], budget=1000000, strict=True), cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)


def usable(case):
    if case["diagonalize"]:
        L = gen.decode_L(case)
        return np.linalg.cond(L) < 1e10 and np.linalg.cond(np.linalg.eig(L)[1]) < 1e3
    return True


def resync(case, s, t, k, hu, ulp):
    """Step k of the recorded history from its own snapshot over its own size; no solver when that lies on a threshold."""
    dt = float(t[k] - t[k - 1])
    for size, again in ((dt, True), (dt * (1 - 1e-6), False)):
        f = solver(case)
        v, h, hs = f.step(np.array(s.u[k - 1]), size)
        if abs(h - size) <= 4 * ulp:
            return (v, h, hs, f) if again else (v, h, hs, None)
    require(False, "%s: step %d took h=%r but times advanced by %r", case["solver"], k, hu, dt)


def check(case):
    if not usable(case):
        return False, ["ill-conditioned basis"]
    u0 = gen.decode_u(case)
    t0, tf = span(case)
    T = tf - t0
    if not T > 1e5 * np.spacing(max(abs(t0), abs(tf))):
        return False, ["unresolved"]
    h0 = None if case["hi"] is None else case["hi"] * T
    s = solver(case)
    try:
        uf = s.evolve(u0, t0, tf, h0)
    except s.SolverError:
        return False, ["solver error"]
    t = np.array(s.t, dtype=float)
    require(t[0] == t0, "first recorded time %r is not t0=%r", t[0], t0)
    require(t[-1] == tf, "%s: last recorded time %r is not tf=%r", case["solver"], t[-1], tf)
    require(np.all(np.diff(t) > 0), "%s: times do not strictly increase: %s", case["solver"], t[:10])
    require(np.array_equal(s.u[-1], uf, equal_nan=True), "returned state is not the last snapshot")
    labels = [case["solver"], "default h" if h0 is None else "h given", "t0=0" if t0 == 0 else "t0<0" if t0 < 0 else "t0>0"]
    # the recorded sizes are the steps taken: replay them on a fresh solver
    f = solver(case)
    h = T / 100.0 if h0 is None else h0
    v, tc = u0, t0
    if tc + h > tf:
        h = tf - tc
    rate = float(np.max(np.abs(case_rate(case))))
    for k in range(1, len(t)):
        v, hu, hs = f.step(v, h)
        ulp = float(np.spacing(max(abs(t[k]), abs(t[k - 1]))))
        slack = 0.0
        if abs((t[k] - t[k - 1]) - hu) > 4 * ulp:
            # the first step or a suggestion may have been rounded differently: then ask for the recorded size itself
            v, hu, hs, f = resync(case, s, t, k, hu, ulp)
            if f is None:
                labels.append("decision flipped by rounding")
                break
            slack = 10 * rate * ulp * float(np.max(np.abs(v)))
        require(np.allclose(v, s.u[k], rtol=1e-9, atol=1e-12 * case.get("us", 1.0) + slack), "%s: snapshot %d differs from the state after %d steps", case["solver"], k, k)
        tc = t[k]
        h = tf - tc if tc + hs > tf else hs
    # translation
    if t0 != 0 and T > 1e8 * np.spacing(max(abs(t0), abs(tf))):
        g = solver(case)
        try:
            ug = g.evolve(u0, 0.0, T, h0)
        except g.SolverError:
            require(False, "fails when started from 0 instead of %r", t0)
        eps = gen.full_cfg(case["cfg"])["epsilon"]
        scale = max(float(np.max(np.abs(np.array(s.u)))), 1e-12 * case.get("us", 1.0))
        d = float(np.max(np.abs(ug - uf)))
        # matching histories agree to rounding; a rounding-flipped decision may cost a few local errors
        tg = np.array(g.t)
        match = len(tg) == len(t) and np.allclose(tg, t - t0, rtol=0, atol=1e-6 * T)
        drift = len(t) * float(np.spacing(max(abs(t0), abs(tf)))) / T
        rate = T * float(np.max(np.abs(case_rate(case))))
        tol = (1e-8 + 1e3 * drift * (1 + rate)) * scale if match else 50 * len(t) * eps * scale + 1e-6 * scale
        require(d <= tol, "%s: the same interval started at 0 gives a state differing by %.3g (tolerance %.3g)", case["solver"], d, tol)
        labels.append("translated" if match else "translated, other steps")
    return len(t) > 2, labels


def case_rate(case):
    L = gen.decode_L(case)
    return L if L.ndim == 1 else np.array([np.max(np.sum(np.abs(L), axis=1))])


@st.composite
def coarse_st(draw):
    c = dict(draw(gen.evo_system("diag", nmax=2, stiff=False)))
    c.update(solver=draw(pick(*ADAPTIVE)), diagonalize=False, cfg=draw(gen.solver_cfg((-9, -2))), base=draw(pick(1.0, -1.0, 4.0, 1024.0)))
    c["ulps"] = draw(ints(1, 3000))
    c["hi"] = draw(pick(None, 1.0, 0.1, 0.001, 1e-9))
    return c


def check_coarse(case):
    """Intervals of a few units in the last place: complete or fail loudly, never hang."""
    base = case["base"]
    ulp = float(np.spacing(base if base > 0 else base / 2 * 1.0000001))
    t0 = base
    tf = base + case["ulps"] * abs(ulp)
    T = tf - t0
    if not T > 0:
        return False, ["empty"]
    u0 = gen.decode_u(case)
    L = gen.decode_L(case) * (case["T"] / T)
    inner = gen.NL(case["nl"], budget=60000, strict=True)
    f = case["T"] / T
    s = gen.make(case["solver"], L, lambda u: inner(u) * f, cfg=case["cfg"], etd=case["etd"])
    try:
        s.evolve(u0, t0, tf, None if case["hi"] is None else case["hi"] * T)
    except s.SolverError:
        return True, ["solver error"]
    t = np.array(s.t)
    require(t[0] == t0 and t[-1] == tf, "times run from %r to %r instead of %r to %r", t[0], t[-1], t0, tf)
    require(np.all(np.diff(t) > 0), "times do not strictly increase (interval of %d ulp)", case["ulps"])
    return len(t) > 2, ["done"]


@st.composite
def long_st(draw):
    c = dict(draw(gen.evo_system("diag", nmax=2, stiff=False, nlT=0.3)))
    c.update(solver=draw(pick(*ADAPTIVE)), diagonalize=False)
    c["t0"] = draw(pick(0.0, "-T/2", 0.1, 50.0, -1e4))
    c["hi"] = 1.0 / draw(st.one_of(pick(1000, 1001, 2048, 4000), ints(300, 4000)))
    c["cfg"] = dict(epsilon=draw(pick(0.1, 1e-3)), incr_f=draw(pick(1e6, 1e6, 3.9)), adapt_cutoff=0.5)
    return c


@st.composite
def empty_st(draw):
    n = draw(ints(1, 3))
    return dict(n=n, t0=draw(st.one_of(pick(0.0, 1.0, -1.0), num(-100, 100))), u0=draw(gen.vec(n)), solver=draw(pick(*ADAPTIVE)), hi=draw(pick(None, 0.1, 0.0)), L=draw(gen.vec(n)))


def check_empty(case):
    u0 = gen.carr(case["u0"])
    s = gen.make(case["solver"], gen.carr(case["L"]), lambda u: u * u)
    uf = s.evolve(u0, case["t0"], case["t0"], case["hi"])
    require(np.array_equal(uf, u0), "an empty interval returned %s for the initial state %s", uf, u0)
    require(list(s.t) == [case["t0"]] and np.array_equal(s.u[0], u0), "an empty interval recorded times %s", s.t)
    return True, ["empty"]


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=2400, shards=8, rule="1D operators, four solvers"),
    Facet("matrix", case_st("mat"), check, quick=320, shards=4, rule="full matrices, direct and diagonalized"),
    Facet("coarse", coarse_st(), check_coarse, quick=400, shards=3, rule="intervals of 1 to 3000 units in the last place"),
    Facet("long", long_st(), check, quick=120, shards=8, rule="runs of hundreds to thousands of steps (growth switched off)"),
    Facet("empty", empty_st(), check_empty, quick=200, shards=1, rule="tf == t0"),
]

"""C07: fixed-step evolution covers the interval in exactly the implied steps."""

from fractions import Fraction
import math
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..env import FIXED
from ..gen import BOOL, ints, logu, num, pick, unif

RULE = (
    "Start times (zero, negative, zero-crossing, large), step sizes and intervals are generated either as a whole number "
    "of steps up to rounding or as a clearly fractional number; the step count, every recorded time and the final state "
    "are compared with exact rational arithmetic and with the same number of single steps. Non-trivial: at least two "
    "steps are due, or the call must be refused."
)
ASSUMPTIONS = ["step sizes are at least 256 units in the last place of the time values"]


@st.composite
def case_st(draw, big):
    mode = draw(pick("whole-h", "whole-h", "whole-T", "decimal", "frac", "refuse"))
    h = draw(st.one_of(pick(0.1, 0.01, 0.05, 0.2, 0.3, 0.7, 1 / 3, 0.125, 1e-3), logu(-6, 3), logu(-15, 12)))
    n = draw(st.one_of(ints(300, 6000), ints(300, 6000), ints(300, 6000), ints(6000, 20000)) if big else st.one_of(ints(1, 200), ints(1, 4)))
    t0 = draw(st.one_of(pick(0.0, 0.0, 1.0, -1.0, 0.1), num(-100, 100), pick(1e4, -1e6, 12345.678), st.just("cross"), st.just("scaled")))
    if t0 == "cross":
        t0 = -h * draw(ints(1, n))
    elif t0 == "scaled":
        t0 = h * draw(st.one_of(pick(1e3, 1e6, -1e8, 1e9), num(-1000, 1000)))
    c = dict(mode=mode, h=h, n=n, t0=t0, solver=draw(pick(*FIXED)), matrix=draw(ints(0, 5)) == 0)
    if mode == "frac":
        c["frac"] = draw(unif(0.02, 0.98))
    if mode == "decimal":  # times as people write them: 0.3 to 0.9 by 0.6
        k = draw(ints(-9, 6))
        a, b = draw(ints(-500, 500)), draw(ints(1, 99))
        f = (lambda m: float("%de%d" % (m, k)))
        c.update(h=f(b), t0=f(a), tf=f(a + n * b))
    if mode == "refuse":
        c["why"] = draw(pick("zero", "negative", "large", "slightly", "empty", "backwards"))
    if mode == "whole-T":
        c["T"] = draw(st.one_of(pick(1.0, 0.4, 10.0, 2.0, 0.7), logu(-3, 3)))
        if t0 == "cross" or draw(ints(0, 3)) == 0:
            c["t0"] = -c["T"] * draw(pick(0.5, 1.0, 0.3))
    return c


def check(case):
    name, n, t0, h = case["solver"], case["n"], case["t0"], case["h"]
    L = np.array([-0.5, -2.0])
    if case["matrix"]:
        L = np.diag(L)
    count = [0]

    def nl(u):
        count[0] += 1
        if count[0] > max(200000, 40 * n):
            raise gen.Runaway("far too many steps")
        return np.array([0.1 * u[1], -0.1 * u[0] * u[1]])

    s = gen.make(name, L / max(h, 1e-300) * 0.05, lambda u: nl(u) / h * 0.05, etd=dict(contour_radius=1.0))
    u0 = np.array([1.0, 0.5])
    mode = case["mode"]
    if mode == "refuse":
        why = case["why"]
        T = n * h
        tf = t0 + T
        hh = {"zero": 0.0, "negative": -h, "large": (tf - t0) * 2.0, "slightly": (tf - t0) * 1.001 + 1e3 * np.spacing(abs(tf) + abs(t0)), "empty": h, "backwards": h}[why]
        if why == "empty":
            tf = t0
        elif why == "backwards":
            tf = t0 - T
        if h < 256 * np.spacing(max(abs(t0), abs(t0 + T), abs(tf))):
            return False, ["unresolved"]
        try:
            s.evolve(u0, t0, tf, hh)
        except ValueError:
            return True, [why]
        require(False, "%s.evolve(t0=%r, tf=%r, h=%r) was not refused", name, t0, tf, hh)
    if mode == "whole-h":
        tf = t0 + n * h
    elif mode == "whole-T":
        tf = t0 + case["T"]
        h = (tf - t0) / n
    elif mode == "decimal":
        tf = case["tf"]
    else:
        tf = t0 + (n + case["frac"]) * h
    ulp = float(np.spacing(max(abs(t0), abs(tf))))
    if h < 256 * ulp * (n if mode == "frac" else 1) or not tf > t0:
        return False, ["unresolved"]
    exact = (Fraction(tf) - Fraction(t0)) / Fraction(h)
    want = round(exact) if mode != "frac" else math.ceil(exact)
    if mode != "frac" and abs(exact - want) * Fraction(h) > 2 * Fraction(ulp) + Fraction(h) / 10**12:
        return False, ["unresolved"]
    uf = s.evolve(u0, t0, tf, h)
    got = len(s.t) - 1
    require(got == want, "%s.evolve(t0=%r, tf=%r, h=%r) took %d steps, the interval holds %d", name, t0, tf, h, got, want)
    for k, t in enumerate(s.t):
        ideal = Fraction(t0) + k * Fraction(h)
        require(abs(Fraction(float(t)) - ideal) <= 2 * Fraction(ulp) + abs(k * Fraction(h)) / 2**50, "%s: recorded time %d is %r, t0 + %d h is %r", name, k, t, k, float(ideal))
    f = gen.make(name, s.lin_op, s.nl_func, etd=dict(contour_radius=1.0))
    v = u0
    for _ in range(want):
        v = f.step(v, h)
    require(np.allclose(uf, v, rtol=1e-11, atol=0), "%s: evolve returned %s, %d single steps give %s", name, uf, want, v)
    require(np.array_equal(s.u[-1], uf), "%s: last snapshot differs from the returned state", name)
    return want > 1, [mode, "n>=1000" if want >= 1000 else "n>=100" if want >= 100 else "n<100", "crosses 0" if t0 < 0 < tf else "one sign"]


FACETS = [
    Facet("short", case_st(False), check, quick=6000, shards=6, rule="1 to 200 steps"),
    Facet("long", case_st(True), check, quick=240, shards=6, rule="300 to 20000 steps"),
]

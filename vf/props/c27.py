"""C27: work per step: one evaluation of the nonlinear term per stage, none repeated or wasted."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, ints, pick

RULE = (
    "Generated histories of steps, evolutions and resets with a counting nonlinear term. The controller settings make the number of "
    "attempts readable from the reported sizes (every rejection divides the step by exactly 4, growth is off), and the count may not "
    "exceed the number of stages times the attempts, plus one evaluation to start. Every evaluation receives an array of the "
    "state's shape. Non-trivial: a history with at least two steps, for the adaptive solvers at least one rejection or several steps."
)
ASSUMPTIONS = ["counts are upper bounds: a more economical implementation passes"]

STAGES = dict(ETD4=4, ETD5=6, IF4=4, ETD34=4, IF34=4, IF45DP=6)


def bound(name, steps, attempts, started):
    """Largest number of evaluations for `steps` steps that took `attempts` attempts in all."""
    if name == "ETD35":  # no first-same-as-last: a first stage per step, five others per attempt
        return steps + 5 * attempts
    return STAGES[name] * attempts + (0 if started else 1)


@st.composite
def case_st(draw, kind):
    c = dict(draw(gen.evo_system("diag" if kind == "diag" else "mat", units=True)))
    c["solver"] = draw(pick(*(ALL if kind == "diag" else ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34"))))
    c["diagonalize"] = kind == "mat" and draw(BOOL)
    c["eps"] = draw(st.one_of(gen.logu(-11, -3), gen.logu(-11, -3), pick(1e6)))
    c["level"] = draw(pick("WARNING", "WARNING", "DEBUG", "INFO"))
    ops = []
    for _ in range(draw(ints(1, 6))):
        k = draw(pick("step", "step", "step", "evolve", "reset"))
        if k == "step":
            ops.append([k, draw(st.one_of(pick(0.05, 0.1), gen.logu(-2, 0), gen.logu(-1, 3)))])
        elif k == "evolve":
            ops.append([k, draw(pick(0.1, 0.3, 1.0)), draw(pick(1, 1, 2, 3, 5, 7, 12, 12, 101, 230)), draw(BOOL), draw(ints(1, 5))])
        else:
            ops.append([k])
    c["ops"] = ops
    return c


class Counting:
    def __init__(self, inner, shape):
        self.inner, self.shape, self.n = inner, shape, 0

    def __call__(self, u):
        self.n += 1
        require(isinstance(u, np.ndarray) and u.shape == self.shape, "the nonlinear term received %s for a state of shape %s", np.shape(u), self.shape)
        return self.inner(u)


def rejections(first, used):
    """How often a step that began with `first` was divided by 4 to end at `used`."""
    k = math.log(first / used, 4)
    return None if abs(k - round(k)) > 1e-6 else int(round(k))


def check(case):
    name, T = case["solver"], case["T"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    if case["diagonalize"] and name in ADAPTIVE and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    nl = Counting(gen.NL(case["nl"]), u.shape)
    s = gen.make(name, L, nl, cfg=dict(epsilon=case["eps"], decr_f=0.25, incr_f=1e6), etd=case["etd"], diagonalize=case["diagonalize"] or None, loglevel=case["level"])
    require(nl.n == 0, "%s: constructing the solver evaluated the nonlinear term %d times", name, nl.n)
    started, v, total, rejected = False, u, 0, 0
    for op in case["ops"]:
        before = nl.n
        if op[0] == "reset":
            s.reset()
            require(nl.n == before, "%s: reset evaluated the nonlinear term", name)
            started, v = False, u
            continue
        if op[0] == "evolve":
            span, start = op[1] * T, 0.0
            h = span / op[2]
            started = False
            kw = dict(store_data=op[3], store_freq=op[4])
        if name not in ADAPTIVE:
            steps = attempts = 1 if op[0] == "step" else op[2]
            if op[0] == "step":
                v = s.step(v, op[1] * T)
            else:
                v = s.evolve(u, start, span, h, **kw)
        else:
            try:
                if op[0] == "step":
                    v, used, _ = s.step(v, op[1] * T)
                    steps, rej = 1, rejections(op[1] * T, used)
                else:
                    # once storing every step, to read off the attempts, then as the case says
                    v = s.evolve(u, start, span, h_init=h)
                    t, first = list(s.t), min(h, span)
                    steps, rej = len(t) - 1, 0
                    for i in range(steps):
                        used = t[i + 1] - t[i]
                        k = rejections(first, used) if used > 1e-6 * span else None
                        rej = None if k is None or rej is None else rej + k
                        first = min(used, span - t[i + 1])
                    mid = nl.n
                    v = s.evolve(u, start, span, h_init=h, **kw)
                    require(nl.n - mid == mid - before, "%s: evolving with %s took %d evaluations, storing everything %d", name, kw, nl.n - mid, mid - before)
                    before = mid
            except s.SolverError:
                s.reset()
                started, v = False, u
                continue
            if rej is None:
                started = True
                continue
            attempts = steps + rej
            rejected += rej
        total += steps
        most = bound(name, steps, attempts, started)
        require(nl.n - before <= most, "%s: %s of %d steps in %d attempts took %d evaluations of the nonlinear term, the scheme needs %d", name, op[0], steps, attempts, nl.n - before, most)
        started = True
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e3 * case.get("us", 1.0):
            s.reset()
            started, v = False, u
    return total >= 2 and (name not in ADAPTIVE or rejected > 0 or total > 3), [name, "rejections" if rejected else "no rejection"]


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=4000, shards=5, rule="1D operators"),
    Facet("matrix", case_st("mat"), check, quick=1200, shards=3, rule="full matrices, direct and diagonalized"),
]

"""C15: configurations accept exactly the documented values."""

import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..env import ADAPTIVE
from ..gen import BOOL, ints, logu, num, pick, unif

from rkstiff.solveras import SolverConfig
from rkstiff.etd import ETDConfig

RULE = (
    "Random sequences of constructions and assignments (documented boundaries and their neighbouring floats, huge, tiny, "
    "negative, infinite, NaN, integer, numpy scalar and wrongly typed values) against a dictionary model of the "
    "documented ranges: accepted values read back equal, refused ones raise the documented error type and change "
    "nothing. Non-trivial: at least one accepted and one refused operation."
)

# field -> (accepts, error)
RANGES = {
    "epsilon": lambda x: x > 0,
    "incr_f": lambda x: x > 1,
    "decr_f": lambda x: x < 1,
    "safety_f": lambda x: x <= 1,
    "adapt_cutoff": lambda x: x < 1,
    "minh": lambda x: x > 0,
    "modecutoff": lambda x: 0 < x <= 1,
    "contour_radius": lambda x: x > 0,
    "contour_points": lambda x: x > 1,
}
SOLVER = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")
ETD = ("modecutoff", "contour_points", "contour_radius")
DEFAULT = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16, modecutoff=0.01, contour_points=32, contour_radius=1.0)


@st.composite
def value_st(draw, field):
    """[type, text]: JSON form of one value."""
    if field == "contour_points":
        k = draw(pick("int", "int", "int", "float", "nan", "bool"))
        if k == "int":
            return ["int", draw(st.one_of(ints(-3, 5), ints(2, 500), pick(0, 1, 2, 10**6, -(10**9))))]
        if k == "float":
            return ["float", repr(draw(pick(32.0, 2.5, 1.0, -1.0, float("inf"))))]
        return ["float", "nan"] if k == "nan" else ["str", "32"]
    k = draw(pick("edge", "edge", "any", "any", "int", "np64", "np32", "special", "frac"))
    edge = draw(pick(0.0, 1.0, 0.0, 1.0))
    if k == "edge":
        d = draw(pick(0, 1, -1))
        x = edge if d == 0 else float(np.nextafter(edge, edge + d))
        return ["float", repr(x)]
    if k == "any":
        return ["float", repr(draw(st.one_of(num(-3, 3), logu(-300, 300), logu(-6, 1))))]
    if k == "int":
        return ["int", draw(ints(-3, 5))]
    if k == "np64":
        return ["np64", repr(draw(st.one_of(num(-3, 3), logu(-20, 20))))]
    if k == "np32":
        return ["np32", repr(draw(pick(0.5, 0.25, 2.0, -1.0, 1.0, 0.0)))]
    if k == "frac":
        return ["frac", draw(pick("1/2", "3/2", "-1/4", "1/1"))]
    return ["float", draw(pick("nan", "inf", "-inf", "nan", "-0.0", "5e-324"))]


def decode(v):
    t, x = v
    return {"float": float, "int": int, "np64": lambda s: np.float64(s), "np32": lambda s: np.float32(s), "frac": Fraction, "str": str}[t](x)


def verdict(field, x):
    """None when accepted, else the exception type."""
    if field == "contour_points":
        if not isinstance(x, int):
            return TypeError
        return None if x > 1 else ValueError
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return ValueError
    return None if RANGES[field](x) else ValueError


@st.composite
def seq_st(draw, fields):
    ops = []
    for _ in range(draw(ints(1, 10))):
        if draw(ints(0, 4)) == 0:
            fs = draw(st.lists(pick(*fields), unique=True, max_size=4))
            ops.append(["new", {f: draw(value_st(f)) for f in fs}, draw(BOOL)])
        else:
            f = draw(pick(*fields))
            ops.append(["set", f, draw(value_st(f))])
    return dict(fields=list(fields), ops=ops, solver=draw(pick(*ADAPTIVE)) if fields is SOLVER else None)


def check(case):
    fields = case["fields"]
    cls = SolverConfig if "epsilon" in fields else ETDConfig
    cfg, model = cls(), {f: DEFAULT[f] for f in fields}
    if case["solver"]:
        s = gen.make(case["solver"], np.array([-1.0]), lambda u: u * u)
        cfg = s.config
    acc = ref = 0

    def same(what):
        for f in fields:
            got = getattr(cfg, f)
            require(got == model[f], "after %s: %s reads %r, expected %r", what, f, got, model[f])

    same("construction")
    for op in case["ops"]:
        if op[0] == "set":
            f, x = op[1], decode(op[2])
            want = verdict(f, x)
            try:
                setattr(cfg, f, x)
                got = None
            except (ValueError, TypeError) as e:
                got = type(e)
            what = "%s = %r" % (f, x)
            require((got is None) == (want is None), "%s was %s", what, "accepted" if got is None else "refused with %s" % got.__name__)
            if want is not None:
                require(issubclass(got, want), "%s raised %s, documented %s", what, got.__name__, want.__name__)
                ref += 1
            else:
                model[f] = x
                acc += 1
            same(what)
        else:
            kw = {f: decode(v) for f, v in op[1].items()}
            bad = {verdict(f, x) for f, x in kw.items()} - {None}
            positional = op[2] and list(kw) == fields[: len(kw)]
            try:
                new = cls(*kw.values()) if positional else cls(**kw)
                got = None
            except (ValueError, TypeError) as e:
                got = type(e)
            require((got is None) == (not bad), "%s(%s) was %s", cls.__name__, kw, "accepted" if got is None else "refused")
            if bad:
                require(any(issubclass(got, b) for b in bad), "%s(%s) raised %s", cls.__name__, kw, got.__name__)
                ref += 1
                same("a refused construction")
            else:
                same("constructing another object")
                cfg, model = new, dict({f: DEFAULT[f] for f in fields}, **kw)
                acc += 1
                same("construction")
    return acc > 0 and ref > 0, ["accepted" if acc else "none accepted", "refused" if ref else "none refused"]


FACETS = [
    Facet("solver-config", seq_st(SOLVER), check, quick=4000, shards=4, rule="SolverConfig, partly through solver.config"),
    Facet("etd-config", seq_st(ETD), check, quick=3000, shards=4, rule="ETDConfig"),
]

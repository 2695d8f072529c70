"""C05: the adaptive controller on scripted streams of trials and estimates."""

import logging
import math
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, Runaway, require
from ..gen import BOOL, pick, ints, logu, num, unif

from rkstiff.solveras import BaseSolverAS, SolverConfig

RULE = (
    "A subclass of BaseSolverAS whose trial solutions and error estimates are scripted (finite, zero, masked, infinite, "
    "NaN, all-zero states, runs of up to 60 rejections) is stepped repeatedly; the sequence of attempted sizes, the "
    "accepted size, the suggestion, the returned state or the exception must be those of an independent model of the "
    "documented rule. Cases with a scale within 1e-6 of a decision threshold are not judged at that step. "
    "Non-trivial: at least one attempt rejected, one special estimate, or two accepted steps."
)
ASSUMPTIONS = [
    "constants documented on the class: at most 50 retries, growth at most 4, shrink at least 0.25 per attempt",
    "states and estimates between 1e-100 and 1e100 (norms neither overflow nor underflow)",
]


class Scripted(BaseSolverAS):
    """Controller under test with scripted attempts."""

    def __init__(self, n, script, q, config):
        self.script, self.q, self.pos, self.hs, self.seen = script, q, 0, [], []
        super().__init__(np.zeros(n), lambda u: u, config=config)

    def _reset(self):
        pass

    def _q(self):
        return self.q

    def _update_stages(self, u, h):
        if len(self.hs) > 4000:
            raise Runaway("controller attempted more than 4000 steps")
        self.hs.append(h)
        self.seen.append(u)
        t = self.script[self.pos % len(self.script)]
        self.pos += 1
        return t[0].copy(), t[1].copy()


logging.getLogger("rkstiff.Scripted").addHandler(logging.NullHandler())

SPECIAL = ("zero-err", "nan-err", "inf-err", "nan-u", "inf-u", "zero-u", "zero-both", "masked-nan", "ninf-err", "part-nan-u")


def entries(x, n):
    """A generated vector, or one of n entries given by a seed and a profile."""
    if isinstance(x, list):
        return gen.carr(x)
    g = np.random.default_rng(x["seed"])
    v = g.uniform(-1, 1, n) + 1j * g.uniform(-1, 1, n)
    if x["profile"] == "peak":
        v = v * np.where(np.arange(n) == g.integers(n), 1.0, 1e-3)
    elif x["profile"] == "decaying":
        v = v * np.exp(-14.0 * np.arange(n) / n)
    elif x["profile"] == "rising":
        v = v * np.exp(-14.0 * np.arange(n)[::-1] / n)
    return v


@st.composite
def case_st(draw, runs, wide=False):
    n = draw(st.one_of(ints(6, 300), pick(*gen.WIDE_N))) if wide else draw(ints(1, 5))
    profile = pick("flat", "peak", "decaying", "rising")
    some = st.fixed_dictionaries(dict(seed=ints(0, 10**6), profile=profile)) if wide else None
    cfg = draw(gen.solver_cfg((-9, 0), stubborn=True))
    if draw(BOOL):
        cfg["minh"] = draw(logu(-16, -3))
    q = draw(pick(4, 5, 3))
    script = []
    for _ in range(draw(ints(1, 8))):
        if draw(ints(0, 3)) == 0:
            script.append(dict(k=draw(pick(*SPECIAL)), i=draw(ints(0, 9)), m=1))
        else:
            script.append(
                dict(
                    k="s",
                    s=draw(st.one_of(unif(0.05, 1.0), unif(1.0, 6.0), logu(-3, 3), pick(0.9999, 1.0001))),
                    u=draw(some if wide else gen.vec(n, -2, 2)),
                    e=draw(some if wide else gen.vec(n, -1, 1)),
                    x=draw(pick(1.0, 1.0, 1e-30, 1e30, 1e-8)),
                    m=draw(pick(1, 1, 1, 1, 2, 5)),
                )
            )
    if runs:  # one long run of rejections around the attempt limit
        script.insert(draw(ints(0, len(script))), dict(k=draw(pick("near", "nan-err", "inf-err", "nan-u", "zero-u")), i=draw(ints(0, 9)), m=draw(st.one_of(ints(45, 56), ints(1, 60)))))
        cfg["decr_f"] = draw(pick(0.99, 0.97, 0.9, 0.85))
        if draw(BOOL):
            cfg.pop("minh", None)
    return dict(n=n, cfg=cfg, q=q, script=script, h=draw(logu(-4, 1)), steps=draw(ints(1, 6)), hzero=draw(ints(0, 19)) == 0)


def build(case):
    """[(trial, estimate)] realising the scripted attempts."""
    n, q = case["n"], case["q"]
    c = gen.full_cfg(case["cfg"])
    out = []
    for t in case["script"]:
        k = t["k"]
        base = (np.arange(1, n + 1) / 3.0).astype(complex)
        small = np.full(n, 1e-30, dtype=complex)
        i = t.get("i", 0) % n
        if k == "s" or k == "near":
            u = entries(t["u"], n) * t["x"] if k == "s" else base
            e = entries(t["e"], n) if k == "s" else np.ones(n, dtype=complex)
            s = t["s"] if k == "s" else 0.95 if c["safety_f"] > 0.9 else 0.9
            mag = np.abs(u)
            keep = mag > c["adapt_cutoff"] * mag.max() if mag.max() > 0 else np.ones(n, bool)
            ne = np.linalg.norm(e[keep])
            if ne > 0:
                want = c["epsilon"] * np.linalg.norm(u[keep]) / (s / c["safety_f"]) ** q
                e = e * (want / ne)
        elif k == "zero-err":
            u, e = base, np.zeros(n, dtype=complex)
        elif k in ("nan-err", "inf-err", "ninf-err"):
            u, e = base.copy(), small
            u[:] = 1.0
            e[i] = dict(nan=np.nan, inf=np.inf, ninf=-np.inf)[k.split("-")[0]]
        elif k == "nan-u":
            u, e = base * np.nan, small
        elif k == "part-nan-u":
            u, e = base.copy(), small
            u[i] = np.nan
        elif k == "inf-u":
            u, e = base.copy(), small
            u[i] = np.inf
        elif k == "zero-u":
            u, e = np.zeros(n, dtype=complex), small
        elif k == "zero-both":
            u, e = np.zeros(n, dtype=complex), np.zeros(n, dtype=complex)
        else:  # masked-nan: a NaN estimate on a mode below the cutoff is ignored
            u, e = base.copy(), small.copy()
            if n > 1:
                u[0] = 1e-9 * c["adapt_cutoff"]
                e[0] = np.nan
        out += [(u, e)] * t["m"]
    return out


def scale(u, e, c, q):
    """Scale factor of the documented rule; None when the estimate is unusable."""
    if not np.all(np.isfinite(u)):
        return None
    mag = np.abs(u)
    top = mag.max()
    keep = mag / top > c["adapt_cutoff"] if top > 0 else np.ones(u.shape, bool)
    ne = math.sqrt(float(np.sum((np.abs(e[keep]) / (top or 1.0)) ** 2)))
    nu = math.sqrt(float(np.sum((mag[keep] / (top or 1.0)) ** 2)))
    if ne == 0.0:
        return 4.0
    if not math.isfinite(ne):
        return None
    return c["safety_f"] * (c["epsilon"] * nu / ne) ** (1.0 / q)


def check(case):
    c = gen.full_cfg(case["cfg"])
    q = case["q"]
    script = build(case)
    s = Scripted(case["n"], script, q, SolverConfig(**case["cfg"]))
    u = np.arange(case["n"]) + 1.0
    h = 0.0 if case["hzero"] else case["h"]
    pos = 0
    labels = set()
    rejected = accepted = 0
    for _ in range(case["steps"]):
        # model
        want, hm, tries, want_exc = [], h, 0, None
        while True:
            want.append(hm)
            tu, te = script[pos % len(script)]
            pos += 1
            sc = scale(tu, te, c, q)
            if sc is not None and (abs(sc - 1) < 1e-6 or abs(sc - c["incr_f"]) < 1e-6):
                return rejected > 0, sorted(labels | {"undecidable"})
            if sc is not None and sc >= 1.0 and hm > 0.0:
                g = min(sc, 4.0)
                result = (tu, hm, g * hm if g > c["incr_f"] else hm)
                if g == 4.0:
                    labels.add("max growth")
                elif g <= c["incr_f"]:
                    labels.add("keep size")
                break
            rejected += 1
            tries += 1
            if sc is None:
                if c["decr_f"] < 0.25 and np.all(np.isfinite(tu)):
                    return rejected > 1, sorted(labels | {"undecidable"})  # which of the two limits wins is not stated
                f = 0.25
                labels.add("non-finite")
            else:
                f = min(max(sc, 0.25), c["decr_f"])
                labels.add("shrink " + ("min" if f == 0.25 else "max" if f == c["decr_f"] else "s"))
            hm = f * hm
            if tries > 50 or hm < c["minh"]:
                want_exc = s.SolverError if tries > 50 and hm < c["minh"] else s.MaxLoopsExceeded if tries > 50 else s.MinimumStepReached
                if abs(hm - c["minh"]) < 1e-9 * c["minh"]:
                    return rejected > 0, sorted(labels | {"undecidable"})
                break
            if abs(hm - c["minh"]) < 1e-9 * c["minh"]:
                return rejected > 0, sorted(labels | {"undecidable"})
        # system under test
        s.hs, s.seen = [], []
        exc = got = None
        try:
            got = s.step(u, h)
        except s.SolverError as e:
            exc = e
        require(len(s.hs) == len(want), "%d attempts made (%s), the rule gives %d", len(s.hs), exc and type(exc).__name__, len(want))
        for a, b in zip(s.hs, want):
            require(abs(a - b) <= 1e-9 * b, "attempted sizes %s, the rule gives %s", s.hs, want)
        require(all(x is u or np.array_equal(x, u) for x in s.seen), "an attempt did not start from the given state")
        if want_exc is not None:
            require(exc is not None and isinstance(exc, want_exc), "expected %s, got %r", want_exc.__name__, exc if exc else got[1:])
            labels.add(want_exc.__name__)
            break
        require(exc is None, "failed with %r, the rule accepts h=%r", exc, result[1])
        require(np.array_equal(got[0], result[0]), "returned state is not the accepted trial")
        require(abs(got[1] - result[1]) <= 1e-9 * result[1], "accepted size %r, the rule gives %r", got[1], result[1])
        require(abs(got[2] - result[2]) <= 1e-9 * result[2], "suggested size %r, the rule gives %r", got[2], result[2])
        require(float(got[1]) == s.hs[-1], "reported size %r is not the attempted one %r", got[1], s.hs[-1])
        accepted += 1
        u, h = got[0], got[2]
    labels.add("rejections" if rejected else "no rejection")
    return rejected > 0 or accepted > 1, sorted(labels)


FACETS = [
    Facet("mixed", case_st(False), check, quick=8000, shards=6, rule="short scripts mixing every kind of estimate"),
    Facet("wide", case_st(False, True), check, quick=2500, shards=4, rule="short scripts, states of 6-1025 entries with flat, peaked, decaying and rising profiles"),
    Facet("runs", case_st(True), check, quick=4000, shards=4, rule="long runs of rejections around the attempt and minimum-step limits"),
]

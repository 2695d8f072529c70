"""C10: results do not depend on what the solver did before."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, LongRun, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, ints, logu, num, pick, vec

RULE = (
    "Random histories of step, evolve, reset, refused calls, faults (a nonlinear term that raises or returns NaN, inf or "
    "huge values at a chosen evaluation), tolerance changes and overwriting of returned arrays run on one solver; at "
    "generated points (and at the end) an evolve, or a reset followed by steps, is compared bit for bit with a newly "
    "built solver (result, times, snapshots, exception type, number of evaluations), and an evolve with the same steps "
    "taken singly. Continued sequences: every step from the current state is compared with a new solver's step from it. Non-trivial: the compared operation follows at least one step, evolution or failure; a sequence of two or more compared steps."
)


class Boom(Exception):
    pass


class FaultyNL:
    """Nonlinear term with one armed fault."""

    def __init__(self, spec):
        self.f, self.n, self.at, self.kind = gen.NL(spec, budget=40000), 0, None, None

    def arm(self, kind, k):
        self.kind, self.at = kind, self.n + k

    def disarm(self):
        self.at = None

    def __call__(self, u):
        self.n += 1
        out = self.f(u)
        if self.at is not None and self.n >= self.at:
            if self.kind == "raise" or self.n > self.at + 300:
                raise Boom()
            v = dict(nan=np.nan, inf=np.inf, huge=1e200)[self.kind]
            out = np.full_like(out, v)
        return out


HF = (1.0, 1.0, 0.5, 0.25, 1.0 + 1e-12, 1.0 + 1e-9, 0.999, 2.0)


@st.composite
def op_st(draw, n, cplx):
    k = draw(pick("step", "step", "step", "evolve", "evolve", "reset", "fault", "bad", "eps", "scribble", "cmp-steps", "cmp-evolve"))
    if k == "step":
        return [k, draw(pick(*HF)), draw(ints(0, 2))]
    if k == "evolve":
        return [k, draw(pick(*HF)), draw(ints(1, 6)), draw(ints(0, 2)), draw(BOOL)]
    if k == "fault":
        return [k, draw(pick("raise", "nan", "inf", "huge")), draw(ints(1, 12)), draw(pick("step", "evolve")), draw(pick(*HF)), draw(ints(0, 2))]
    if k == "bad":
        return [k, draw(pick("h0", "hneg", "hbig", "tback"))]
    if k == "eps":
        return [k, draw(logu(-6, -1))]
    if k == "cmp-steps":
        return [k, draw(st.lists(pick(*HF), min_size=1, max_size=4)), draw(ints(0, 2))]
    if k == "cmp-evolve":
        return [k, draw(pick(*HF)), draw(ints(1, 6)), draw(ints(0, 2)), draw(BOOL)]
    return [k]


@st.composite
def case_st(draw, kind):
    if kind == "diag":
        c = dict(draw(gen.diag_system(nmin=1, nmax=3, hlo=-2, hhi=-0.3, units=True)))
        names = ALL
    else:
        c = dict(draw(gen.mat_system(nmin=1, nmax=3, hlo=-2, hhi=-0.3, znorm=(0.02, 1.0), diagable=(kind == "eig"), units=True)))
        names = tuple(x for x in ALL if x != "IF45DP") if kind == "mat" else ("ETD34", "ETD35", "IF34")
    c["solver"] = draw(pick(*names))
    c["diagonalize"] = kind == "eig"
    c["cfg"] = draw(gen.solver_cfg((-5, -1)))
    us, ts = c.get("us", 1.0), c.get("ts", 1.0)
    c["us"] = [gen.enc(us * gen.carr(draw(vec(c["n"], -1, 1, c["cplx"])))) for _ in range(2)]
    if ts < 1:
        c["cfg"] = dict(c["cfg"], minh=1e-16 * ts)
    c["ops"] = draw(st.lists(op_st(c["n"], c["cplx"]), min_size=1, max_size=7))
    c["end"] = [draw(pick("cmp-steps", "cmp-evolve")), draw(pick(*HF))]
    return c


def run_ops(s, nl, fn):
    """Outcome of fn(s): value, exception type, evaluations."""
    n0 = nl.n
    try:
        val = fn(s)
        exc = None
    except LongRun:
        raise
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, (Boom, ValueError, RuntimeError, AssertionError, FloatingPointError, np.linalg.LinAlgError)):
            val, exc = None, type(e).__name__
        else:
            raise
    return val, exc, nl.n - n0


def check(case):
    try:
        return check_history(case)
    except LongRun:  # a legitimately long run (termination is C05's and C08's concern)
        return False, ["more than 40000 evaluations"]


def check_history(case):
    name = case["solver"]
    L = gen.decode_L(case)
    if case["diagonalize"] and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    adaptive = name in ADAPTIVE
    us = [gen.decode_u(case)] + [gen.carr(u) if case["cplx"] else gen.carr(u).real.copy() for u in case["us"]]
    cfg = gen.full_cfg(case["cfg"])
    h0 = case["h"]
    nl = FaultyNL(case["nl"])
    build = lambda nl: gen.make(name, L, nl, cfg=cfg, etd=case["etd"], diagonalize=case["diagonalize"] or None)  # noqa: E731
    s = build(nl)
    labels = {name}
    dirty = False
    useful = 0
    last = None

    def steps(hs, ui):
        def fn(x):
            x.reset()
            out, u = [], us[ui]
            for f in hs:
                r = x.step(u, h0 * f)
                u = r[0] if adaptive else r
                out.append((u.copy(),) + tuple(float(v) for v in (r[1:] if adaptive else ())))
            return out

        return fn

    def evolve(f, k, ui, store):
        h = h0 * f
        ti = 0.25 * case.get("ts", 1.0)
        tf = ti + k * h

        def fn(x):
            r = x.evolve(us[ui], ti, tf, h, store_data=store)
            return [(r.copy(),), (np.array(x.t),)] + [(v.copy(),) for v in x.u]

        return fn

    def compare(fn, what):
        nonlocal useful
        n2 = FaultyNL(case["nl"])
        b = run_ops(build(n2), n2, fn)
        nl.f.calls = 0
        try:
            a = run_ops(s, nl, fn)
        except LongRun:
            require(False, "%s after a history: %s does not finish, a new solver needs %d evaluations", name, what, b[2])
        require(a[1] == b[1], "%s after a history: %s raised %s, a new solver %s", name, what, a[1], b[1])
        require(a[2] == b[2], "%s after a history: %s used %d evaluations, a new solver %d", name, what, a[2], b[2])
        if a[0] is not None:
            require(len(a[0]) == len(b[0]), "%s after a history: %s has %d records, a new solver %d", name, what, len(a[0]), len(b[0]))
            for x, y in zip(a[0], b[0]):
                for p, q in zip(x, y):
                    require(np.array_equal(p, q, equal_nan=True), "%s after a history: %s gives %s, a new solver %s", name, what, p, q)
        if dirty:
            useful += 1
        return b

    for op in case["ops"] + [case["end"]]:
        k = op[0]
        if k == "step":
            last = run_ops(s, nl, lambda x: x.step(us[op[2]], h0 * op[1]))[0]
            dirty = True
        elif k == "evolve":
            last = run_ops(s, nl, evolve(*op[1:]))[0]
            dirty = True
        elif k == "reset":
            s.reset()
        elif k == "fault":
            nl.arm(op[1], op[2])
            fn = (lambda x: x.step(us[op[5]], h0 * op[4])) if op[3] == "step" else evolve(op[4], 4, op[5], True)
            _, exc, _ = run_ops(s, nl, fn)
            nl.disarm()
            labels.add("fault " + str(exc))
            dirty = True
        elif k == "bad":
            t1 = 20 * h0
            kw = dict(h0=(0.0, t1, 0.0), hneg=(0.0, t1, -h0), hbig=(0.0, t1, 5 * t1), tback=(t1, 0.0, h0))[op[1]]
            if not (adaptive and op[1] != "tback"):
                run_ops(s, nl, lambda x: x.evolve(us[0], *kw))
                labels.add("refused")
                dirty = True
        elif k == "eps":
            cfg = dict(cfg, epsilon=op[1])
            if adaptive:
                s.config.epsilon = op[1]
                labels.add("tolerance changed")
        elif k == "scribble":
            r = last[0] if isinstance(last, tuple) else last
            if isinstance(r, np.ndarray):
                r[...] = 7
                labels.add("overwritten")
        elif k == "cmp-steps":
            compare(steps(op[1] if isinstance(op[1], list) else [op[1], 1.0, op[1]], op[2] if len(op) > 2 else 0), "reset and steps")
            labels.add("steps compared")
            dirty = True
        else:
            args = op[1:] if len(op) > 2 else [op[1], 3, 0, True]
            fn = evolve(*args)
            b = compare(fn, "evolve")
            labels.add("evolve compared")
            if b[0] is not None and not adaptive:
                one = run_ops(build(FaultyNL(case["nl"])), nl, steps([args[0]] * args[1], args[2]))[0]
                require(np.array_equal(one[-1][0], b[0][0][0], equal_nan=True), "%s: evolve gives %s, the same steps %s", name, b[0][0][0], one[-1][0])
            dirty = True
    return useful > 0, sorted(labels)


@st.composite
def cont_case(draw, kind):
    c = draw(case_st(kind))
    for k in ("ops", "end", "us"):
        del c[k]
    c["fs"] = draw(st.lists(
        st.one_of(
            st.tuples(gen.logu(-15, -3), pick(-1, 1)).map(lambda t: 1.0 + t[0] * t[1]),
            st.tuples(gen.logu(-9, -6), pick(-1, 1)).map(lambda t: 1.0 + t[0] * t[1]),
            pick(1.0, 1.0, 0.5, 2.0, "suggested")),
        min_size=2, max_size=7))
    c["probe"] = draw(BOOL)
    return c


def check_cont(case):
    """Each step of a continued sequence against a new solver taking that one step."""
    name = case["solver"]
    L = gen.decode_L(case)
    if case["diagonalize"] and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    adaptive = name in ADAPTIVE
    cfg = gen.full_cfg(case["cfg"])
    build = lambda: gen.make(name, L, gen.NL(case["nl"]), cfg=cfg, etd=case["etd"], diagonalize=case["diagonalize"] or None)  # noqa: E731
    s, nl = build(), gen.NL(case["nl"])
    u, h, prev = gen.decode_u(case), case["h"], None
    done, labels = 0, {name}
    for f in case["fs"]:
        h = prev if f == "suggested" and prev else h * (1.0 if f == "suggested" else f)
        if not 1e-6 < h / case.get("ts", 1.0) < 1e3:
            break
        if case["probe"]:  # as a user following the size the step was taken with, or re-running it
            h = float(np.nextafter(h, 1.0))
        try:
            b = build().step(u.copy(), h)
        except (ValueError, RuntimeError):
            break
        try:
            a = s.step(u.copy(), h)
        except (ValueError, RuntimeError) as e:
            require(False, "%s: step %d of a sequence (h=%r) fails (%s), the same step of a new solver does not", name, done, h, e)
        un, vn = (a[0], b[0]) if adaptive else (a, b)
        if not (np.all(np.isfinite(vn)) and np.max(np.abs(vn)) < 1e6 * case.get("us", 1.0)):
            break
        hu = float(b[1]) if adaptive else h
        if hu == h and (not adaptive or a[1] == h):
            scale = max(float(np.max(np.abs(v))) for v in (u, vn, hu * nl(u), hu * nl(vn)))
            d = float(np.max(np.abs(un - vn)))
            require(d <= 1e-10 * scale, "%s: step %d of a sequence (h=%r) gives %s, the same step of a new solver %s (difference %g of size %g)", name, done, h, un, vn, d, scale)
            done += 1
        else:  # a retried size carries the rounding of an error estimate: C05 and C06 judge those
            labels.add("rejected trial")
        if adaptive:
            prev = float(b[2])
        u = np.array(vn)
        h = float(hu)
    return done >= 2, sorted(labels)


@st.composite
def retry_case(draw):
    """A step that fails part-way (an exception), then the same step again without a reset."""
    kind = draw(pick("diag", "diag", "mat", "eig"))
    c = draw(case_st(kind))
    for k in ("ops", "end", "us"):
        del c[k]
    c["warm"] = draw(st.lists(pick(1.0, 1.0, 0.5, 0.9), max_size=3))
    c["fail"] = draw(pick("raise", "raise", "over", "under", "all", "contour"))
    c["at"] = draw(ints(1, 9))
    c["f"] = draw(pick(1.0, 1.0, 0.5, 0.7))
    c["then"] = draw(pick("same", "same", "last"))
    if c["fail"] in ("over", "under", "all"):  # operators whose exponentials leave the range of doubles
        f = draw(pick(1.0, 1e3, 3e5))
        if kind == "diag":
            z = gen.carr(c["L"])
            c["L"] = gen.enc(-np.abs(z.real) * f + 1j * z.imag)
    elif c["fail"] == "contour" and kind == "mat":
        # an eigenvalue of h L exactly on the contour: the resolvent does not exist
        c["h"] = 2.0 ** draw(ints(-6, 0))
        m = c["etd"].get("contour_points", 32)
        p = c["etd"].get("contour_radius", 1.0) * np.exp(2j * np.pi * np.arange(0.5, m) / m)[draw(ints(0, m - 1))]
        L = gen.carr(c["L"])
        L[:, 0] = 0
        L[0, 0] = p / (c["h"] * c["f"]) * draw(pick(1.0, 1.0, 2.0))
        if c["f"] == 0.7:
            c["f"] = 1.0
        c.update(L=gen.enc(L), cplx=True)
        c.pop("realL", None)
    return c


def check_retry(case):
    name = case["solver"]
    L = gen.decode_L(case)
    if case["diagonalize"] and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    adaptive = name in ADAPTIVE
    cfg = gen.full_cfg(case["cfg"])

    def build():
        f = FaultyNL(case["nl"])
        return gen.make(name, L, f, cfg=cfg, etd=case["etd"], diagonalize=case["diagonalize"] or None), f

    def outcome(s, v, h):
        try:
            r = s.step(v.copy(), h)
            return (r if adaptive else (r, h)), None
        except (ValueError, RuntimeError, AssertionError, np.linalg.LinAlgError) as e:
            return None, type(e).__name__

    s, nl = build()
    u, h = gen.decode_u(case), case["h"]
    old = None
    for f in case["warm"]:
        old = h * f
        r, exc = outcome(s, u, old)
        if exc is not None or not np.all(np.isfinite(r[0])):
            return False, [name, "warm-up fails"]
        u = r[0].copy()
    h *= case["f"]
    n0 = nl.n
    try:
        if case["fail"] == "raise":
            nl.arm("raise", case["at"])
            s.step(u.copy(), h)
        elif case["fail"] == "contour":
            s.step(u.copy(), h)
        else:
            with np.errstate(**{case["fail"]: "raise"}):
                s.step(u.copy(), h)
        failed = None
    except (Boom, FloatingPointError, np.linalg.LinAlgError) as e:
        failed = type(e).__name__
    except (ValueError, RuntimeError, AssertionError):
        return False, [name, "solver error"]
    nl.disarm()
    # arithmetic that fails between evaluations may leave the stages half updated: only failing coefficients count
    if failed is None or (failed != "Boom" and nl.n > n0):
        return False, [name, "no failure" if failed is None else "failed later"]
    if case["then"] == "last" and old is not None:
        h = old
    b, eb = outcome(build()[0], u, h)
    a, ea = outcome(s, u, h)
    require(ea == eb, "%s: a step that failed (%s), tried again, raises %s, a new solver %s", name, failed, ea, eb)
    if b is not None and np.all(np.isfinite(b[0])) and np.max(np.abs(b[0])) < 1e100:
        if adaptive and b[1] != h:
            return True, [name, failed, "rejected trial"]
        require(abs(a[1] - b[1]) <= 1e-10 * b[1], "%s: a step that failed (%s), tried again, accepts %r, a new solver %r", name, failed, a[1], b[1])
        scale = max(float(np.max(np.abs(v))) for v in (u, b[0], h * gen.NL(case["nl"])(u)))
        d = float(np.max(np.abs(a[0] - b[0])))
        require(d <= 1e-10 * scale, "%s: a step that failed (%s), tried again, gives %s, a new solver %s", name, failed, a[0], b[0])
    return True, [name, failed]


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=3200, shards=8, rule="1D operators, all solvers"),
    Facet("matrix", case_st("mat"), check, quick=1200, shards=5, rule="full matrices"),
    Facet("diagonalized", case_st("eig"), check, quick=800, shards=3, rule="diagonalize=True"),
    Facet("continued", cont_case("diag"), check_cont, quick=2400, shards=2, rule="steps of a continued sequence, many nearly equal, against a new solver's"),
    Facet("continued-matrix", cont_case("mat"), check_cont, quick=800, shards=2, rule="full matrices"),
    Facet("continued-diagonalized", cont_case("eig"), check_cont, quick=500, shards=1, rule="diagonalize=True"),
    Facet("retry", retry_case(), check_retry, quick=1600, shards=2, rule="a failed step repeated without a reset"),
]

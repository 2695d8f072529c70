"""C13: adaptive accuracy follows the requested tolerance."""

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, ref
from ..core import Facet, LongRun, require
from ..env import ADAPTIVE
from ..gen import BOOL, carr, enc, ints, logu, num, pick, unif, vec

CLD = np.clongdouble
RULE = (
    "Exactly solvable nonlinear systems (Bernoulli equations of degree 2 and 3 per component, amplitude-dependent "
    "rotations, driven linear equations) with generated rates, some stiff, optionally mixed by a random basis (full "
    "matrix, direct or diagonalized), integrated at two tolerances: each error is bounded by a modest multiple of "
    "tolerance * steps * growth, the tighter run is at least as accurate, and the step count grows with the tolerance's q-th root. "
    "Non-trivial: more than five steps and an error above rounding."
)
ASSUMPTIONS = ["the initial step resolves the fastest linear rate", "adapt_cutoff so small that every mode takes part in the error control"]


@st.composite
def case_st(draw, kind):
    fam = draw(pick("logistic", "cubic", "rotation", "driven"))
    n = draw(ints(1, 4)) if fam != "driven" else 3
    T = draw(logu(-1, 1))
    c = dict(fam=fam, n=n, T=T, kind=kind, solver=draw(pick(*(ADAPTIVE if kind == "diag" else ("ETD34", "ETD35", "IF34")))))
    c["diagonalize"] = kind == "mat" and draw(BOOL)
    stiff = kind == "diag" and draw(ints(0, 2)) == 0
    a = []
    for i in range(n):
        x = draw(unif(-3.0, 1.0))
        if stiff and i == 0:
            x = -draw(logu(0.5, 2))
        a.append(float("%.5g" % (x if abs(x) > 0.01 else 0.0)))
    c["a"] = a
    c["b"] = [draw(num(0.1, 2.0)) for _ in range(n)]
    c["w"] = [draw(num(-4, 4)) for _ in range(n)]
    c["u0"] = [draw(num(0.2, 1.5)) for _ in range(n)]
    c["P"] = [draw(vec(n, -1, 1, fam == "rotation")) for _ in range(n)]
    c["eps"] = draw(logu(-10, -2.5))
    c["tight"] = draw(pick(10.0, 100.0, 1000.0))
    c["hi"] = draw(pick(None, 1.0, 1e-3, 0.1))
    c["t0"] = draw(pick(0.0, 0.0, 1.5, -2.0))
    if draw(ints(0, 3)) == 0:  # other units of time and state
        c["T"] = draw(logu(-9, 8))
        c["t0"] *= c["T"]
        c["us"] = draw(pick(1e-9, 1e-6, 1e-4, 1.0, 1e6))
    return c


def problem(c):
    """(L, N, u0, exact(t), growth) on the unit time scale T = 1."""
    a, b, w, u0 = (np.array(c[k]) for k in ("a", "b", "w", "u0"))
    fam = c["fam"]
    if fam == "logistic":
        L, N = a, lambda u: -b * u * u
        # u = u0 e / (1 + b u0 (e-1)/a)
        ex = lambda t: u0 * np.exp(a * t) / (1 + b * u0 * t * expm1r(a * t))  # noqa: E731
        grow = np.exp(max(0.0, a.max()))
    elif fam == "cubic":
        L, N = a, lambda u: -b * u * u * u
        ex = lambda t: u0 * np.exp(a * t) / np.sqrt(1 + 2 * b * u0 * u0 * t * expm1r(2 * a * t))  # noqa: E731
        grow = np.exp(max(0.0, a.max()))
    elif fam == "rotation":
        L, N = 1j * w, lambda u: -1j * b * np.abs(u) ** 2 * u
        ex = lambda t: u0 * np.exp(1j * (w - b * u0**2) * t)  # noqa: E731
        grow = 1 + 2 * np.max(b * u0**2)
        u0 = u0.astype(complex)
    else:  # driven: clock s (s'=1), x' = a x + b cos(w s), y' = a y + x s, with exact quadrature
        a = np.array([0.0, a[1], a[2]])
        bb, ww = b[1], w[1] if abs(w[1]) > 0.05 else 1.0
        L = a

        def N(u):
            out = np.zeros_like(u)
            out[0] = 1.0
            out[1] = bb * np.cos(ww * u[0])
            out[2] = u[1] * u[0]
            return out

        x, wt = np.polynomial.legendre.leggauss(30)

        def xs(t):
            # x(t) for arrays of t: closed form of the driven linear equation
            A, s0 = a[1], u0[0]
            part = lambda s: bb * (ww * np.sin(ww * s) - A * np.cos(ww * s)) / (A * A + ww * ww)  # noqa: E731
            return (u0[1] - part(s0)) * np.exp(A * t) + part(s0 + t)

        def ex(t):
            y = u0[2] * np.exp(a[2] * t)
            m = 12
            for i in range(m):
                s = t * (i + (x + 1) / 2) / m
                y = y + np.sum(wt * t / m / 2 * np.exp(a[2] * (t - s)) * xs(s) * (u0[0] + s))
            return np.array([u0[0] + t, xs(t), y])

        grow = np.exp(max(0.0, a.max())) * (1 + (u0[0] + 1 + u0[1] + bb) * (1 + abs(ww) * bb)) ** 2
    return L, N, u0, ex, float(grow)


def expm1r(x):
    """(e^x - 1)/x"""
    x = np.asarray(x, dtype=float)
    with np.errstate(all="ignore"):
        return np.where(np.abs(x) < 1e-9, 1 + x / 2, np.expm1(x) / np.where(x == 0, 1, x))


def check(case):
    L, N, u0, ex, grow = problem(case)
    n, T, name = case["n"], case["T"], case["solver"]
    cond = 1.0
    if case["kind"] == "mat":
        P = np.eye(n) + 0.4 / n * (carr(case["P"]) if np.iscomplexobj(u0) else carr(case["P"]).real)
        Pi = np.linalg.inv(P)
        cond = float(np.linalg.cond(P))
        if cond > 20:
            return False, ["ill-conditioned basis"]
        D = np.diag(L)
        if case["diagonalize"]:
            gaps = [abs(x - y) for i, x in enumerate(L) for y in L[:i]]
            if np.min(np.abs(L)) < 1e-6 or (gaps and min(gaps) < 1e-3):
                return False, ["singular or nearly repeated"]
        op, f, y0, exact = P @ D @ Pi, lambda v: P @ N(Pi @ v), P @ u0, lambda t: P @ ex(t)
    else:
        op, f, y0, exact = L, N, u0, ex
    us = case.get("us", 1.0)
    y0, want = us * y0, us * exact(1.0)
    scale = us * float(np.max([np.linalg.norm(exact(t)) for t in np.linspace(0, 1, 9)]))
    errs, steps = [], []
    for eps in (case["eps"], case["eps"] / case["tight"]):
        cnt = [0]

        def nl(v):
            cnt[0] += 1
            if cnt[0] > 400000:
                raise LongRun("more than 400000 evaluations")
            return us * f(v / us) / T

        etd = dict(contour_points=64, contour_radius=8.0) if op.ndim == 2 and not case["diagonalize"] else {}
        if etd and float(np.max(np.sum(np.abs(op), axis=0))) > 4:
            return False, ["outside the circle"]
        s = gen.make(name, op / T, nl, cfg=dict(epsilon=eps, adapt_cutoff=1e-14), etd=etd, diagonalize=case["diagonalize"] or None)
        # the first step resolves the fastest rate (an unresolved first step can fool any embedded estimate)
        hi = min(0.01 if case["hi"] is None else case["hi"], 0.3 / max(1.0, float(np.max(np.abs(L)))))
        default = case["hi"] is None and hi == 0.01
        v = s.evolve(y0, case["t0"], case["t0"] + T, None if default else hi * T)
        k = len(s.t) - 1
        e = float(np.linalg.norm(v - want))
        noise = (1e-11 + 1e-14 * k) * scale * grow * cond**2
        bound = 400.0 * eps * k * scale * grow * cond**2 + noise
        cmp.STAT["max"] = max(cmp.STAT["max"], e / bound)
        require(e <= bound, "%s: error %.3g after %d steps at tolerance %.3g (bound %.3g)", name, e, k, eps, bound)
        errs.append((e, noise, e / (eps * k * scale * grow * cond**2)))
        steps.append(k)
    # tightening helps: never much worse, and clearly better when the first error was sizeable
    require(errs[1][0] <= max(errs[0][0], 0.05 * case["eps"] * scale) * 1.5 + errs[1][1], "%s: tolerance %.3g -> %.3g raises the error from %.3g to %.3g", name, case["eps"], case["eps"] / case["tight"], errs[0][0], errs[1][0])
    require(steps[1] >= steps[0] - 2, "%s: a tighter tolerance takes fewer steps (%d against %d)", name, steps[1], steps[0])
    # the estimate is of local order q, so the step count follows tolerance^(-1/q) (observed: 0.70 to 1.18 of it from 20 steps on)
    pred = case["tight"] ** (1.0 / ref.EST_Q[name])
    if steps[0] >= 20:
        require(steps[1] >= 0.45 * pred * steps[0], "%s: tolerance %.3g -> %.3g only takes %d -> %d steps", name, case["eps"], case["eps"] / case["tight"], steps[0], steps[1])
    require(steps[1] <= 2 * pred * (steps[0] + 5), "%s: tolerance %.3g -> %.3g takes %d -> %d steps", name, case["eps"], case["eps"] / case["tight"], steps[0], steps[1])
    lab = [name, case["fam"], "r<1e-3" if errs[0][2] < 1e-3 else "r<1e-2" if errs[0][2] < 1e-2 else "r<0.1" if errs[0][2] < 0.1 else "r<1" if errs[0][2] < 1 else "r>1"]
    return steps[0] > 5 and errs[0][0] > errs[0][1], lab


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=3000, shards=8, rule="1D operators, some stiff"),
    Facet("matrix", case_st("mat"), check, quick=700, shards=4, rule="the same mixed by a random basis"),
]

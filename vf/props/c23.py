"""C23: model operators realise their stated equations."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated band-limited states (Fourier models) or boundary-vanishing polynomials (Allen-Cahn); lin_op and nl_func compared, "
    "separately and together, with the stated equation evaluated from the coefficients in extended precision. Solitons: values against "
    "the closed form in extended precision and the finite-difference residual of the KdV equation. "
    "Non-trivial: nonlinear contribution above 1e3 times its tolerance."
)
ASSUMPTIONS = ["states whose products are resolved on the grid (no aliasing) for the Fourier models", "even grid sizes (the library's grids)"]


# ------------------------------------------------------------------ Fourier models
@st.composite
def fourier_case(draw):
    model = draw(pick("kdv", "burgers"))
    n = 2 * draw(st.one_of(ints(4, 24), ints(4, 24), ints(4, 130), ints(4, 130), ints(131, 1000), st.one_of(ints(131, 1000), ints(1000, 2200))))
    top = (n // 2 - 1) // 2
    terms = [[draw(ints(0, top)), draw(gen.num(-2, 2)), draw(gen.num(-2, 2))] for _ in range(draw(ints(1, 5)))]
    a = draw(gen.num(-5, 5))
    w = draw(st.one_of(pick(2 * math.pi), gen.num(0.5, 60), gen.num(0.5, 60), gen.logu(-9, 9)))
    a = a * float("%.1g" % w) if w > 1e3 or w < 1e-3 else a
    return dict(model=model, n=n, a=a, b=a + w, terms=terms, mu=draw(st.one_of(gen.logu(-5, 1), gen.logu(-9, 6), pick(1, 0.5))),
                order=draw(pick("kw", "pos")), lay=draw(pick("plain", "readonly", "strided")), c=draw(st.one_of(gen.num(-2, 2), pick(1e-9, -1e-5, 1e4, 1e8))))


def coefs(case):
    """Coefficients c_{-top..top} of exp(i m theta) for the real trigonometric polynomial."""
    n = case["n"]
    top = (n // 2 - 1) // 2
    c = np.zeros(2 * top + 1, dtype=np.clongdouble)
    for m, p, q in case["terms"]:
        if m == 0:
            c[top] += np.clongdouble(p)
        else:
            c[top + m] += np.clongdouble(complex(p, -q)) / 2
            c[top - m] += np.clongdouble(complex(p, q)) / 2
    return c, top


def spectral(c, top, n):
    """rFFT vector of the polynomial with centred coefficients c."""
    out = np.zeros(n // 2 + 1, dtype=np.clongdouble)
    out[: top + 1] = c[top:] * n
    return out


def check_fourier(case):
    from rkstiff import grids, models

    n = case["n"]
    x, kx = grids.construct_x_kx_rfft(n, case["a"], case["b"])
    mu = case["mu"]
    kin = kx.copy()
    if case["lay"] == "readonly":
        kin.setflags(write=False)
    if case["model"] == "kdv":
        lin, nl = models.kdv_ops(kin)
    else:
        lin, nl = models.burgers_ops(kx=kin, mu=mu) if case["order"] == "kw" else models.burgers_ops(kin, mu)
    c, top = coefs(case)
    uf = spectral(c, top, n).astype(complex)
    if case["lay"] == "readonly":
        uf.setflags(write=False)
    elif case["lay"] == "strided":
        w = np.zeros(2 * uf.size, dtype=complex)
        w[::2] = uf
        uf = w[::2]
    before = uf.copy()
    base = 2 * ref.LD(np.pi) / ref.LD(case["b"] - case["a"])
    m = np.arange(n // 2 + 1).astype(np.longdouble)
    k = base * m
    wantL = 1j * k**3 if case["model"] == "kdv" else (-ref.LD(mu) * k**2).astype(np.clongdouble)
    require(np.shape(lin) == (n // 2 + 1,), "linear operator has shape %s", np.shape(lin))
    cmp.same(lin, wantL, 40 * ref.EPS * np.abs(wantL).astype(float), "%s linear operator" % case["model"])
    # exact product u u_x from the coefficients
    km = base * np.arange(-top, top + 1).astype(np.longdouble)
    prod = np.convolve(c, 1j * km * c)
    want = spectral(prod, 2 * top, n) * (-6 if case["model"] == "kdv" else -1)
    got = nl(uf)
    require(np.array_equal(uf, before) and np.array_equal(kin, kx), "inputs were modified")
    require(np.shape(got) == uf.shape, "nl_func returned shape %s for %s", np.shape(got), uf.shape)
    size = float(np.sum(np.abs(c)))
    kmax = float(k[-1])
    tol = 40 * ref.EPS * size**2 * kmax * n * 6
    cmp.same(got, want, tol, "%s nonlinear term, n=%d" % (case["model"], n))
    cmp.same(lin * uf + got, wantL * before + want, tol + 60 * ref.EPS * np.abs(wantL * before).astype(float), "right-hand side")
    # the closure is a function of its argument only: quadratic, repeatable, unaffected by other instances
    models.kdv_ops(2 * kx)
    models.burgers_ops(3 * kx, 7.0)[1](uf)
    s = case["c"]
    cmp.same(nl(s * before), s**2 * want, 2 * tol * s * s, "scaled state")
    require(np.allclose(nl(uf), got, rtol=1e-12, atol=float(np.max(tol))), "nl_func is not repeatable")
    # ... also when the caller overwrites an array it has passed before
    buf = before.copy()
    nl(buf)
    buf *= s
    cmp.same(nl(buf), s**2 * want, 2 * tol * s * s, "state overwritten in place between two evaluations")
    return float(np.max(np.abs(want))) > 1e3 * tol, [case["model"], "n>260" if n > 260 else "n>64" if n > 64 else "n<=64"]


# ------------------------------------------------------------------ Allen-Cahn
@st.composite
def ac_case(draw):
    n = draw(st.one_of(ints(2, 24), ints(2, 24), ints(25, 90)))
    deg = draw(ints(0, n - 2))
    co = [draw(gen.num(-1.5, 1.5)) for _ in range(min(deg, 4) + 1)]
    return dict(n=n, deg=deg, co=co, eps=draw(st.one_of(st.none(), gen.logu(-5, 0.5), pick(1))), cplx=draw(BOOL),
                ab=draw(pick(None, None, [-1, 1], [-2.0, 1.0], [0.0, 3.0])), lay=draw(pick("plain", "readonly", "column")))


def check_ac(case):
    from rkstiff import grids, models
    from .c20 import series

    n = case["n"]
    ab = case["ab"]
    x, d = grids.construct_x_dx_cheb(n) if ab is None else grids.construct_x_dx_cheb(n, *ab)
    a, b = ab or (-1.0, 1.0)
    x0, d0 = x.copy(), d.copy()
    if case["lay"] == "readonly":
        x.setflags(write=False)
        d.setflags(write=False)
    eps = case["eps"]
    lin, nl = models.allen_cahn_ops(x, d) if eps is None else models.allen_cahn_ops(x, d, eps)
    eps = 0.01 if eps is None else eps
    # w = (1 - t^2) * p(t), degree <= n
    t = (2 * (x0.astype(ref.LD) - ref.LD(a)) / (ref.LD(b) - ref.LD(a))) - 1
    C = np.polynomial.chebyshev
    p = np.zeros(case["deg"] + 1, dtype=np.longdouble)
    for i, v in enumerate(case["co"]):
        p[case["deg"] - i] += v
    wc = C.chebmul(p, np.array([0.5, 0, -0.5], dtype=np.longdouble))
    w = series(wc, t, 0, 2.0 / (b - a))
    wxx = series(wc, t, 2, 2.0 / (b - a)) if len(wc) > 2 else np.zeros_like(w)
    f = np.clongdouble(1 - 0.5j) if case["cplx"] else np.clongdouble(1)
    w, wxx = f * w, f * wxx
    xi = x0.astype(ref.LD)
    wi = w[1:-1]
    wd = wi.astype(complex)
    if not case["cplx"]:
        wd = wd.real
    arg = wd.reshape(-1, 1).ravel() if case["lay"] == "column" else wd
    if case["lay"] == "readonly":
        arg.setflags(write=False)
    require(np.shape(lin) == (n - 1, n - 1), "operator shape %s for %d interior points", np.shape(lin), n - 1)
    got = nl(arg)
    require(np.shape(got) == (n - 1,), "nl_func returned shape %s", np.shape(got))
    require(np.array_equal(x, x0) and np.array_equal(d, d0), "inputs were modified")
    want = xi[1:-1] - (wi + xi[1:-1]) ** 3
    mag = 1 + float(np.max(np.abs(xi)) + np.max(np.abs(wi), initial=0.0)) ** 3
    cmp.same(got, want, 40 * ref.EPS * mag, "Allen-Cahn nonlinear term")
    buf = wd.copy()
    nl(buf)
    buf *= -0.5
    cmp.same(nl(buf), xi[1:-1] - (xi[1:-1] - wi / 2) ** 3, 40 * ref.EPS * mag, "Allen-Cahn nonlinear term, state overwritten in place between two evaluations")
    size = float(np.sum(np.abs(wc))) * 1.2
    norm = float(np.linalg.norm(d0, np.inf))
    cond = 1 + max(abs(a), abs(b)) / (b - a)
    tol = 40 * ref.EPS * (mag + size) + eps * 20 * ref.EPS * cond * size * norm**2 * (n**2 * 0.2 + 5)
    full = (lin @ wd) + got
    cmp.same(full, eps * wxx[1:-1] + wi + want, tol, "Allen-Cahn right-hand side, n=%d eps=%r on [%r, %r]" % (n, eps, a, b))
    # operators built for another epsilon do not disturb this one
    other, _ = models.allen_cahn_ops(x, d, 3 * eps)
    require(np.allclose((lin @ wd) + nl(arg), full, rtol=1e-12, atol=float(np.max(tol))), "operators changed after building others")
    ident = np.eye(n - 1)
    cmp.same((other - ident), 3 * (np.asarray(lin) - ident), 1e-12 * eps * norm**2 + 100 * ref.EPS, "dependence on epsilon")
    return n > 2 and size > 1e-3, ["default eps" if case["eps"] is None else "eps", "n=%d" % n if n < 5 else "n>=5"]


# ------------------------------------------------------------------ solitons
@st.composite
def sol_case(draw):
    m = draw(pick(1, 1, 2, 3, 4, 0, 9))
    sols = [[draw(st.one_of(gen.num(0.05, 4), pick(1, 2))) * draw(pick(1, 1, -1)), draw(gen.num(-20, 20))] for _ in range(m)]
    t, lo, w = draw(st.one_of(pick(0.0, None), gen.num(-3, 3), gen.num(0, 40))), draw(gen.num(-30, 30)), draw(gen.num(0.5, 60))
    if draw(ints(0, 4)) == 0:  # the same waves in other units
        f = draw(gen.logu(-6, 6))
        sols = [[p * f, q / f] for p, q in sols]
        t, lo, w = None if t is None else t / f**3, lo / f, w / f
    return dict(sols=sols, t=t, x0=lo, w=w, n=draw(st.one_of(ints(2, 30), ints(2, 30), ints(30, 3000))),
                cont=draw(pick("list", "tuple", "array", "ints")), intx=draw(ints(0, 5)) == 0)


def exact(x, a, x0, t):
    a, x0, t = ref.LD(a), ref.LD(x0), ref.LD(t)
    th = np.abs(a * (x.astype(ref.LD) - x0 - a * a * t))
    e = np.exp(-th)
    return 2 * a * a * e / (1 + e) ** 2


def check_sol(case):
    from rkstiff import models

    x = case["x0"] + np.linspace(0, case["w"], case["n"])
    if case["intx"]:
        x = np.round(x).astype(int)
    xb = x.copy()
    t = 0.0 if case["t"] is None else case["t"]
    tot = np.zeros(x.size, dtype=np.longdouble)
    tolt = np.zeros(x.size)
    singles = np.zeros(x.size)
    for a, x0 in case["sols"]:
        got = models.kdv_soliton(x, a, x0) if case["t"] is None else models.kdv_soliton(x, ampl=a, x0=x0, t=t)
        want = exact(x, a, x0, t)
        # error of the phase is multiplied by the slope (|u'/u| <= |a|)
        ph = abs(a) * (np.abs(x) + abs(x0) + a * a * abs(t)) * 4 * ref.EPS
        tol = 32 * ref.EPS * want.astype(float) + want.astype(float) * ph * 12 + 1e-300
        cmp.same(got, want, tol, "soliton a=%r x0=%r t=%r" % (a, x0, t))
        tot, tolt, singles = tot + want, tolt + tol, singles + got
    al, xl = [s[0] for s in case["sols"]], [s[1] for s in case["sols"]]
    if case["cont"] == "tuple":
        al, xl = tuple(al), tuple(xl)
    elif case["cont"] == "array":
        al, xl = np.array(al, dtype=float), np.array(xl, dtype=float)
    elif case["cont"] == "ints" and all(float(v) == int(v) for v in al):
        al = np.array([int(v) for v in al], dtype=int)
    got = models.kdv_multi_soliton(x, al, xl) if case["t"] is None else models.kdv_multi_soliton(x, ampl=al, x0=xl, t=t)
    require(np.shape(got) == x.shape, "multi-soliton shape %s", np.shape(got))
    cmp.same(got, tot, tolt + 8 * ref.EPS * np.abs(singles) + 1e-290, "sum of %d solitons" % len(al))
    require(np.array_equal(x, xb), "x was modified")
    for bad in ((list(al) + [1.0], list(xl)), (list(al), list(xl) + [0.0])):
        try:
            models.kdv_multi_soliton(x, *bad, t)
        except ValueError:
            continue
        require(False, "mismatched amplitudes and positions accepted")
    return bool(np.max(tot, initial=0) > 1e-6 * max([v * v for v in al], default=0)), ["%d solitons" % len(case["sols"]), "default t" if case["t"] is None else "t"]


FD1 = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])


@st.composite
def pde_case(draw):
    return dict(a=draw(st.one_of(gen.num(0.1, 3), gen.num(0.1, 3), gen.logu(-4, 4))) * draw(pick(1, -1)), x0=draw(gen.num(-10, 10)), t=draw(gen.num(-2, 2)), xi=draw(gen.num(-6, 6)))


def check_pde(case):
    """u_t + 6 u u_x + u_xxx = 0 by nested eighth-order differences of the library's own profile."""
    from rkstiff import models

    a, x0, t = case["a"], case["x0"], case["t"]
    if not 0.05 < abs(a) < 5:  # positions and times in the wave's own units
        x0, t = x0 / abs(a), t / abs(a) ** 3
    # phase variable xi = a (x - x0 - a^2 t)/2, all derivatives O(1) in it
    x = x0 + a * a * t + 2 * case["xi"] / a
    hx, ht = 0.03 * 2 / abs(a), 0.03 * 2 / abs(a) ** 3
    s = np.arange(-4, 5)

    def u(xx, tt):
        return models.kdv_soliton(np.atleast_1d(xx), a, x0, tt)

    ut = sum(w * u(x, t + k * ht)[0] for w, k in zip(FD1, s)) / ht
    pts = u(x + hx * np.arange(-12, 13), t)
    d1 = np.array([np.dot(FD1, pts[i - 4 : i + 5]) for i in range(4, 21)]) / hx
    d2 = np.array([np.dot(FD1, d1[i - 4 : i + 5]) for i in range(4, 13)]) / hx
    d3 = np.dot(FD1, d2[:9]) / hx
    res = ut + 6 * pts[12] * d1[8] + d3
    scale = abs(a) ** 5
    require(abs(res) <= 1e-5 * scale, "KdV residual %.3g (scale %.3g) at x=%r: u_t=%.6g u=%.6g u_x=%.6g u_xxx=%.6g", res, scale, x, ut, pts[12], d1[8], d3)
    return abs(ut) > 1e-3 * scale, ["pde"]


FACETS = [
    Facet("fourier", fourier_case(), check_fourier, quick=8000, shards=4, rule="KdV and Burgers operators"),
    Facet("allen-cahn", ac_case(), check_ac, quick=5000, shards=3, rule="Allen-Cahn operators"),
    Facet("solitons", sol_case(), check_sol, quick=4000, shards=2, rule="single and multi-soliton profiles"),
    Facet("kdv equation", pde_case(), check_pde, quick=3000, shards=2, rule="finite-difference residual of the stated PDE"),
]

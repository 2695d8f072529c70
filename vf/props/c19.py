"""C19: spectral Fourier derivatives are exact on resolved trigonometric polynomials."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated band-limited functions sampled on the library's grids (and on odd-sized uniform grids) and differentiated; "
    "compared with the analytic derivative evaluated in extended precision, with tolerance a few dozen ulp of the largest term the "
    "transform can produce. Non-trivial: order >= 1 and a derivative above its own tolerance by a factor 1e3."
)
ASSUMPTIONS = [
    "wavenumbers strictly below Nyquist (the Nyquist mode has no unique derivative)",
    "integer wavenumbers only where their powers fit the integer type",
]


@st.composite
def trig(draw, cplx, parity=True):
    n = 2 * draw(st.one_of(ints(2, 20), ints(2, 20), ints(2, 130), ints(2, 130), pick(128, 256, 512), ints(130, 1100)))
    if parity and draw(ints(0, 3)) == 0:
        n += 1
    top = (n - 1) // 2
    terms = []
    for _ in range(draw(ints(1, 5))):
        m = draw(st.one_of(ints(0, top), pick(top, 1 if top else 0)))
        if cplx:
            m *= draw(pick(1, -1))
        terms.append([m, draw(gen.num(-2, 2)), draw(gen.num(-2, 2))])
    a = draw(gen.num(-5, 5))
    w = draw(st.one_of(gen.num(0.1, 20), gen.num(0.1, 20), gen.logu(-3, 3), gen.logu(-9, 12)))
    if w > 1e3:
        a *= float("%.1g" % w)
    return dict(n=n, a=a, b=a + w, terms=terms, cplx=cplx)


@st.composite
def deriv_case(draw):
    cplx = draw(BOOL)
    c = draw(trig(cplx))
    c["order"] = draw(st.one_of(pick(0, 1, 1, 1, 2, 2, 3, 4, 5, 6), pick(0, 1, 1, 2, 3, 4), ints(3, 12), ints(7, 36)))
    c["order2"] = draw(pick(0, 1, 2, 3))
    c["mem"] = draw(pick("plain", "plain", "readonly", "strided", "reversed"))
    c["via"] = draw(pick("same", "fft"))
    if draw(ints(0, 4)) == 0:  # wavenumbers of a 2*pi-periodic interval, given as integers
        c["a"] = math.remainder(c["a"], 5.0)
        c["b"] = c["a"] + 2 * math.pi
        c["kdtype"] = draw(pick("int64", "int64", "int32"))
    return c


def grid(case):
    from rkstiff import grids

    n, a, b = case["n"], case["a"], case["b"]
    cplx = case["cplx"] or case.get("via") == "fft"
    if n % 2 == 0:
        return (grids.construct_x_kx_fft if cplx else grids.construct_x_kx_rfft)(n, a, b)
    dx = (b - a) / n
    freq = np.fft.fftfreq if cplx else np.fft.rfftfreq
    return a + dx * np.arange(n), 2 * np.pi * freq(n, dx)


def sample(case, order=0):
    """The function (or its derivative) on the grid, in extended precision."""
    n = case["n"]
    j = np.arange(n).astype(np.longdouble)
    base = 2 * ref.LD(np.pi) / ref.LD(case["b"] - case["a"])
    two_pi = 8 * np.arctan(ref.LD(1))
    out = np.zeros(n, dtype=np.clongdouble if case["cplx"] else np.longdouble)
    for m, p, q in case["terms"]:
        th = two_pi * ((m * np.arange(n)) % n).astype(np.longdouble) / n
        k = (base * m) ** order
        if case["cplx"]:
            ph = np.cos(th) + 1j * np.sin(th)
            out = out + (np.clongdouble(p + 1j * q) * k * np.clongdouble(1j) ** order) * ph
        else:
            # order-th derivative of p cos + q sin
            r = order % 4
            cs, sn = np.cos(th), np.sin(th)
            dc = (cs, -sn, -cs, sn)[r]
            ds = (sn, cs, -sn, -cs)[r]
            out = out + k * (ref.LD(p) * dc + ref.LD(q) * ds)
    return out


def lay(a, mem):
    a = np.asarray(a)
    if mem == "readonly":
        a = a.copy()
        a.setflags(write=False)
    elif mem == "strided":
        b = np.zeros(2 * a.size, dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    elif mem == "reversed":
        a = a[::-1].copy()[::-1]
    return a


def magnitude(case, order):
    """Largest value the derivative of a unit rounding error can have."""
    kmax = 2 * math.pi / (case["b"] - case["a"]) * (case["n"] // 2)
    size = sum(abs(p) + abs(q) for _, p, q in case["terms"])
    return size * kmax**order * math.sqrt(case["n"])


def check_deriv(case):
    from rkstiff import derivatives as D

    if not case["b"] - case["a"] > 1e-12 * abs(case["a"]):
        return False, ["narrow"]
    _, kx = grid(case)
    order = case["order"]
    if (order + case["order2"]) * math.log10(float(np.max(np.abs(kx))) + 1e-300) > 280:
        return False, ["overflows"]
    fun = D.dx_fft if case["cplx"] or case["via"] == "fft" else D.dx_rfft
    u = sample(case)
    ud = u.astype(complex if case["cplx"] else float)
    if "kdtype" in case:
        # powers that integer arithmetic cannot hold are out of scope: the library's own wavenumbers are floats
        if (case["n"] // 2) ** max(order, case["order2"]) < np.iinfo(case["kdtype"]).max:
            kx = np.rint(kx).astype(case["kdtype"])
    arr, karr = lay(ud, case["mem"]), lay(kx, case["mem"])
    before = arr.copy()
    got = fun(karr, arr) if order == 1 and case["order2"] == 0 else fun(karr, arr, order)
    require(np.array_equal(arr, before), "the input was modified")
    require(np.shape(got) == ud.shape, "shape %s for input %s", np.shape(got), ud.shape)
    require(np.all(np.isfinite(got)), "non-finite derivative")
    if fun is D.dx_rfft:
        require(not np.iscomplexobj(got), "real input gave a complex derivative")
    want = sample(case, order)
    # the wavenumbers themselves carry a relative rounding, so the order multiplies it
    mag = magnitude(case, order)
    tol = 0.0 if order == 0 else 32 * ref.EPS * (mag + order * float(np.max(np.abs(want))))
    if order == 0:
        require(np.allclose(got, ud, rtol=1e-12, atol=1e-12 * (1 + float(np.max(np.abs(ud))))), "order zero changed the values")
    else:
        cmp.same(got, want, tol, "%s order %d, n=%d" % (fun.__name__, order, case["n"]))
    k = case["order2"]
    if k and order:
        # composition
        g2 = fun(karr, np.asarray(got), k)
        want2 = sample(case, order + k)
        cmp.same(g2, want2, 48 * ref.EPS * (magnitude(case, order + k) + (order + k) * float(np.max(np.abs(want2)))), "composed order %d+%d" % (order, k))
    useful = order >= 1 and float(np.max(np.abs(want))) > 1e3 * tol
    return useful, [fun.__name__, "order %d" % order, "odd n" if case["n"] % 2 else "even n"] + (["integer k"] if kx.dtype.kind == "i" else [])


@st.composite
def linear_case(draw):
    cplx = draw(BOOL)
    n = 2 * draw(ints(2, 24)) + draw(ints(0, 1))
    return dict(n=n, a=0.0, b=draw(gen.num(0.5, 8)), cplx=cplx, order=draw(ints(1, 4)),
                u=draw(gen.vec(n, -2, 2, cplx)), v=draw(gen.vec(n, -2, 2, cplx)), c=draw(gen.num(-3, 3)), shift=draw(ints(0, n - 1)))


def check_linear(case):
    """Any samples (Nyquist content included): linear, real stays real, commutes with grid shifts, splits over re/im."""
    from rkstiff import derivatives as D

    _, kx = grid(case)
    u, v = gen.carr(case["u"]), gen.carr(case["v"])
    fun = D.dx_fft if case["cplx"] else D.dx_rfft
    if not case["cplx"]:
        u, v = u.real.copy(), v.real.copy()
    p, c = case["order"], case["c"]
    du, dv = fun(kx, u, p), fun(kx, v, p)
    n = case["n"]
    kmax = 2 * math.pi / case["b"] * (n // 2)
    size = float(np.max(np.abs(u)) + (1 + abs(c)) * np.max(np.abs(v))) + 1e-12
    tol = 64 * ref.EPS * size * kmax**p * n
    cmp.same(fun(kx, u + c * v, p), du + c * dv, tol, "linearity, order %d" % p)
    cmp.same(fun(kx, np.roll(u, case["shift"]), p), np.roll(du, case["shift"]), tol, "shift, order %d" % p)
    if not case["cplx"]:
        if n % 2 == 1 or p % 2 == 0:
            _, kc = grid(dict(case, cplx=True))
            cmp.same(D.dx_fft(kc, u.astype(complex), p), du, tol, "complex transform of real data, order %d" % p)
    if case["cplx"]:
        ui = np.round(3 * u.real).astype(int)
    else:
        ui = np.round(3 * u).astype(int)
    cmp.same(fun(kx, ui, p), fun(kx, ui.astype(float), p), 4 * tol, "integer samples, order %d" % p)
    mean = abs(np.mean(du))
    require(mean <= tol, "derivative has mean %r", mean)
    return True, [fun.__name__, "order %d" % p]


@st.composite
def bad_case(draw):
    kind = draw(pick("order type", "negative", "shape", "complex to rfft", "empty"))
    return dict(kind=kind, fn=draw(pick("rfft", "fft")), n=2 * draw(ints(2, 20)),
                order=draw(pick(1.0, 2.0, 0.5, "1")) if kind == "order type" else (draw(ints(-6, -1)) if kind == "negative" else draw(ints(0 if kind == "complex to rfft" else 1, 4))),
                off=draw(pick(-3, -2, -1, 1, 2, 5)))


def check_bad(case):
    from rkstiff import derivatives as D
    from rkstiff import grids as G

    n, kind = case["n"], case["kind"]
    if case["fn"] == "rfft":
        f, (x, kx) = D.dx_rfft, G.construct_x_kx_rfft(n)
    else:
        f, (x, kx) = D.dx_fft, G.construct_x_kx_fft(n)
    u = np.cos(x)
    want = ValueError
    if kind == "order type":
        want = TypeError
    elif kind == "shape":
        kx = np.arange(max(1, kx.size + case["off"]), dtype=float)
    elif kind == "complex to rfft":
        if case["fn"] == "fft":
            return False, []
        u, want = u.astype(complex), TypeError
    elif kind == "empty":
        if case["fn"] == "fft":
            return False, []
        out = f(kx, np.array([]), case["order"])
        require(out.shape == (0,), "empty input gave %r", out)
        return True, ["empty"]
    try:
        f(kx, u, case["order"])
    except (TypeError, ValueError) as e:
        require(isinstance(e, want), "%s raised %s, documented %s", kind, type(e).__name__, want.__name__)
        return True, [kind]
    require(False, "%s (%r) accepted by dx_%s", kind, case["order"], case["fn"])


FACETS = [
    Facet("exact", deriv_case(), check_deriv, quick=12000, shards=6, rule="derivatives of trigonometric polynomials of every order and composed orders"),
    Facet("linear", linear_case(), check_linear, quick=5000, shards=2, rule="arbitrary samples: linearity, shift, zero mean, fft = rfft"),
    Facet("refusal", bad_case(), check_bad, quick=800, shards=1, rule="malformed input refused"),
]

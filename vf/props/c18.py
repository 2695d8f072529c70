"""C18: Fourier grids: n points, spacing (b-a)/n, matching wavenumbers."""

import math

import numpy as np
from fractions import Fraction as F
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated (n, a, b); the returned arrays are compared with exact rational arithmetic (grid) and the integer "
    "multiples of 2 pi/(b-a) (wavenumbers) to rounding, and round-tripped through the FFT. Non-trivial: valid sizes with an "
    "interval other than the default one; for the refusal facet, an invalid n."
)
ASSUMPTIONS = ["finite a < b with (b-a) not below the floating-point resolution of the endpoints (n distinct points exist)"]


@st.composite
def interval(draw):
    kind = draw(pick("default", "simple", "simple", "any", "any", "pi", "far", "scale", "half"))
    if kind == "default":
        return None
    if kind == "half":  # one end as in the default interval [0, 2 pi], the other not
        w = draw(st.one_of(gen.num(0.1, 30), gen.logu(-6, 6), pick(2 * math.pi, math.pi, 1.0)))
        return draw(pick([0.0, w], [2 * math.pi - w, 2 * math.pi], [-w, 0.0], [w, w + 2 * math.pi], [-w, 2 * math.pi]))
    if kind == "simple":
        a = draw(ints(-100, 100)) / draw(pick(1, 2, 3, 7, 10))
        return [a, a + draw(ints(1, 300)) / draw(pick(1, 3, 7, 10, 30))]
    if kind == "pi":
        a = draw(ints(-8, 8)) * math.pi / draw(pick(1, 2, 3))
        return [a, a + draw(ints(1, 16)) * math.pi / draw(pick(1, 2, 5))]
    if kind == "far":
        a = draw(gen.logu(1, 8)) * draw(pick(-1, 1))
        return [a, a + abs(a) * draw(gen.logu(-4, 1))]
    if kind == "scale":
        w = draw(gen.logu(-12, 12))
        a = w * draw(gen.num(-3, 3))
        return [a, a + w]
    a = draw(st.floats(-1e3, 1e3, allow_subnormal=False))
    return [a, a + draw(st.floats(1e-2, 1e3))]


@st.composite
def grid_case(draw):
    k = draw(pick("small", "small", "mid", "pow2", "large"))
    if k == "small":
        n = 2 * draw(ints(2, 40))
    elif k == "mid":
        n = 2 * draw(ints(2, 600))
    elif k == "pow2":
        n = 2 ** draw(ints(2, 13))
    else:
        n = 2 * draw(st.one_of(ints(500, 5000), ints(500, 5000), ints(4096, 40000), pick(8192, 16384, 32768, 49152)))
    iv = draw(interval())
    return dict(n=n, ab=iv, kind=draw(pick("rfft", "fft")), style=draw(pick("pos", "kw", "int")))


def build(case):
    from rkstiff import grids

    f = grids.construct_x_kx_rfft if case["kind"] == "rfft" else grids.construct_x_kx_fft
    if case["ab"] is None:
        return f(case["n"]), 0.0, 2 * math.pi
    a, b = case["ab"]
    if case["style"] == "int" and a == int(a) and b == int(b):
        a, b = int(a), int(b)
    if case["style"] == "kw":
        return f(case["n"], b=b, a=a), a, b
    return f(case["n"], a, b), a, b


def check_grid(case):
    n = case["n"]
    (x, kx), a, b = build(case)
    x, kx = np.asarray(x), np.asarray(kx)
    width = float(b) - float(a)
    mag = max(abs(a), abs(b))
    if not width > 64 * n * np.spacing(float(mag)):
        return False, ["too fine"]
    require(x.shape == (n,), "x has shape %s for n=%d on %r", x.shape, n, case["ab"])
    m = n // 2 + 1 if case["kind"] == "rfft" else n
    require(kx.shape == (m,), "kx has shape %s for n=%d", kx.shape, n)
    require(x.dtype.kind == "f" and kx.dtype.kind == "f", "dtypes %s %s", x.dtype, kx.dtype)
    A, W = F(float(a)), F(float(b)) - F(float(a))
    j = np.arange(n)
    if n <= 128:
        want = np.array([float(A + W * int(i) / n) for i in j])
    else:
        want = (np.longdouble(float(a)) + np.longdouble(float(W)) * j / n).astype(float)
    cmp.same(x, want, 16 * np.spacing(float(mag)), "x on [%r, %r) with n=%d" % (a, b, n))
    require(x[0] == a, "x[0]=%r but a=%r", x[0], a)
    require(np.all(np.diff(x) > 0) and x[-1] < b, "x not increasing in [a, b)")
    base = 2 * np.longdouble(np.pi) / np.longdouble(width)
    idx = np.arange(m)
    if case["kind"] == "fft":
        idx = np.where(idx < n // 2, idx, idx - n)
    # width is the difference of two rounded numbers: its own rounding is a relative eps
    wantk = (base * idx).astype(float)
    # a spacing computed from rounded grid points is tolerated up to a relative 1e-10
    rel = max(64 * ref.EPS, min(1e-10, 4 * float(np.spacing(float(mag))) * n / width))
    tol = rel * np.abs(wantk)
    cmp.same(kx, wantk, tol, "wavenumbers for n=%d on [%r, %r)" % (n, a, b))
    require(kx[0] == 0.0, "zero wavenumber is %r", kx[0])
    # x and kx belong together: mode m on the grid has its peak at wavenumber m*base
    if n <= 256:
        mode = 1 + (n // 3) % (n // 2 - 1)
        sig = np.cos(float(base) * mode * (x - a))
        spec = np.abs(np.fft.rfft(sig) if case["kind"] == "rfft" else np.fft.fft(sig))
        top = int(np.argmax(spec[: n // 2]))
        require(abs(kx[top] - float(base) * mode) < 1e-6 * float(base), "mode %d found at wavenumber %r", mode, kx[top])
    # a grid is the caller's own: writing into it changes no later grid
    if n <= 2000:
        keep = x.copy(), kx.copy()
        for v in (x, kx):
            if v.flags.writeable:
                v[...] = -7.0
        again = build(case)[0]
        require(all(np.array_equal(p, q) for p, q in zip(again, keep)), "the same grid built again after the first was overwritten differs (n=%d on [%r, %r))", n, a, b)
    return case["ab"] is not None, [case["kind"], "n>1000" if n > 1000 else "n<=1000"]


@st.composite
def bad_case(draw):
    return dict(
        kind=draw(pick("rfft", "fft")),
        n=draw(st.one_of(
            ints(-50, 2),
            ints(1, 3000).map(lambda k: 2 * k + 1),
            st.sampled_from([8.0, 16.5, "8", None, [8], float("nan"), float("inf")]).map(lambda v: {"t": "other", "v": repr(v)}),
            ints(2, 40).map(lambda k: {"t": "other", "v": "%d.0" % (2 * k)}),
        )),
        ab=draw(st.one_of(st.none(), st.tuples(gen.num(-5, 0), gen.num(1, 5)).map(list))),
    )


def check_bad(case):
    from rkstiff import grids

    f = grids.construct_x_kx_rfft if case["kind"] == "rfft" else grids.construct_x_kx_fft
    n = case["n"]
    want = ValueError
    if isinstance(n, dict):
        n = eval(n["v"], {"nan": float("nan"), "inf": float("inf")})  # pylint: disable=eval-used
        want = TypeError
    args = (n,) if case["ab"] is None else (n, *case["ab"])
    try:
        out = f(*args)
    except (TypeError, ValueError) as e:
        require(isinstance(e, want), "n=%r raised %s, documented %s", n, type(e).__name__, want.__name__)
        return True, [want.__name__]
    require(False, "n=%r accepted, returned %d points", n, len(out[0]))


FACETS = [
    Facet("grid", grid_case(), check_grid, quick=20000, shards=6, rule="values, sizes and order of x and kx"),
    Facet("refusal", bad_case(), check_bad, quick=2000, shards=2, rule="invalid n refused with the documented error type"),
]

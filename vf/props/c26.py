"""C26: the psi functions are r! times the phi functions."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated arrays of complex arguments over magnitudes and half-planes; values compared with extended-precision series/recursions "
    "within the accuracy direct evaluation allows (eps/|z|^r), and with the defining integral by Gauss-Legendre quadrature. "
    "Non-trivial: an argument with tolerance below 1e-6 of the value."
)
ASSUMPTIONS = ["|z| >= 1e-2 (the library evaluates smaller arguments by contour integrals, covered by C01)", "Re z <= 650 to stay clear of overflow"]


@st.composite
def zcase(draw):
    shape = draw(pick([], [1], [3], [2, 2], [5], [1, 3], [0]))
    zs = []
    for _ in range(int(np.prod(shape)) if shape else 1):
        k = draw(pick("small", "mid", "stiff", "imag", "right", "real"))
        if k == "small":
            m = draw(gen.logu(-2, 0))
        elif k == "right":
            m = draw(st.one_of(gen.unif(0.05, 18), gen.unif(0.05, 18), gen.unif(18, 650)))
        else:
            m = draw(gen.logu(-1, 7.5))
        if k == "imag":
            z = 1j * m * draw(pick(1, -1))
        elif k == "real":
            z = -m
        elif k == "right":
            z = m * np.exp(0.5j * np.pi * draw(gen.num(-1, 1)))
        else:
            z = -m * np.exp(0.5j * np.pi * draw(gen.num(-1, 1)))
        z = complex(z)
        zs.append([float("%.12g" % z.real), float("%.12g" % z.imag)])
    if draw(ints(0, 4)) == 0:  # next to the real axis
        w = draw(gen.logu(-13, -5))
        zs = [[x if abs(x) >= 0.01 else -0.5, y / max(1.0, abs(y)) * w] for x, y in zs]
    big = draw(pick(None, None, None, None, None, [100], [256], [257], [1025], [40, 33], [5000]))
    if big and zs:
        return dict(shape=big, base=zs, seed=draw(ints(0, 10**6)), dtype=draw(pick("complex", "complex", "real", "int")), mem=draw(pick("plain", "readonly", "strided")))
    return dict(shape=shape, z=zs, dtype=draw(pick("complex", "complex", "real", "int")), mem=draw(pick("plain", "readonly", "strided")))


GLX, GLW = np.polynomial.legendre.leggauss(40)


def expand(case):
    """Many arguments around the generated ones, from the case's seed."""
    g = np.random.default_rng(case["seed"])
    n = int(np.prod(case["shape"]))
    b = np.array([complex(*p) for p in case["base"]])
    z = b[g.integers(0, b.size, n)]
    z = z * np.where(z.real > 50, g.uniform(0.8, 1.0, n), g.uniform(1.0, 1.2, n))
    far = g.uniform(size=n) < 0.3
    z = np.where(far, -(10.0 ** g.uniform(-1, 6, n)) * np.exp(0.5j * np.pi * g.uniform(-1, 1, n)), z)
    return dict(case, z=[[float(w.real), float(w.imag)] for w in z])


def check(case):
    from rkstiff import etd

    case = expand(case) if "seed" in case else case

    z = np.array([complex(*p) for p in case["z"]], dtype=complex).reshape(case["shape"])
    if case["dtype"] == "real":
        z = np.where(np.abs(z.real) < 1e-2, -0.5, z.real)
    elif case["dtype"] == "int":
        z = np.clip(np.where(np.round(z.real) == 0, -1, np.round(z.real)), -1e5, 20).astype(int)  # cubes stay exact
    z = np.asarray(z)
    if case["mem"] == "readonly":
        z.setflags(write=False)
    elif case["mem"] == "strided" and z.ndim:
        w = np.ones((2 * z.shape[0],) + z.shape[1:], dtype=z.dtype)
        w[::2] = z
        z = w[::2]
    before = z.copy()
    useful = False
    for r, f in ((1, etd.psi1), (2, etd.psi2), (3, etd.psi3)):
        fact = (1, 1, 2, 6)[r]
        got = f(z)
        require(np.shape(got) == z.shape, "psi%d: shape %s for %s", r, np.shape(got), z.shape)
        require(np.array_equal(z, before), "psi%d modified its argument", r)
        want = fact * ref.phi(r, z.astype(complex))
        az = np.abs(z).astype(float)
        ex = np.exp(np.minimum(np.real(z), 660.0))
        tol = 32 * ref.EPS * fact * ((1 + ex * (1 + az)) / az**r + 1.0 / az ** max(r - 1, 1) + 1.0 / az)
        if z.size:
            cmp.same(got, want, tol, "psi%d at %s" % (r, z.ravel()[:3]))
            useful |= bool(np.any(tol < 1e-6 * np.abs(want)))
        if z.dtype.kind != "c":
            require(not np.iscomplexobj(got), "psi%d of a real argument is complex", r)
        else:
            c = f(np.conj(z))
            if z.size:
                cmp.same(c, np.conj(got), 2 * tol, "psi%d of conjugates" % r)
        # elementwise
        for i, v in list(np.ndenumerate(z))[:2]:
            one = f(np.array([v]))[0]
            require(np.isclose(one, got[i], rtol=1e-12, atol=float(np.asarray(tol)[i])) , "psi%d: element %s gives %r alone, %r inside the array", r, i, one, got[i])
        # the defining integral, where quadrature resolves it
        zz = z.ravel().astype(complex)
        zz = zz[(np.abs(zz) < 20)][:2]
        for v in zz:
            s = 0.5 * (GLX + 1)
            quad = r * np.sum(0.5 * GLW * np.exp((1 - s) * v) * s ** (r - 1))
            q = f(np.array([v]))[0]
            t = 32 * ref.EPS * fact * ((1 + abs(np.exp(v)) * (1 + abs(v))) / abs(v) ** r + 1 / abs(v)) + 1e-12 * max(1.0, abs(np.exp(v)))
            require(abs(q - quad) <= t, "psi%d(%r)=%r, the integral is %r", r, v, q, quad)
    return useful, [case["dtype"], "%dD" % z.ndim]


FACETS = [Facet("psi", zcase(), check, quick=12000, shards=6, rule="values, integral, conjugation, elementwise, shapes and dtypes")]

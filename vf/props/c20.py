"""C20: Chebyshev grids and differentiation are exact on polynomials."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated sizes, intervals and polynomials (as Chebyshev series of degree <= n in the mapped variable); the grid is compared "
    "with extended-precision Chebyshev points and every derivative with the exact derivative of the series. "
    "Non-trivial: a polynomial whose derivative is 1e3 times its tolerance."
)
ASSUMPTIONS = ["finite a < b, |a|,|b| at most 1e3 interval widths (the matrix is built from coordinate differences)"]


@st.composite
def iv(draw):
    k = draw(pick("default", "simple", "simple", "any", "scale"))
    if k == "default":
        return None
    if k == "simple":
        a = draw(ints(-10, 10))
        return [a, a + draw(ints(1, 12))]
    if k == "scale":
        w = draw(st.one_of(gen.logu(-6, 6), gen.logu(-12, 13)))
        return [float(w * draw(gen.num(-3, 3))), 0.0, w]
    a = draw(gen.num(-20, 20))
    return [a, 0.0, draw(gen.num(0.2, 30))]


def ends(case):
    ab = case["ab"]
    if ab is None:
        return -1.0, 1.0
    if len(ab) == 3:
        return ab[0], ab[0] + ab[2]
    return ab[0], ab[1]


def call(fn, case):
    return fn(case["n"]) if case["ab"] is None else fn(case["n"], *ends(case))


@st.composite
def grid_case(draw):
    return dict(n=draw(st.one_of(ints(2, 12), ints(2, 64), ints(64, 600))), ab=draw(iv()))


def check_grid(case):
    from rkstiff import grids

    n = case["n"]
    a, b = ends(case)
    x = np.asarray(call(grids.construct_x_cheb, case))
    require(x.shape == (n + 1,), "shape %s for n=%d", x.shape, n)
    ld = ref.LD
    th = 4 * np.arctan(ld(1)) * np.arange(n, -1, -1).astype(ld) / n
    want = ld(a) + (ld(b) - ld(a)) * (np.cos(th) + 1) / 2
    mag = max(abs(a), abs(b), b - a)
    if not float(np.min(np.diff(want))) > 64 * np.spacing(float(mag)):
        return False, ["too fine"]
    cmp.same(x, want, 16 * np.spacing(float(mag)), "Chebyshev points n=%d on [%r, %r]" % (n, a, b))
    require(np.all(np.diff(x) > 0), "points not strictly increasing")
    require(abs(x[0] - a) <= 16 * np.spacing(float(mag)) and abs(x[-1] - b) <= 16 * np.spacing(float(mag)), "end points %r, %r of [%r, %r]", x[0], x[-1], a, b)
    sym = (x + x[::-1]) - (a + b)
    require(float(np.max(np.abs(sym))) <= 32 * np.spacing(float(mag)), "grid is not symmetric")
    if n <= 200:
        x2, d = call(grids.construct_x_dx_cheb, case)
        require(np.allclose(x, x2, rtol=0, atol=16 * np.spacing(float(mag))), "the two constructors give different grids")
        require(np.shape(d) == (n + 1, n + 1), "matrix shape %s", np.shape(d))
        # the same matrix up to the affine map (D scales with 2/(b-a))
        _, d1 = grids.construct_x_dx_cheb(n)
        ratio = (b - a) / 2.0
        cond = 1 + max(abs(a), abs(b)) / (b - a)
        # a rounding of each point changes neighbours' differences, of size width * pi^2 / (2 n^2)
        tol = 400 * ref.EPS * cond * n**2 * (np.abs(d1) + 1) + 8000 * ref.EPS * cond * n**4 * np.eye(n + 1)
        cmp.same(d * ratio, d1, tol, "matrix on [%r, %r] against [-1, 1]" % (a, b))
        # the arrays are the caller's own: writing into them changes no later grid
        keep = [np.array(x), np.array(x2), np.array(d)]
        for v in (x, x2, d):
            if v.flags.writeable:
                v[...] = -7.0
        again = [call(grids.construct_x_cheb, case), *call(grids.construct_x_dx_cheb, case)]
        require(all(np.array_equal(p, q) for p, q in zip(again, keep)), "the same grid built again after the first was overwritten differs (n=%d on [%r, %r])", n, a, b)
    return case["ab"] is not None, ["n<=12" if n <= 12 else "n>12"]


@st.composite
def poly_case(draw):
    n = draw(st.one_of(ints(2, 10), ints(2, 10), ints(2, 40), ints(2, 40), ints(40, 130)))
    cols = draw(pick(0, 0, 1, 2, 3))
    deg = draw(st.one_of(ints(0, n), pick(n)))

    def coefs():
        out = [0.0] * (deg + 1)
        for _ in range(draw(ints(1, 4))):
            out[draw(ints(0, deg))] = draw(gen.num(-2, 2))
        if draw(BOOL):
            out[deg] = draw(gen.num(0.5, 2))
        return out

    return dict(n=n, ab=draw(iv()), cols=cols, deg=deg, co=[coefs() for _ in range(max(cols, 1))],
                order=draw(st.one_of(pick(0, 1, 1, 1, 2, 2, 3, 4, 5), pick(1, 2, 3), ints(1, min(deg, 12)) if deg else pick(1))), cplx=draw(BOOL), mem=draw(pick("plain", "plain", "readonly", "fortran", "strided")))


def series(co, t, p, scale):
    """p-th x-derivative of sum co_k T_k(t), with dt/dx = scale, in extended precision."""
    c = np.array(co, dtype=np.longdouble)
    c = np.polynomial.chebyshev.chebder(c, p) if p else c
    b1 = b2 = np.zeros_like(t)
    for ck in c[:0:-1]:
        b1, b2 = ck + 2 * t * b1 - b2, b1
    return (c[0] + t * b1 - b2) * ref.LD(scale) ** p


def check_poly(case):
    from rkstiff import derivatives as D
    from rkstiff import grids

    n, p = case["n"], case["order"]
    a, b = ends(case)
    x, d = call(grids.construct_x_dx_cheb, case)
    t = (2 * (x.astype(ref.LD) - ref.LD(a)) / (ref.LD(b) - ref.LD(a))) - 1
    scale = 2.0 / (b - a)
    cols = [series(c, t, 0, scale) for c in case["co"]]
    wants = [series(c, t, p, scale) for c in case["co"]]
    u = np.stack(cols, axis=1)
    want = np.stack(wants, axis=1)
    if case["cplx"]:
        u, want = u * (1 - 0.5j), want * (1 - 0.5j)
    if case["cols"] == 0:
        u, want = u[:, 0], want[:, 0]
    u = u.astype(complex if case["cplx"] else float)
    if case["mem"] == "readonly":
        u.setflags(write=False)
    elif case["mem"] == "fortran":
        u = np.asfortranarray(u)
    elif case["mem"] == "strided":
        w = np.zeros((2 * u.shape[0],) + u.shape[1:], dtype=u.dtype)
        w[::2] = u
        u = w[::2]
    before, dbefore = u.copy(), d.copy()
    got = D.dx_cheb(d, u) if p == 1 and case["cols"] < 2 else D.dx_cheb(d, u, p)
    require(np.array_equal(u, before) and np.array_equal(d, dbefore), "inputs were modified")
    if p == 0:
        require(np.allclose(got, before, rtol=1e-12, atol=1e-13), "order zero changed the values")
        return False, ["order 0"]
    size = max(sum(abs(v) for v in c) for c in case["co"]) * 1.2
    cond = 1 + max(abs(a), abs(b)) / (b - a)
    # |D| ~ n^2/2 * 2/(b-a); entries near the ends are differences with relative accuracy eps*cond*n^2
    norm = float(np.linalg.norm(d, np.inf))
    tol = 20 * ref.EPS * cond * size * norm**p * (n**2 * 0.2 + 5)
    cmp.same(got, want, tol, "dx_cheb order %d, n=%d, degree %d on [%r, %r]" % (p, n, case["deg"], a, b))
    useful = float(np.max(np.abs(want))) > 1e3 * tol
    return useful, ["order %d" % p, "full degree" if case["deg"] == n else "lower degree", "2D" if case["cols"] else "1D"]


@st.composite
def repeat_case(draw):
    """One process, several related matrices: the result depends on the matrix given, not on earlier ones."""
    n = draw(st.one_of(ints(2, 8), ints(2, 8), ints(2, 20)))
    ops = []
    for _ in range(draw(ints(2, 7))):
        ops.append(dict(
            m=draw(pick("D", "D", "wider", "shifted", "inner", "negated", "transposed", "D2", "perturbed", "in place")),
            f=draw(pick(3.0, 0.5, 1.0 + 1e-6, 1e6, 1e-6)), i=draw(ints(0, 400)), p=draw(pick(1, 2, 2, 3, 4, 6, 8, 11)), cols=draw(pick(0, 0, 2, n + 1)), seed=draw(ints(0, 9999))))
    return dict(n=n, ab=draw(iv()), ops=ops)


def check_repeat(case):
    from rkstiff import derivatives as D
    from rkstiff import grids

    n = case["n"]
    a, b = ends(case)
    base = call(grids.construct_x_dx_cheb, case)[1]
    live = base.copy()
    labels = set()
    for op in case["ops"]:
        m = op["m"]
        if m == "in place":
            live *= op["f"]
            M = live
        elif m == "wider":
            M = grids.construct_x_dx_cheb(n, a, a + (b - a) * op["f"])[1]
        elif m == "shifted":
            M = grids.construct_x_dx_cheb(n, a + (b - a), b + (b - a))[1]
        elif m == "perturbed":
            M = base.copy()
            M[divmod(op["i"] % (n + 1) ** 2, n + 1)] *= op["f"]
        else:
            M = dict(D=live, inner=base[1:-1, 1:-1], negated=-base, transposed=base.T, D2=base @ base)[m]
        if not M.size:
            continue
        labels.add(m)
        g = np.random.default_rng(op["seed"])
        k = M.shape[0]
        u = g.uniform(-1, 1, (k, min(op["cols"], k)) if op["cols"] else k)
        want, size = u.astype(ref.LD), np.abs(u)
        for _ in range(op["p"]):
            want, size = M.astype(ref.LD) @ want, np.abs(M) @ size
        got = D.dx_cheb(M, u, op["p"])
        cmp.same(got, want, 40 * ref.EPS * op["p"] * (k + 2) * np.asarray(size, dtype=float), "%s matrix, order %d, %d points, call %d of several" % (m, op["p"], k, case["ops"].index(op)))
    return len(labels) > 1, sorted(labels)


@st.composite
def bad_case(draw):
    return dict(kind=draw(pick("grid type", "grid value", "order type", "negative", "rows", "rows2", "square", "3D", "0D")),
                n=draw(ints(2, 12)), off=draw(pick(-1, 1, 2)), bad=draw(ints(-5, 1)), fn=draw(BOOL), order=draw(ints(1, 3)))


def check_bad(case):
    from rkstiff import derivatives as D
    from rkstiff import grids

    k, n = case["kind"], case["n"]
    if k.startswith("grid"):
        f = grids.construct_x_dx_cheb if case["fn"] else grids.construct_x_cheb
        want = TypeError if k == "grid type" else ValueError
        args = (float(n),) if k == "grid type" else (case["bad"],)
    else:
        x, d = grids.construct_x_dx_cheb(n)
        u, p, want = x**2, case["order"], ValueError
        if k == "order type":
            p, want = float(p), TypeError
        elif k == "negative":
            p = -p
        elif k == "rows":
            u = np.ones(n + 1 + case["off"])
        elif k == "rows2":
            u = np.ones((n + 1 + case["off"], 3))
        elif k == "square":
            d = d[:, :-1]
        elif k == "3D":
            u = np.ones((n + 1, 2, 2))
        else:
            u = np.array(3.0)
        f, args = D.dx_cheb, (d, u, p)
    try:
        f(*args)
    except (TypeError, ValueError) as e:
        require(isinstance(e, want), "%s raised %s, documented %s", k, type(e).__name__, want.__name__)
        return True, [k]
    require(False, "%s accepted", k)


FACETS = [
    Facet("grid", grid_case(), check_grid, quick=3000, shards=3, rule="points and affine invariance of the matrix"),
    Facet("polynomials", poly_case(), check_poly, quick=8000, shards=5, rule="derivatives of polynomials of degree <= n, 1D and column stacks"),
    Facet("repeated", repeat_case(), check_repeat, quick=2500, shards=2, rule="several related matrices in turn (other intervals, interior blocks, changed in place) against repeated products"),
    Facet("refusal", bad_case(), check_bad, quick=800, shards=1, rule="inconsistent shapes, orders and sizes refused"),
]

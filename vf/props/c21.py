"""C21: the Hankel transform inverts itself, is linear and matches known pairs."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated sizes, radii, sample vectors and reconfiguration histories; grids and matrix compared with independently computed "
    "Bessel zeros and values, transforms with the direct sum over them, round trips and analytic Gaussian pairs. "
    "Non-trivial: a nonzero vector (transforms), a history with an effective change (reconfiguration)."
)
ASSUMPTIONS = [
    "the round trip is exact only up to the published method's own accuracy, about 2e-6 at 4 points, falling as nr^-3",
    "Gaussian pairs are checked where both the Gaussian and its transform have decayed to 1e-12 at the ends of the grids",
]


def j0zeros(n):
    """First n zeros of J0: McMahon start, Newton on scipy's J0 in double (not scipy's own zero finder)."""
    from scipy.special import j0, j1

    k = np.arange(1, n + 1)
    b = (k - 0.25) * math.pi
    z = b + 1 / (8 * b) - 124 / (3 * (8 * b) ** 3)
    for _ in range(4):
        z = z + j0(z) / j1(z)
    return z


@st.composite
def size(draw):
    return draw(st.one_of(ints(4, 12), ints(4, 40), ints(4, 140), ints(4, 140), ints(140, 400)))


@st.composite
def radius(draw):
    return draw(st.one_of(pick(1.0, 1, 2, 10.0), gen.num(0.1, 30), gen.logu(-6, 6), ints(1, 300000), st.integers(3, 18).map(lambda k: 2**k)))


@st.composite
def grid_case(draw):
    return dict(nr=draw(size()), rmax=draw(radius()), via=draw(pick("grid", "transform", "default")))


def check_grid(case):
    from rkstiff import grids, transforms

    nr, rmax = case["nr"], case["rmax"]
    z = j0zeros(nr + 1)
    if case["via"] == "grid":
        r, kr, bz, jn = grids.construct_r_kr_hankel(nr, rmax)
        require(np.shape(bz) == (nr,), "zeros have shape %s", np.shape(bz))
        cmp.same(bz, z[:-1], 1e-13 * z[:-1], "Bessel zeros")
        cmp.same(np.array([jn]), z[-1:], 1e-13 * z[-1:], "normalising zero")
    else:
        if case["via"] == "default":
            rmax = 1.0
            t = transforms.HankelTransform(nr)
        else:
            t = transforms.HankelTransform(nr=nr, rmax=rmax)
        r, kr = t.r, t.kr
        require(t.nr == nr and t.rmax == rmax, "nr, rmax read %r, %r", t.nr, t.rmax)
        cmp.same(t.bessel_zeros(), z[:-1], 1e-13 * z[:-1], "Bessel zeros")
    require(np.shape(r) == (nr,) and np.shape(kr) == (nr,), "grid shapes %s %s", np.shape(r), np.shape(kr))
    want = z[:-1] / z[-1] * rmax
    cmp.same(r, want, 1e-13 * want, "radial grid")
    want = z[:-1] / rmax
    cmp.same(kr, want, 1e-13 * want, "wavenumber grid")
    require(np.all(np.diff(r) > 0) and 0 < r[0] and r[-1] < rmax, "radial points not increasing in (0, rmax)")
    # the arrays are the caller's own: writing into them changes no later grid or transform
    if nr <= 60:
        keep = [np.array(v) for v in grids.construct_r_kr_hankel(nr, rmax)[:3]]
        first = transforms.HankelTransform(nr, rmax)
        hm = np.array(first.hankel_matrix())
        for v in (r, kr, *grids.construct_r_kr_hankel(nr, rmax)[:3], first.r, first.kr, first.hankel_matrix(), first.bessel_zeros()):
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = -7.0
        new = transforms.HankelTransform(nr, rmax)
        again = [*grids.construct_r_kr_hankel(nr, rmax)[:3], new.r, new.kr, new.hankel_matrix(), new.bessel_zeros()]
        for p, q in zip(again, keep + [keep[0], keep[1], hm, keep[2]]):
            require(np.allclose(p, q, rtol=1e-12, atol=0), "the same grid built again after the first was overwritten differs (nr=%d, rmax=%r)", nr, rmax)
    return True, [case["via"], "nr>40" if nr > 40 else "nr<=40"]


def roundtrip_bound(nr):
    return 4e-3 * nr**-3.0


@st.composite
def trans_case(draw):
    nr = draw(size())
    cplx = draw(BOOL)
    m = min(nr, 8)
    return dict(nr=nr, rmax=draw(radius()), cplx=cplx, cols=draw(pick(0, 0, 0, 1, 3, nr if nr <= 40 else 2)), c=draw(gen.num(-3, 3)), seed=draw(ints(0, 999)),
                head=draw(gen.vec(m, -2, 2, cplx)), head2=draw(gen.vec(m, -2, 2, cplx)), mem=draw(pick("plain", "plain", "readonly", "strided", "int")))


def spread(v, nr, seed, cplx):
    """A vector of nr entries whose first ones are given and the rest follow from a fixed hash."""
    v = gen.carr(v)
    k = np.arange(nr)
    tail = np.modf(np.sin((k + 1) * 12.9898 + seed * 0.731) * 43758.5453)[0]
    out = tail + (1j * np.roll(tail, 1) if cplx else 0)
    out = out * (1 if seed else 0)
    out[: v.size] = v if cplx else v.real
    return out


def check_trans(case):
    from scipy.special import j0, j1
    from rkstiff import transforms

    nr, rmax = case["nr"], case["rmax"]
    t = transforms.HankelTransform(nr, rmax)
    f = spread(case["head"], nr, case["seed"], case["cplx"])
    g = spread(case["head2"], nr, case["seed"] + 7, case["cplx"])
    if case["mem"] == "int" and not case["cplx"]:
        f = np.round(f).astype(int)
    if case["cols"]:
        f = np.stack([f * (i + 1) for i in range(case["cols"])], axis=1)
        g = np.stack([np.roll(g, i) for i in range(case["cols"])], axis=1)
    if case["mem"] == "readonly":
        f.setflags(write=False)
    if case["mem"] == "strided":
        w = np.zeros((2 * f.shape[0],) + f.shape[1:], dtype=f.dtype)
        w[::2] = f
        f = w[::2]
    before = f.copy()
    z = j0zeros(nr + 1)
    zz, jn = z[:-1], z[-1]
    # direct quadrature G_i = (2 rmax^2 / jN^2) sum_j f_j J0(z_i z_j / jN) / J1(z_j)^2
    kern = j0(zz[:, None] * zz[None, :] / jn)
    w = 2.0 / (jn**2 * j1(zz) ** 2)
    fw = rmax**2 * np.tensordot(kern * w, f, axes=(1, 0))
    inv = np.tensordot(kern * w, f, axes=(1, 0)) * (jn / rmax) ** 2
    F, I = t.ht(f), t.iht(f)
    require(np.array_equal(f, before), "the input was modified")
    require(np.shape(F) == f.shape and np.shape(I) == f.shape, "shapes %s %s for %s", np.shape(F), np.shape(I), f.shape)
    amp = float(np.sum(np.abs(w))) * float(np.max(np.abs(f)) + abs(case["c"]) * np.max(np.abs(g)) + 1e-30)
    tol = 1e-13 * nr * amp
    cmp.same(F, fw, tol * rmax**2, "forward transform against the direct sum")
    cmp.same(I, inv, tol * (jn / rmax) ** 2, "inverse transform against the direct sum")
    cmp.same(t.hankel_matrix(), kern * w * jn, 1e-13 * nr * float(np.max(np.abs(w))) * jn, "transform matrix")
    c = case["c"]
    cmp.same(t.ht(f + c * g), F + c * t.ht(g), tol * rmax**2, "linearity of ht")
    cmp.same(t.iht(f + c * g), I + c * t.iht(g), tol * (jn / rmax) ** 2, "linearity of iht")
    if not np.iscomplexobj(f):
        require(not np.iscomplexobj(F) and not np.iscomplexobj(I), "real input gave complex output")
    top = float(np.max(np.abs(f)))
    bound = roundtrip_bound(nr) * top + 1e-12 * nr * top
    cmp.same(t.iht(F), f, bound, "inverse of forward, nr=%d" % nr)
    cmp.same(t.ht(I), f, bound, "forward of inverse, nr=%d" % nr)
    return top > 0, ["complex" if case["cplx"] else "real", "2D" if case["cols"] else "1D"]


@st.composite
def gauss_case(draw):
    return dict(nr=draw(ints(16, 200)), rmax=draw(gen.logu(-3, 3)), pos=draw(gen.num(0.0, 1.0)), amp=draw(gen.num(0.2, 3)), p=draw(pick(0, 0, 1)))


def check_gauss(case):
    from rkstiff import transforms

    nr, rmax = case["nr"], case["rmax"]
    t = transforms.HankelTransform(nr, rmax)
    # f = A exp(-a r^2) <-> A/(2a) exp(-k^2/(4a)); need a rmax^2 >= 28 and kmax^2/(4a) >= 28
    kmax = float(t.kr[-1])
    lo, hi = 32.0 / rmax**2, kmax**2 / 128.0
    if not lo < hi:
        return False, ["not resolved"]
    a = lo * (hi / lo) ** case["pos"]
    r, k = t.r, t.kr
    if case["p"] == 0:
        f, G = np.exp(-a * r**2), np.exp(-(k**2) / (4 * a)) / (2 * a)
    else:  # r^2 exp(-a r^2) <-> (1 - k^2/(4a)) exp(-k^2/4a) / (2 a^2)
        f, G = r**2 * np.exp(-a * r**2), (1 - k**2 / (4 * a)) * np.exp(-(k**2) / (4 * a)) / (2 * a**2)
    f, G = case["amp"] * f, case["amp"] * G
    gs, fs = float(np.max(np.abs(G))), float(np.max(np.abs(f)))
    cmp.same(t.ht(f), G, 1e-9 * gs, "Gaussian transform, nr=%d a*rmax^2=%g" % (nr, a * rmax**2))
    cmp.same(t.iht(G), f, 1e-9 * fs + 1e-10 * gs * nr * (kmax / 1) ** 2 * 1e-6, "inverse Gaussian, nr=%d" % nr)
    return True, ["gaussian" if case["p"] == 0 else "r^2 gaussian"]


@st.composite
def hist_case(draw):
    ops = []
    for _ in range(draw(ints(1, 8))):
        k = draw(pick("nr", "rmax", "nr", "rmax", "bad nr", "bad rmax", "scribble", "use", "same", "factor"))
        if k == "nr":
            ops.append([k, draw(ints(4, 30))])
        elif k == "rmax":
            ops.append([k, draw(radius())])
        elif k == "factor":  # a radius related to the one in force
            ops.append([k, draw(pick(1 + 1e-12, 1 - 1e-9, 1 + 1e-7, 1 - 1e-6, 1 + 1e-5, 1 + 1e-4, 0.999, 1.01, 2.0, 0.5, 10.0, 1e-3))])
        elif k == "bad nr":
            ops.append([k, draw(pick(3, 0, -5, 8.0, "x"))])
        elif k == "bad rmax":
            ops.append([k, draw(pick(0, 0.0, -1.0, -1e-9, "-inf", "nan"))])
        else:
            ops.append([k, 0])
    return dict(nr=draw(ints(4, 30)), rmax=draw(st.one_of(radius(), radius(), gen.logu(-10, -4))), ops=ops)


def check_hist(case):
    from rkstiff.transforms import HankelTransform

    t = HankelTransform(case["nr"], case["rmax"])
    nr, rmax = case["nr"], case["rmax"]
    effective = False
    for k, v in case["ops"]:
        if k == "nr":
            effective |= v != nr
            t.nr = nr = v
        elif k == "rmax":
            effective |= v != rmax
            t.rmax = rmax = v
        elif k == "factor":
            effective = True
            t.rmax = rmax = rmax * v
        elif k in ("bad nr", "bad rmax"):
            try:
                if k == "bad nr":
                    t.nr = v
                else:
                    t.rmax = float(v) if isinstance(v, str) else v
                require(False, "%s %r accepted", k, v)
            except ValueError:
                pass
        elif k == "scribble":
            t.hankel_matrix()[:] = 7.0
            t.bessel_zeros()[:] = 7.0
        elif k == "use":
            t.iht(t.ht(np.ones(nr)))
        else:
            t.nr, t.rmax = nr, rmax
        new = HankelTransform(nr, rmax)
        require(t.nr == nr and t.rmax == rmax, "after %s=%r: nr, rmax read %r, %r", k, v, t.nr, t.rmax)
        f = np.cos(np.arange(nr) * 1.3) + 2
        for what, x, y in (
            ("r", t.r, new.r),
            ("kr", t.kr, new.kr),
            ("matrix", t.hankel_matrix(), new.hankel_matrix()),
            ("zeros", t.bessel_zeros(), new.bessel_zeros()),
            ("ht", t.ht(f), new.ht(f)),
            ("iht", t.iht(f), new.iht(f)),
        ):
            x, y = np.asarray(x), np.asarray(y)
            top = float(np.max(np.abs(y)))
            require(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-14 * top * nr), "after %s=%r: %s differs from a new transform's (nr=%d, rmax=%r)", k, v, what, nr, rmax)
    from rkstiff.grids import construct_r_kr_hankel

    for bad in ((3, 1.0), (0, 1.0), (8, 0.0), (8, -2.0), (8, float("nan"))):
        for make in (HankelTransform, construct_r_kr_hankel):
            try:
                make(*bad)
            except ValueError:
                continue
            require(False, "%s%r accepted", make.__name__, bad)
    return effective, [k for k, _ in case["ops"]]


FACETS = [
    Facet("grid", grid_case(), check_grid, quick=3000, shards=2, rule="zeros, r and kr grids"),
    Facet("transform", trans_case(), check_trans, quick=6000, shards=4, rule="transforms against direct sums, linearity, round trips"),
    Facet("gaussian", gauss_case(), check_gauss, quick=3000, shards=2, rule="analytic pairs"),
    Facet("reconfigure", hist_case(), check_hist, quick=2500, shards=2, rule="setter histories against fresh objects"),
]

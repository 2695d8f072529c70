"""C22: mirroring a radial grid gives the even extension along the chosen axis."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated grids, fields (1D to 3D, several dtypes and memory layouts) and axes; every entry of the result is compared with the "
    "entry the even extension prescribes, index by index. Non-trivial: a field with at least two distinct values along the mirrored axis."
)
ASSUMPTIONS = ["grids of signed numbers (the mirrored grid holds -r)"]

DT = dict(float=float, complex=complex, int=int, float32=np.float32, bool=bool, uint8=np.uint8)


@st.composite
def case_(draw):
    nd = draw(pick(1, 1, 2, 2, 2, 3))
    shape = [draw(ints(1, 6)) for _ in range(nd)]
    if draw(ints(0, 3)) == 0:  # equal extents, at least of two of the axes
        shape = [shape[0]] * nd if draw(BOOL) else shape[:-1] + [shape[max(nd - 2, 0)]]
    axis = draw(pick("default", -1, 0, 1))
    size = int(np.prod(shape))
    n = shape[-1] if axis in ("default", -1) else (shape[axis] if axis < nd else 1)
    return dict(shape=shape, axis=axis, u=draw(st.lists(ints(-9, 9), min_size=size, max_size=size)), dtype=draw(pick(*DT)),
                r=draw(st.lists(gen.num(0, 9), min_size=n, max_size=n)), rint=draw(BOOL), mem=draw(pick("plain", "plain", "readonly", "fortran", "strided")),
                none=draw(ints(0, 7)) == 0, sort=draw(BOOL))


def check(case):
    from rkstiff.grids import mirror_grid

    case = fill(case) if "seed" in case else case
    nd = len(case["shape"])
    dt = DT[case["dtype"]]
    raw = np.array(case["u"], dtype=float).reshape(case["shape"])
    u = (raw * (1 + 0.5j)) if dt is complex else (np.abs(raw) if case["dtype"] in ("uint8", "bool") else raw)
    if case["dtype"] == "bool":
        u = u > 4
    u = u.astype(dt)
    r = np.array(sorted(case["r"]) if case["sort"] else case["r"], dtype=float)
    if case["rint"]:
        r = np.round(r).astype(int)
    if case["mem"] == "readonly":
        u.setflags(write=False)
        r.setflags(write=False)
    elif case["mem"] == "fortran":
        u = np.asfortranarray(u)
    elif case["mem"] == "strided":
        w = np.zeros((2 * u.shape[0],) + u.shape[1:], dtype=u.dtype)
        w[::2] = u
        u = w[::2]
    bu, br = u.copy(), r.copy()
    axis = case["axis"]
    if axis == 1 and nd == 1:
        try:
            mirror_grid(r, u, axis=1)
        except (ValueError, IndexError):
            return False, ["no such axis"]
        require(False, "axis 1 of a 1D field accepted")
    if case["none"]:
        rn, un = mirror_grid(r) if axis == "default" else mirror_grid(r, axis=axis)
        require(un is None, "no field given but %r returned", un)
    else:
        rn, un = mirror_grid(r, u) if axis == "default" else mirror_grid(r, u, axis=axis)
    require(np.array_equal(u, bu) and np.array_equal(r, br), "inputs were modified")
    n = r.size
    require(np.shape(rn) == (2 * n,), "grid shape %s from %d points", np.shape(rn), n)
    require(np.array_equal(rn[n:], r) and np.array_equal(rn[:n], -r[::-1]), "grid %r does not mirror %r", rn.tolist(), r.tolist())
    if case["none"]:
        return False, ["grid only"]
    ax = nd - 1 if axis in ("default", -1) else axis
    want_shape = list(u.shape)
    want_shape[ax] *= 2
    require(list(np.shape(un)) == want_shape, "field of shape %s mirrored along axis %s has shape %s", u.shape, axis, np.shape(un))
    require(un.dtype == u.dtype, "dtype %s became %s", u.dtype, un.dtype)
    m = u.shape[ax]
    k = np.arange(2 * m)
    want = np.take(u, np.where(k >= m, k - m, m - 1 - k), axis=ax)
    for idx in np.argwhere(un != want)[:1]:
        idx = tuple(int(i) for i in idx)
        require(False, "axis %s: entry %s is %r, the even extension has %r", axis, idx, un[idx], want[idx])
    mv = np.moveaxis(u, ax, 0)
    return bool(np.any(mv != mv[:1])), ["%dD axis %s" % (nd, axis)]


@st.composite
def wide_case(draw):
    nd = draw(pick(1, 2, 2, 3))
    size = st.one_of(ints(1, 40), ints(30, 700 if nd == 1 else 200), pick(64, 100, 128, 129, 256, 257)) if nd < 3 else ints(1, 24)
    return dict(shape=[draw(size) for _ in range(nd)], axis=draw(pick("default", -1, 0, 1)) if nd > 1 else draw(pick("default", -1, 0)), dtype=draw(pick(*DT)), seed=draw(ints(0, 10**6)),
                rint=draw(BOOL), mem=draw(pick("plain", "plain", "readonly", "fortran", "strided")), none=False, sort=draw(BOOL))


def fill(case):
    """Values of a wide case, from its seed."""
    sh, ax = case["shape"], case["axis"]
    g = np.random.default_rng(case["seed"])
    n = sh[-1] if ax in ("default", -1) else sh[ax]
    return dict(case, u=g.integers(-9, 10, int(np.prod(sh))).tolist(), r=np.round(g.uniform(0, 9, n), 3).tolist())


@st.composite
def bad_case(draw):
    return dict(axis=draw(st.one_of(ints(2, 9), ints(-9, -2))), n=draw(ints(1, 5)), nd=draw(ints(1, 3)))


def check_bad(case):
    from rkstiff.grids import mirror_grid

    n = case["n"]
    u = np.ones([n] * case["nd"])
    try:
        mirror_grid(np.arange(float(n)), u, axis=case["axis"])
    except ValueError:
        return True, ["%dD" % case["nd"]]
    require(False, "axis %r accepted", case["axis"])


FACETS = [
    Facet("mirror", case_(), check, quick=8000, shards=4, rule="grids and fields, entry by entry"),
    Facet("wide", wide_case(), check, quick=1500, shards=3, rule="fields of up to 700 (1D), 257 x 257 (2D), 24^3 entries"),
    Facet("refusal", bad_case(), check_bad, quick=300, shards=1, rule="any other axis refused with ValueError"),
]

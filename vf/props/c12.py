"""C12: permutation, conjugation, splitting, time scaling, conserved sums."""

import numpy as np
from hypothesis import strategies as st

from .. import adapt, cmp, gen, ref
from ..core import Facet, require
from ..env import ADAPTIVE, ALL, FIXED
from ..gen import BOOL, carr, enc, ints, logu, num, pick, unif, vec

MATRIX = tuple(x for x in ALL if x != "IF45DP")
EIGS = ("ETD34", "ETD35", "IF34")
RULE = (
    "Metamorphic pairs: a generated system and its image under a permutation, complex conjugation, time scaling, "
    "duplication, or (fixed steps) juxtaposition with another system are stepped side by side; states, accepted sizes "
    "and suggestions must correspond within the rounding analysis. Systems built to conserve a weighted sum must "
    "conserve it. Non-trivial: the nonlinear term acts and no controller decision is within rounding of a threshold."
)


@st.composite
def base_st(draw, kind, names=None):
    if kind == "diag":
        c = dict(draw(gen.diag_system(nmin=1, nmax=5)))
        c["solver"] = draw(pick(*(names or ALL)))
    else:
        c = dict(draw(gen.mat_system(nmin=1, nmax=4, diagable=draw(BOOL))))
        c["solver"] = draw(pick(*[x for x in (names or ALL) if x != "IF45DP"]))
    c["cfg"] = draw(gen.loose_cfg((-7, -1)))
    c["steps"] = draw(ints(1, 3))
    c["diagonalize"] = kind == "mat" and draw(ints(0, 2)) == 0 and c["solver"] in EIGS
    return c


def run_pair(case, sysA, sysB, fwd, c=1.0, gain=1.0):
    """Step A and its image B; fwd maps a state of A to the state of B; B's time runs c times slower."""
    name = case["solver"]
    (LA, nlA, nA), (LB, nlB, nB) = sysA, sysB
    eig, cond = adapt.eig_info(case, LA)
    if cond > 1e3:
        return False, ["ill-conditioned basis"]
    kw = dict(cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    A, B = gen.make(name, LA, nlA, **kw), gen.make(name, LB, nlB, **kw)
    cfg = gen.full_cfg(case["cfg"])
    cfg["minh"] *= max(1.0, 1.0 / c)
    u, h = gen.decode_u(case), case["h"]
    v = fwd(u)
    useful, labels = 0, {name, case["kind"]}
    for i in range(case["steps"]):
        slip = 0.0
        if name in ADAPTIVE:
            m = adapt.ref_adaptive(name, case, LA, nA, u, h, cfg, eig, cond)
            if m is None:
                return useful > 0, sorted(labels | {"undecidable"})
            a = A.step(u, h)
            b = B.step(v, c * h)
            t = 40 * m["rel"]
            require(abs(b[1] - c * a[1]) <= t * c * a[1], "%s step %d: accepted %r, image %r (expected %r)", name, i, a[1], b[1], c * a[1])
            require(abs(b[2] - c * a[2]) <= t * c * a[2], "%s step %d: suggested %r, image %r (expected %r)", name, i, a[2], b[2], c * a[2])
            un, vn, hu, hn, slip = a[0], b[0], a[1], min(a[2], case["h"]), t
            labels.add("rejections" if m["attempts"] > 1 else "first try")
        else:
            un, vn, hu, hn = A.step(u, h), B.step(v, c * h), h, h
        r = ref.ref_step(name, LA, nA, u, hu)
        if not np.isfinite(r.smax) or r.smax > 1e8:
            break
        tol, ok = cmp.step_tolerance(name, case, LA, hu, r, nA, eig=eig, cond=cond)
        lu = float(np.max(np.abs(LA @ u if LA.ndim == 2 else LA * u)))
        tol = np.full(len(vn), 2 * gain * float(np.max(tol)) + slip * hu * (r.nmax + lu) * 10) if gain != 1.0 or LA.ndim == 2 else fwd(2 * tol + slip * hu * (r.nmax + lu) * 10).real
        cmp.same(vn, fwd(un), tol, "%s step %d (h=%r), image against original" % (name, i, hu))
        if ok and r.nmax * hu > 1e-6 * r.smax:
            useful += 1
        u, h = un, hn
        v = fwd(un)
    return useful > 0, sorted(labels)


def original(case):
    nl = gen.NL(case["nl"])
    return gen.decode_L(case), nl, nl


@st.composite
def perm_st(draw, kind):
    c = draw(base_st(kind))
    c["perm"] = draw(st.permutations(range(c["n"])))
    return c


def check_perm(case):
    L, nl, n0 = original(case)
    p = np.array(case["perm"])
    inv = np.argsort(p)
    L2 = L[p] if L.ndim == 1 else L[np.ix_(p, p)]
    ok, labels = run_pair(case, (L, nl, n0), (L2, lambda v: nl(v[inv])[p], None), lambda u: u[p])
    return ok and len(p) > 1 and not np.array_equal(p, inv[inv] * 0 + np.arange(len(p))), labels


@st.composite
def wide_perm(draw, kind):
    c = dict(draw(gen.wide_system(kind, 2049 if kind == "diag" else 20)))
    c["solver"] = draw(pick(*(ALL if kind == "diag" else MATRIX)))
    c["cfg"] = draw(gen.loose_cfg((-7, -1)))
    c["steps"] = draw(ints(1, 2))
    c["diagonalize"] = False
    c["perm"] = draw(st.one_of(st.just("reverse"), ints(0, 10**6)))
    return c


def check_wide_perm(case):
    n = case["n"]
    p = np.arange(n)[::-1] if case["perm"] == "reverse" else np.random.default_rng(case["perm"]).permutation(n)
    return check_perm(dict(gen.expand(case), perm=p.tolist()))


@st.composite
def conj_st(draw, kind):
    c = draw(base_st(kind))
    c["cplx"] = True
    return c


def check_conj(case):
    L, nl, n0 = original(case)
    f = lambda v: np.conj(nl(np.conj(v)))  # noqa: E731
    ok, labels = run_pair(case, (L, nl, n0), (np.conj(L), f, None), np.conj)
    return ok and bool(np.any(np.imag(L))), labels


@st.composite
def scale_st(draw, kind):
    c = draw(base_st(kind))
    c["c"] = draw(st.one_of(pick(2.0, 0.5, 1024.0, 2.0**-10), logu(-3, 3), logu(-11, 9)))
    return c


def check_scale(case):
    L, nl, n0 = original(case)
    c = case["c"]
    return run_pair(case, (L, nl, n0), (L / c, lambda v: nl(v) / c, None), lambda u: u.copy(), c=c)


def check_dup(case):
    """A beside a copy of itself: same sizes, same states (all solvers)."""
    L, nl, n0 = original(case)
    n = case["n"]
    if L.ndim == 1:
        L2 = np.concatenate([L, L])
    else:
        L2 = np.zeros((2 * n, 2 * n), dtype=L.dtype)
        L2[:n, :n] = L2[n:, n:] = L
    f = lambda v: np.concatenate([nl(v[:n]), nl(v[n:])])  # noqa: E731
    return run_pair(case, (L, nl, n0), (L2, f, None), lambda u: np.concatenate([u, u]), gain=2.0 if L.ndim == 2 else 1.0)


@st.composite
def split_st(draw, kind):
    a = draw(base_st(kind, FIXED))
    n2 = draw(ints(1, 3))
    a["n2"] = n2
    a["nl2"] = draw(gen.nl_spec(n2, a["cplx"], gen.nl_size(a["h"])))
    a["u2"] = draw(vec(n2, -1.5, 1.5, a["cplx"]))
    if kind == "diag":
        z = [draw(gen.mode_z(a["etd"].get("modecutoff", 0.01), not a["cplx"])) for _ in range(n2)]
        a["L2"] = [[float(w.real / a["h"]), float(w.imag / a["h"])] for w in z]
    else:
        M = carr([draw(vec(n2, -1, 1, a["cplx"])) for _ in range(n2)])
        a["L2"] = enc(M * (a["znorm"] / max(float(np.max(np.sum(np.abs(M), axis=0))), 1e-3) / a["h"]))
    return a


def check_split(case):
    """Two uncoupled systems stepped together and apart."""
    name, h = case["solver"], case["h"]
    LA, nlA = gen.decode_L(case), gen.NL(case["nl"])
    LB = carr(case["L2"])
    uA, uB = gen.decode_u(case), carr(case["u2"])
    if not case["cplx"]:
        LB, uB = LB.real.copy(), uB.real.copy()
    nlB = gen.NL(case["nl2"])
    n = case["n"]
    if LA.ndim == 1:
        L2 = np.concatenate([LA, LB])
    else:
        L2 = np.zeros((n + case["n2"],) * 2, dtype=np.result_type(LA, LB))
        L2[:n, :n], L2[n:, n:] = LA, LB
    J = gen.make(name, L2, lambda v: np.concatenate([nlA(v[:n]), nlB(v[n:])]), etd=case["etd"])
    A, B = gen.make(name, LA, nlA, etd=case["etd"]), gen.make(name, LB, nlB, etd=case["etd"])
    useful = 0
    for i in range(case["steps"]):
        rA, rB = ref.ref_step(name, LA, nlA, uA, h), ref.ref_step(name, LB, nlB, uB, h)
        if not (np.isfinite(rA.smax + rB.smax) and rA.smax + rB.smax < 1e8):
            break
        tA, okA = cmp.step_tolerance(name, case, LA, h, rA, nlA)
        tB, okB = cmp.step_tolerance(name, case, LB, h, rB, nlB)
        J.reset()
        both = J.step(np.concatenate([uA, uB]), h)
        A.reset(), B.reset()
        uA, uB = A.step(uA, h), B.step(uB, h)
        k = 4 if LA.ndim == 2 else 2
        cmp.same(both[:n], uA, k * tA, "%s: first of two uncoupled systems, step %d" % (name, i))
        cmp.same(both[n:], uB, k * tB, "%s: second of two uncoupled systems, step %d" % (name, i))
        useful += okA and okB and rA.nmax > 0 and rB.nmax > 0
    return useful > 0, [name, case["kind"]]


@st.composite
def invariant_st(draw, kind):
    c = draw(base_st(kind))
    n = c["n"]
    c["w"] = draw(vec(n, -1, 1, c["cplx"]))
    c["zero"] = draw(st.lists(BOOL, min_size=n, max_size=n))
    c["steps"] = draw(ints(1, 5))
    return c


def check_invariant(case):
    """w.u is conserved when w.L = 0 and w.N(u) = 0."""
    name, h, n = case["solver"], case["h"], case["n"]
    L, nl, u = gen.decode_L(case), gen.NL(case["nl"]), gen.decode_u(case)
    w = carr(case["w"])
    w = w if case["cplx"] else w.real.copy()
    if L.ndim == 1:
        z = np.array(case["zero"])
        w = np.where(z, w, 0.0)
        L = np.where(z, 0.0, L)
    nw = float(np.sum(np.abs(w) ** 2))
    if n < 2 or nw < 0.01:
        return False, ["no weights"]
    wc = np.conj(w) / nw
    if L.ndim == 2:
        L = L - np.outer(wc, w @ L)
    f = lambda v: (lambda x: x - wc * (w @ x))(nl(v))  # noqa: E731
    zn = float(np.max(np.sum(np.abs(h * L), axis=0))) if L.ndim == 2 else 0.0
    cs = dict(case, diagonalize=False)
    if L.ndim == 2:
        cs["etd"] = dict(contour_points=64, contour_radius=max(2.5 * zn, 1.0))
        if zn > 4:
            return False, ["outside the circle"]
    s = gen.make(name, L, f, cfg=case["cfg"], etd=cs["etd"])
    useful = 0
    hh = h
    for i in range(case["steps"]):
        r = ref.ref_step(name, L, f, u, hh)
        if not np.isfinite(r.smax) or r.smax > 1e6:
            break
        lip = gen.NL(case["nl"])
        tol, ok = cmp.step_tolerance(name, cs, L, hh, r, lip)
        q0 = w @ u.astype(np.clongdouble)
        if name in ADAPTIVE:
            try:
                u, hh, _ = s.step(u, hh)
            except s.SolverError:
                break
        else:
            u = s.step(u, hh)
        q1 = w @ u.astype(np.clongdouble)
        # in the zero modes the sum involves only exactly represented weights
        t = 3 * n * float(np.max(np.abs(w))) * float(np.max(tol))
        d = float(abs(q1 - q0))
        require(d <= t, "%s step %d: conserved sum changed by %.3g (tolerance %.3g)", name, i, d, t)
        if ok and r.nmax * hh > 1e-6 * r.smax and t < 1e-6 * r.smax:
            useful += 1
    return useful > 0, [name, case["kind"]]


FACETS = []
for _n, _g, _c, _q in (
    ("permutation", perm_st, check_perm, (1500, 500)),
    ("conjugation", conj_st, check_conj, (1200, 400)),
    ("time-scaling", scale_st, check_scale, (1500, 500)),
    ("duplication", base_st, check_dup, (1200, 400)),
    ("splitting", split_st, check_split, (1200, 400)),
    ("conserved-sum", invariant_st, check_invariant, (1800, 700)),
):
    FACETS.append(Facet(_n, _g("diag"), _c, quick=_q[0], shards=2, rule=_n + ", 1D operators"))
    FACETS.append(Facet(_n + "-matrix", _g("mat"), _c, quick=_q[1], shards=2, rule=_n + ", full matrices"))
FACETS.append(Facet("permutation-wide", wide_perm("diag"), check_wide_perm, quick=600, shards=3, rule="permutation, 1D operators of 6-2049 modes"))
FACETS.append(Facet("permutation-wide-matrix", wide_perm("mat"), check_wide_perm, quick=100, shards=2, rule="permutation, full matrices of 6-20 modes"))

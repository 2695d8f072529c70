"""C11: the representation of the linear operator does not change the solution."""

import numpy as np
from hypothesis import strategies as st

from .. import adapt, cmp, gen, ref
from ..core import Facet, require
from ..env import ADAPTIVE, ALL, FIXED
from ..gen import BOOL, carr, enc, ints, logu, num, pick, unif, vec

EIGS = ("ETD34", "ETD35", "IF34")
MATRIX = tuple(x for x in ALL if x != "IF45DP")
RULE = (
    "The same generated system is handed over as a vector, as the diagonal matrix of that vector, as a full matrix, by "
    "diagonalization, or in another basis; each step, each accepted and suggested size and whole trajectories are "
    "compared between the forms, with tolerances from the rounding analysis of both. Non-trivial: the nonlinear term "
    "acts and (adaptive) the controller decision is not within rounding of a threshold."
)
ASSUMPTIONS = ["the contour circle encloses the spectrum of hL with a factor-two margin", "eigenbases and basis changes have condition below 1e3"]


@st.composite
def vec_mat(draw):
    """Diagonal operator, |z| <= 2.5, with contour settings good for both forms."""
    n = draw(ints(1, 4))
    cplx = draw(BOOL)
    h = draw(logu(-2.5, 0))
    z = []
    for _ in range(n):
        w = draw(gen.mode_z(0.01, not cplx, False))
        z.append(w if abs(w) < 2.5 else w / abs(w) * 2.5)
    zn = max(max(abs(w) for w in z), 0.1)
    return dict(
        kind="diag", n=n, cplx=cplx, h=h, L=[[w.real / h, w.imag / h] for w in z], zn=float("%.3g" % (zn * 1.02)),
        etd=draw(gen.etd_cfg()), etdm=draw(gen.etd_cfg(matrix=float("%.2g" % (zn * 1.05 + 0.01)))),
        nl=draw(gen.nl_spec(n, cplx, gen.nl_size(h))), u0=draw(vec(n, -1.5, 1.5, cplx)),
        solver=draw(pick(*MATRIX)), steps=draw(ints(1, 3)), cfg=draw(gen.loose_cfg((-7, -1))), eigform=draw(BOOL),
    )


@st.composite
def mat_eig(draw):
    c = dict(draw(gen.mat_system(nmin=1, nmax=4, diagable=True, znorm=(0.05, 2.5), units=True)))
    c.update(solver=draw(pick(*EIGS)), steps=draw(ints(1, 3)), cfg=draw(gen.loose_cfg((-7, -1))))
    return c


def pair(case, A, B, LA, LB, caseA, caseB, eigB, condB, T=None):
    """Step two solvers side by side from A's states."""
    name = case["solver"]
    nl = gen.NL(case["nl"])
    u, h = gen.decode_u(case), case["h"]
    cfg = gen.full_cfg(case["cfg"])
    useful, labels = 0, {name}
    for i in range(case["steps"]):
        if name in ADAPTIVE:
            m = adapt.ref_adaptive(name, caseA, LA, nl, u, h, cfg)
            m2 = adapt.ref_adaptive(name, caseB, LB, nl, u, h, cfg, eigB, condB)
            try:
                a = A.step(u, h)
            except A.SolverError:
                labels.add("solver error")
                break
            if m is None or m2 is None:
                return useful > 0, sorted(labels | {"undecidable"})
            b = B.step(u, h)
            t = 20 * (m["rel"] + m2["rel"])
            require(abs(a[1] - b[1]) <= t * a[1], "%s step %d: accepted sizes %r and %r in the two forms", name, i, a[1], b[1])
            require(abs(a[2] - b[2]) <= t * a[2], "%s step %d: suggested sizes %r and %r in the two forms", name, i, a[2], b[2])
            ua, ub, hu, hn = a[0], b[0], a[1], min(a[2], case["h"])
            slip = t * hu
            labels.add("rejections" if m["attempts"] > 1 else "first try")
        else:
            ua, ub, hu, hn, slip = A.step(u, h), B.step(u, h), h, h, 0.0
        r = ref.ref_step(name, LA, nl, u, hu)
        if not np.isfinite(r.smax) or r.smax > 1e8 * case.get("us", 1.0):
            break
        ta, oka = cmp.step_tolerance(name, caseA, LA, hu, r, nl)
        tb, okb = cmp.step_tolerance(name, caseB, LB, hu, r, nl, eig=eigB, cond=condB)
        tol = ta + tb + slip * (r.nmax + float(np.max(np.abs(LA @ u if LA.ndim == 2 else LA * u)))) * 10
        cmp.same(ub, ua, tol, "%s step %d (h=%r), second form against first" % (name, i, hu))
        if oka and okb and r.nmax * hu > 1e-6 * r.smax:
            useful += 1
        u, h = ua, hn
    return useful > 0, sorted(labels)


def check_vec_mat(case):
    name = case["solver"]
    L = gen.decode_L(case)
    if np.max(np.abs(L)) * case["h"] > case["zn"] * 1.0001:
        return False, ["harness"]
    nl = gen.NL(case["nl"])
    A = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"])
    eigB, condB = None, 1.0
    diagonalize = None
    M = np.diag(L)
    if case["eigform"] and name in EIGS:
        if np.min(np.abs(L)) < 1e-8 * np.max(np.abs(L)) or np.max(np.abs(L)) == 0:
            return False, ["singular"]
        diagonalize, eigB = True, L
    B = gen.make(name, M, nl, cfg=case["cfg"], etd=case["etd"] if diagonalize else case["etdm"], diagonalize=diagonalize)
    cb = dict(case, etd=case["etd"] if diagonalize else case["etdm"])
    ok, labels = pair(case, A, B, L, M, case, cb, eigB, condB)
    return ok, labels + ["diagonalize" if diagonalize else "matrix"]


def check_mat_eig(case):
    name = case["solver"]
    L = gen.decode_L(case)
    eig, cond = adapt.eig_info(dict(case, diagonalize=True), L)
    if eig is None or cond > 1e3:
        return False, ["ill-conditioned basis"]
    nl = gen.NL(case["nl"])
    A = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"])
    B = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"], diagonalize=True)
    return pair(case, A, B, L, L, case, case, eig, cond)


@st.composite
def basis_st(draw):
    c = dict(draw(gen.mat_system(nmin=2, nmax=4, znorm=(0.05, 1.2), units=True)))
    c["etd"] = dict(contour_points=64, contour_radius=8.0)
    c["P"] = [draw(vec(c["n"], -1, 1, c["cplx"])) for _ in range(c["n"])]
    c.update(solver=draw(pick(*FIXED)), steps=draw(ints(1, 4)), orth=draw(BOOL))
    return c


def check_basis(case):
    name, n, h = case["solver"], case["n"], case["h"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    P = carr(case["P"])
    P = np.eye(n) + (P if case["cplx"] else P.real) / n
    if case["orth"]:
        P = np.linalg.qr(P)[0]
    cond = float(np.linalg.cond(P))
    if cond > 20:
        return False, ["ill-conditioned basis"]
    Pi = np.linalg.inv(P)
    nl = gen.NL(case["nl"])
    L2 = P @ L @ Pi
    if float(np.max(np.sum(np.abs(h * L2), axis=0))) > 4:
        return False, ["outside the circle"]
    A = gen.make(name, L, nl, etd=case["etd"])
    B = gen.make(name, L2, lambda v: P @ nl(Pi @ v), etd=case["etd"])
    v = P @ u
    useful = 0
    tot = 0.0
    for i in range(case["steps"]):
        r = ref.ref_step(name, L, nl, u, h)
        if not np.isfinite(r.smax) or r.smax > 1e6 * case.get("us", 1.0):
            break
        ta, ok = cmp.step_tolerance(name, case, L, h, r, nl)
        tb, ok2 = cmp.step_tolerance(name, case, L2, h, r, nl)
        g = np.exp(min(float(np.linalg.norm(h * L, 2)) + h * nl.lip(r.smax), 50))
        tot = tot * g * cond + (float(np.max(ta)) + float(np.max(tb))) * cond**3 * n
        u, v = A.step(u, h), B.step(v, h)
        cmp.same(v, P @ u, np.full(n, tot), "%s step %d in another basis" % (name, i))
        if ok and tot < 1e-6 * r.smax and r.nmax * h > 1e-6 * r.smax:
            useful += 1
    return useful > 0, [name, "orthogonal" if case["orth"] else "general"]


@st.composite
def traj_st(draw):
    c = dict(draw(gen.evo_system("mat", nmax=3)))
    c["diagop"] = draw(BOOL)
    c["solver"] = draw(pick(*(MATRIX if c["diagop"] else EIGS)))
    c["cfg"] = draw(gen.solver_cfg((-7, -2)))
    c["steps"] = draw(ints(4, 20))
    return c


def check_traj(case):
    name = case["solver"]
    L, u0, T = gen.decode_L(case), gen.decode_u(case), case["T"]
    nl = gen.NL(case["nl"])
    if case["diagop"]:
        d = np.diag(L).copy()
        if np.max(np.abs(d)) * T > 4:
            return False, ["outside the circle"]
        forms = [(d, None), (np.diag(d), None)]
        L = np.diag(d)
    else:
        forms = [(L, None)]
    if name in EIGS and np.linalg.cond(L) < 1e8 and np.linalg.cond(np.linalg.eig(L)[1]) < 100:
        forms.append((L, True))
    if len(forms) < 2:
        return False, ["one form"]
    out = []
    for op, dg in forms:
        etd = {} if op.ndim == 1 or dg else case["etd"]
        s = gen.make(name, op, nl, cfg=case["cfg"], etd=etd, diagonalize=dg)
        try:
            v = s.evolve(u0, 0.0, T) if name in ADAPTIVE else s.evolve(u0, 0.0, T, T / case["steps"])
        except RuntimeError:
            return False, ["solver error"]
        out.append((v, np.array(s.t)))
    scale = max(float(np.max(np.abs(out[0][0]))), float(np.max(np.abs(u0))))
    same = True
    for v, t in out[1:]:
        if len(t) == len(out[0][1]) and np.allclose(t, out[0][1], rtol=0, atol=1e-5 * T):
            tol = 1e-6 * scale
        else:
            same = False
            require(abs(len(t) - len(out[0][1])) <= max(3, 0.1 * len(t)), "%s: the two forms need %d and %d steps", name, len(t) - 1, len(out[0][1]) - 1)
            tol = (1e-6 + 50 * len(t) * gen.full_cfg(case["cfg"])["epsilon"]) * scale
        d = float(np.max(np.abs(v - out[0][0])))
        require(d <= tol, "%s: trajectories of the two forms end %.3g apart (tolerance %.3g, same times: %s)", name, d, tol, same)
    return len(out[0][1]) > 3, [name, "same times" if same else "other times", "diagonal" if case["diagop"] else "full"]


FACETS = [
    Facet("vector-matrix", vec_mat(), check_vec_mat, quick=2600, shards=6, rule="vector against diagonal matrix (direct or diagonalized)"),
    Facet("matrix-diagonalized", mat_eig(), check_mat_eig, quick=1500, shards=4, rule="full matrix against diagonalize=True"),
    Facet("basis", basis_st(), check_basis, quick=900, shards=3, rule="fixed steps in another basis"),
    Facet("trajectory", traj_st(), check_traj, quick=500, shards=4, rule="whole evolutions in two or three forms"),
]

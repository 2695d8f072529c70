"""C06: linear problems, constant forcing and equilibria are solved exactly."""

import math
import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, ref
from ..core import Facet, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, carr, enc, ints, logu, num, pick, unif, vec

ETDS = ("ETD4", "ETD5", "ETD34", "ETD35")
EIGS = ("ETD34", "ETD35", "IF34")
MATRIX = tuple(x for x in ALL if x != "IF45DP")
CLD = np.clongdouble
EPS = ref.EPS
RULE = (
    "Generated operators (zero, tiny, moderate, stiff to |z|=3e4, oscillatory, mildly unstable; diagonal, full and "
    "diagonalized) with a zero nonlinear term, a constant forcing (ETD), or a nonlinear term built so that a generated "
    "state is an equilibrium (ETD); results of step() and evolve() are compared with the exact exponential in long "
    "double. Non-trivial: the state moves by more than 1e-6 relative (linear, forcing), or the two halves of the "
    "equilibrium balance exceed 1e-3 of the state."
)
ASSUMPTIONS = ["equilibria and forcing with full matrices: the contour circle encloses the spectrum of hL with a factor-two margin"]


def zero_nl(u):
    return np.zeros_like(u, dtype=float if not np.iscomplexobj(u) else complex)


def scaled(draw, c):
    """The same problem with time and state measured in other units."""
    ts = draw(pick(1e-9, 1.0, 1.0, 1.0, 1e3, 1e7, 1e10, 1e13))
    us = draw(pick(1.0, 1.0, 1.0, 1e-9, 1e-4, 1e5, 1e9))
    c.update(h=c["h"] * ts, L=enc(carr(c["L"]) / ts), u0=enc(carr(c["u0"]) * us))
    if ts < 1:
        c["cfg"] = dict(c["cfg"], minh=1e-16 * ts)
    return c


@st.composite
def linear_diag(draw):
    n = draw(ints(1, 6))
    cplx = draw(BOOL)
    etd = draw(gen.etd_cfg())
    h = draw(logu(-4, 1.5))
    realL = cplx and draw(ints(0, 3)) == 0
    z = [draw(gen.mode_z(etd.get("modecutoff", 0.01), not cplx or realL, 7.5)) for _ in range(n)]
    return scaled(draw, dict(
        realL=realL,
        kind="diag", n=n, cplx=cplx, h=h, L=[[float(w.real / h), float(w.imag / h)] for w in z], etd=etd,
        solver=draw(pick(*ALL)), u0=draw(vec(n, -2, 2, cplx)), force_complex=draw(BOOL),
        hf=draw(st.lists(pick(1.0, 1.0, 0.5, "s", 1.0 + 1e-12, 2.0), min_size=1, max_size=4)), cfg=draw(gen.solver_cfg((-12, 0), stubborn=True)),
    ))


def orthogonal(n, seedvec, cplx):
    A = carr(seedvec).reshape(n, n) + 2 * np.eye(n)
    if not cplx:
        A = A.real
    return np.linalg.qr(A)[0]


@st.composite
def linear_mat(draw):
    """Normal matrices with prescribed (possibly stiff) spectra, and small general ones."""
    n = draw(ints(1, 4))
    cplx = draw(BOOL)
    h = draw(logu(-3, 1))
    normal = draw(BOOL)
    realL = cplx and draw(ints(0, 3)) == 0
    lc = cplx and not realL
    if normal:
        z = np.array([draw(pick(0.0, 1.0, 1.0)) * draw(pick(-1.0, -1.0, 0.3)) * draw(logu(-3, 2.7)) for _ in range(n)])
        z = np.minimum(z, 2.0)
        if lc:
            z = z + 1j * np.array([draw(num(-20, 20)) for _ in range(n)])
        Q = orthogonal(n, [draw(vec(n * n, -1, 1, True))], lc)
        M = Q @ np.diag(z) @ Q.conj().T
    else:
        M = carr([draw(vec(n, -1, 1, lc)) for _ in range(n)])
        M = M if lc else M.real
    return scaled(draw, dict(
        realL=realL,
        kind="mat", n=n, cplx=cplx, h=h, L=enc(M / h), normal=normal, etd={}, solver=draw(pick(*MATRIX)),
        u0=draw(vec(n, -2, 2, cplx)), diagonalize=draw(BOOL), force_complex=draw(BOOL),
        hf=draw(st.lists(pick(1.0, 1.0, 0.5, "s"), min_size=1, max_size=3)), cfg=draw(gen.solver_cfg((-12, 0), stubborn=True)),
    ))


def expm_ld(A):
    """exp(A) in long double by scaling and squaring of a Taylor series."""
    A = np.asarray(A, dtype=CLD)
    nrm = float(np.max(np.sum(np.abs(A), axis=0)))
    k = max(0, int(math.ceil(math.log2(nrm))) + 4) if nrm > 0 else 0
    B = A / CLD(2) ** k
    T = E = np.eye(A.shape[0], dtype=CLD)
    for j in range(1, 20):
        T = T @ B / j
        E = E + T
    for _ in range(k):
        E = E @ E
    return E


def eigs(case, L):
    """(usable, condition) of the eigenbasis when the case diagonalizes."""
    if not (case.get("diagonalize") and case["solver"] in EIGS):
        return True, 1.0
    if np.linalg.cond(L) > 1e10:
        return False, 0.0
    c = float(np.linalg.cond(np.linalg.eig(L)[1]))
    return c < 1e3, c


def propagate(case, L, h, u):
    """Exact exp(hL)u and a tolerance."""
    if L.ndim == 1:
        z = np.asarray(L, dtype=CLD) * np.longdouble(h)
        E = np.exp(z)
        return E * u, 60 * EPS * (1 + np.abs(z).astype(float)) * np.abs(E * u).astype(float) + 1e-300
    z = np.asarray(L, dtype=CLD) * np.longdouble(h)
    if case.get("normal") and np.max(np.abs(z)) > 30:
        # exact through the (orthogonal) eigenbasis, refined in long double is not needed at this tolerance
        w, S = np.linalg.eig(h * L)
        E = (S * np.exp(w)) @ np.linalg.inv(S)
        cs = float(np.linalg.cond(S))
        if cs > 100:
            return None, None
    else:
        E, cs = expm_ld(z), 1.0
    nz = float(np.max(np.sum(np.abs(z), axis=0)))
    c = eigs(case, L)[1]
    # ||exp(sz)|| <= exp(sigma): logarithmic norm of the matrix
    sig = max(0.0, float(np.linalg.eigvalsh((np.asarray(h * L) + np.asarray(h * L).conj().T) / 2).max()))
    tol = 40 * EPS * (1 + nz) * math.exp(min(2 * sig, 300)) * max(cs, 1.0) ** 2 * c**2 * len(u) * float(np.max(np.abs(u)))
    return E @ np.asarray(u, dtype=CLD), np.full(len(u), tol + 1e-300)


def check_linear(case):
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    good, _ = eigs(case, L)
    if not good:
        return False, ["ill-conditioned basis"]
    s = gen.make(name, L, zero_nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case.get("diagonalize") or None)
    incr = gen.full_cfg(case["cfg"])["incr_f"]
    h, moved = case["h"], False
    for i, f in enumerate(case["hf"]):
        h = min(case["h"] * f if f != "s" else h, case["h"])
        want, tol = propagate(case, L, h, u)
        if want is None:
            return False, ["ill-conditioned basis"]
        if float(np.max(np.abs(want))) > 1e100:
            break
        if name in ADAPTIVE:
            un, hu, hs = s.step(u, h)
            require(hu == h, "%s step %d: a linear problem has no error, but h=%r was cut to %r", name, i, h, hu)
            require(abs(hs - 4 * h) <= 1e-12 * h or incr >= 4, "%s step %d: no error estimated, suggestion %r instead of growth from %r", name, i, hs, h)
            hn = hs
        else:
            un, hn = s.step(u, h), h
        cmp.same(un, want, tol, "%s linear step %d (h=%r)" % (name, i, h))
        moved |= bool(np.max(np.abs(want - u)) > 1e-6 * np.max(np.abs(u)))
        u, h = un, hn
    return moved, [name, case["kind"]] + (["normal stiff"] if case.get("normal") else []) + (["diagonalize"] if case.get("diagonalize") else [])


@st.composite
def linear_evolve(draw):
    c = dict(draw(st.one_of(linear_diag(), linear_diag(), linear_mat())))
    c["T"] = c["h"] * draw(pick(1.0, 1.7, 0.1))
    c["t0"] = draw(pick(0.0, 0.0, -1.0, 2.5)) * draw(pick(1.0, c["h"]))
    c["hi"] = draw(pick(None, 1.0, 0.1, 0.33, 2.0))
    c["nsteps"] = draw(ints(1, 7))
    c["u_zero"] = draw(ints(0, 9)) == 0
    return c


def check_evolve(case):
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    if case["u_zero"]:
        u = u * 0.0
    good, _ = eigs(case, L)
    if not good:
        return False, ["ill-conditioned basis"]
    s = gen.make(name, L, zero_nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case.get("diagonalize") or None)
    t0 = case["t0"]
    tf = t0 + case["T"]
    if name in ADAPTIVE:
        un = s.evolve(u, t0, tf, h_init=None if case["hi"] is None else case["hi"] * case["T"])
        k = len(s.t) + 3
        Te = tf - t0
        require(len(s.t) <= 14 or gen.full_cfg(case["cfg"])["incr_f"] >= 4, "%s: %d steps for a linear problem that has no error", name, len(s.t) - 1)
    else:
        k = case["nsteps"]
        h = (tf - t0) / k
        un = s.evolve(u, t0, tf, h)
        Te = tf - t0
    want, tol = propagate(case, L, Te, u)
    if want is None:
        return False, ["ill-conditioned basis"]
    if float(np.max(np.abs(want))) > 1e100:
        return False, ["huge"]
    # rounding of the interval itself
    dz = 4 * np.spacing(max(abs(t0), abs(tf))) * k * float(np.max(np.sum(np.abs(L), axis=0)) if L.ndim == 2 else 0.0)
    if L.ndim == 1:
        tol = tol * k + 4 * k * np.spacing(max(abs(t0), abs(tf))) * np.abs(L) * np.abs(want).astype(float)
    else:
        tol = tol * k + dz * float(np.max(np.abs(u))) * 10
    cmp.same(un, want, tol, "%s linear evolve to tf-t0=%r" % (name, Te))
    moved = bool(np.max(np.abs(want - u)) > 1e-6 * np.max(np.abs(u)))
    return moved or case["u_zero"], [name, case["kind"], "zero state" if case["u_zero"] else "state"]


@st.composite
def forced(draw, kind):
    """Constant forcing or an equilibrium of a coupled system, for the ETD solvers."""
    mode = draw(pick("forcing", "equilibrium"))
    kinds = ("const",) if mode == "forcing" else None
    what = draw(pick("mat", "mat", "eig")) if kind == "mat" else "diag"
    if kind == "diag":
        c = dict(draw(gen.diag_system(nmin=1, nmax=5, hlo=-3, hhi=0.0, kinds=kinds, units=True)))
    else:
        c = dict(draw(gen.mat_system(nmin=1, nmax=4, kinds=kinds, diagable=what == "eig", units=True)))
    c.update(mode=mode, solver=draw(pick(*ETDS)), diagonalize=what == "eig", steps=draw(ints(1, 4)), grow=draw(BOOL))
    return c


def check_forced(case):
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    good, cond = eigs(case, L)
    if not good:
        return False, ["ill-conditioned basis"]
    nl = gen.NL(case["nl"])
    if case["mode"] == "equilibrium":
        nl.c = None
        rest = nl(u)
        c = -(L * u if L.ndim == 1 else L @ u) - rest
        nl.c = c if np.iscomplexobj(c) or nl.real else c.astype(complex)
    if nl.c is None:
        return False, ["no forcing"]
    diagonalize = case["diagonalize"] and name in EIGS
    eig = np.linalg.eig(L)[0] if diagonalize else None
    h = case["h"]
    s = gen.make(name, L, nl, cfg=dict(epsilon=1e-2) if name in ADAPTIVE else None, etd=case["etd"], diagonalize=diagonalize or None)
    ce, grow = cmp.coef_err(name, case, L, h, eig, cond if diagonalize else 1.0)
    umax = float(np.max(np.abs(u)))
    c = np.abs(nl.c)
    z = h * L
    if L.ndim == 1:
        az = np.abs(z)
        amp = np.exp(np.minimum(np.maximum(z.real, 0), 50))
        cn = h * c / np.maximum(1.0, az)
    else:
        amp, cn = grow, np.full(len(u), h * float(np.max(c)))
    lip = nl.lip(umax)
    hl = h * lip * grow
    if hl > 3 or np.max(amp) > 1e3 or not umax > 0:
        return False, ["too unstable"]
    tol1 = 20 * (ce + 8 * EPS) * amp * (umax + cn) + 20 * float(np.max(ce + 8 * EPS)) * float(np.max(umax + cn)) * hl * (1 + hl) ** 5
    if not np.max(tol1) < 1e-6 * (umax + np.max(cn)):
        return False, ["loose"]
    v, tot = u, np.zeros(len(u))
    gain = float(np.max(amp)) * (1 + hl) ** 2
    steps = case["steps"]
    moved = False
    for i in range(steps):
        if name in ADAPTIVE:
            vn, hu, _ = s.step(v, h)
            require(hu == h, "%s step %d: %s leaves no error, but h=%r was cut to %r", name, i, case["mode"], h, hu)
        else:
            vn = s.step(v, h)
        if case["mode"] == "equilibrium":
            tot = tot * gain + tol1
            if i > 0:
                tot = np.full(len(u), float(np.max(tot)))
            cmp.same(vn, u, tot, "%s step %d from an equilibrium" % (name, i))
            if np.max(tot) > 1e-4:
                break
        else:
            want = exact_forced(L, h, v, nl.c)
            cmp.same(vn, want, tol1 * (1 + float(np.max(np.abs(v))) / umax), "%s step %d with constant forcing" % (name, i))
            moved |= bool(np.max(np.abs(want - v)) > 1e-6 * umax)
        v = vn
    if case["mode"] == "equilibrium":
        moved = bool(np.max(h * np.abs(L * u if L.ndim == 1 else L @ u)) > 1e-3 * umax)
    return moved, [name, case["mode"], "diagonalize" if diagonalize else case["kind"]]


def exact_forced(L, h, u, c):
    """exp(hL)u + h phi1(hL)c, from the augmented exponential in long double."""
    n = len(u)
    if L.ndim == 1:
        z = np.asarray(L, dtype=CLD) * np.longdouble(h)
        return np.exp(z) * u + np.longdouble(h) * ref.phi(1, z) * c
    A = np.zeros((n + 1, n + 1), dtype=CLD)
    A[:n, :n] = np.asarray(L, dtype=CLD) * np.longdouble(h)
    top = np.longdouble(float(np.max(np.abs(c))) * h or 1.0)  # units in which the forcing column is of order one
    A[:n, n] = np.asarray(c, dtype=CLD) * np.longdouble(h) / top
    return (expm_ld(A) @ np.append(np.asarray(u, dtype=CLD), top))[:n]


FACETS = [
    Facet("linear", linear_diag(), check_linear, quick=4000, shards=4, rule="1D operators, consecutive steps"),
    Facet("linear-matrix", linear_mat(), check_linear, quick=2000, shards=3, rule="full matrices incl. stiff normal ones, direct and diagonalized"),
    Facet("linear-evolve", linear_evolve(), check_evolve, quick=2500, shards=3, rule="evolve() over an interval, all solvers, zero states included"),
    Facet("forced", forced("diag"), check_forced, quick=3000, shards=4, rule="constant forcing and equilibria, 1D operators"),
    Facet("forced-matrix", forced("mat"), check_forced, quick=1200, shards=3, rule="constant forcing and equilibria, full matrices"),
]

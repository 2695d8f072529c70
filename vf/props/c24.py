"""C24: solved PDEs conserve what they should and all solvers agree."""

import math

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, ref, cmp
from ..core import Facet, require
from ..gen import BOOL, ints, pick

RULE = (
    "Generated smooth initial states, domains and parameters integrated through the public pipeline (grid, operators, solver, evolve) and "
    "compared with scipy's DOP853 at 1e-11 on this harness's own discretisation (interaction picture), with exact solutions (soliton, "
    "radial diffusion/diffraction of a Gaussian) and with the conservation laws. "
    "Non-trivial: the nonlinear term moved the state by at least 100 times the allowed difference."
)
ASSUMPTIONS = [
    "fixed steps small enough for the classical order of every method (h times the largest linear rate <= 1)",
    "conservation (of KdV mass too: the scheme's Nyquist mode turns complex) is required where the reference spectrum is resolved (tail below 1e-7)",
]


def fft_rhs(case, k, conservative=False):
    """This harness's own pseudo-spectral right-hand side (N only): u u_x, or (u^2)_x / 2, which differ by aliasing only."""
    n = case["n"]
    w = 6.0 if case["model"] == "kdv" else 1.0

    def N(v):
        if conservative:
            return -w / 2 * 1j * k * np.fft.rfft(np.fft.irfft(v, n) ** 2)
        u = np.fft.irfft(v, n)
        ux = np.fft.irfft(1j * k * v, n)
        return -w * np.fft.rfft(u * ux)

    return N


def reference(L, N, u0, T, rtol=1e-11):
    """u' = L u + N(u), diagonal L, by DOP853 on v = exp(-L t) u in restarts that keep exp(-L t) bounded."""
    from scipy.integrate import solve_ivp

    L = np.asarray(L, dtype=complex)
    u = np.asarray(u0, dtype=complex)
    rate = float(np.max(np.abs(L.real)))
    pieces = max(1, int(math.ceil(rate * T / 3.0)))
    dt = T / pieces
    scale = float(np.max(np.abs(u)))
    nev = 0
    for _ in range(pieces):
        def f(t, y):
            v = y[: u.size] + 1j * y[u.size :]
            e = np.exp(L * t)
            r = N(e * v) / e
            return np.concatenate([r.real, r.imag])

        s = solve_ivp(f, (0, dt), np.concatenate([u.real, u.imag]), method="DOP853", rtol=rtol, atol=rtol * 1e-2 * scale)
        nev += s.nfev
        if not s.success or nev > 30000:
            return None
        y = s.y[:, -1]
        u = np.exp(L * dt) * (y[: u.size] + 1j * y[u.size :])
        if not np.all(np.isfinite(u)):
            return None
    return u


@st.composite
def smooth_state(draw, n, top):
    return [[m, draw(gen.num(-1, 1)), draw(gen.num(-1, 1))] for m in range(draw(ints(0, 1)), top + 1)]


@st.composite
def pde_case(draw):
    model = draw(pick("kdv", "burgers"))
    n = 2 * draw(ints(6, 16))
    width = draw(st.one_of(pick(2 * math.pi), gen.num(4, 40)))
    terms = draw(smooth_state(n, draw(ints(1, 3))))
    return dict(model=model, n=n, a=draw(gen.num(-20, 5)), width=width, terms=terms, amp=draw(gen.num(0.2, 1.5)), mu=draw(gen.logu(-1.5, 0)),
                strength=draw(gen.unif(0.02, 0.5)), eps=draw(pick(1e-4, 1e-5, 1e-6)), steps=draw(ints(60, 160)), store=draw(pick(1, 1, 7)),
                solver=draw(pick(*env.ALL)), matrix=draw(ints(0, 5)) == 0,
                defcut=draw(ints(0, 3)) == 0)


@st.composite
def wide_case(draw):
    """Many more points than the tests use, with structure anywhere in the spectrum."""
    c = dict(draw(pde_case()))
    n = c["n"] = 2 * draw(st.one_of(ints(33, 150), ints(151, 640)))
    c["width"] = n * draw(gen.num(0.2, 1.0))
    top = draw(ints(3, n // 4))
    c["terms"] = [[draw(ints(0, top)), draw(gen.num(-1, 1)), draw(gen.num(-1, 1))] for _ in range(draw(ints(2, 5)))]
    c["kr"] = max(3, max(t[0] for t in c["terms"]))
    c["steps"] = draw(ints(20, 40))
    c["matrix"] = False
    c["store"] = 7
    return c


def setup(case):
    from rkstiff import grids, models

    n = case["n"]
    a, b = case["a"], case["a"] + case["width"]
    x, kx = grids.construct_x_kx_rfft(n, a, b)
    lin, nl = models.kdv_ops(kx) if case["model"] == "kdv" else models.burgers_ops(kx, case["mu"])
    th = 2 * math.pi * (x - a) / (b - a)
    u = sum(p * np.cos(m * th) + q * np.sin(m * th) for m, p, q in case["terms"])
    top = float(np.max(np.abs(u)))
    if top < 1e-3:
        return None
    u = case["amp"] * u / top
    # own wavenumbers and operator
    k = 2 * math.pi / (b - a) * np.arange(n // 2 + 1)
    own = 1j * k**3 if case["model"] == "kdv" else -case["mu"] * k**2
    return x, kx, lin, nl, u, k, own


def run(case, solver, L, nl, u0, T, h, eps, store=False, freq=1, etd=None):
    cfg = dict(epsilon=eps)
    if not case["defcut"]:
        cfg["adapt_cutoff"] = 1e-8
    s = gen.make(solver, L, nl, cfg=cfg, etd=etd)
    if solver in env.FIXED:
        out = s.evolve(u0.copy(), 0.0, T, h, store_data=store, store_freq=freq)
    else:
        out = s.evolve(u0.copy(), 0.0, T, h_init=h, store_data=store, store_freq=freq)
    return s, out


def energy(v, n):
    """integral-like sum of u^2 from an rFFT vector."""
    u = np.fft.irfft(v, n)
    return float(np.sum(u * u))


def check_pde(case):
    got = setup(case)
    if got is None:
        return False, ["flat"]
    x, kx, lin, nl, u, k, own = got
    n, model = case["n"], case["model"]
    # span: nonlinear rate * T ~ strength * something, linear rate * h <= 1 for fixed steps
    rate = (6 if model == "kdv" else 1) * case["amp"] * k[case.get("kr", 3)]
    T = case["strength"] / rate * 2
    lr = float(np.max(np.abs(own)))
    steps = max(case["steps"], int(math.ceil(2 * lr * T)))
    if steps > 1500:
        T, steps = 1500 / (2 * lr), 1500
    h = T / steps
    uf = np.fft.rfft(u)
    N = fft_rhs(case, k)
    want = reference(own, N, uf, T)
    other = reference(own, fft_rhs(case, k, True), uf, T)
    if want is None or other is None:
        return False, ["reference gave up"]
    scale = float(np.linalg.norm(uf))
    alias = 3 * float(np.linalg.norm(want - other))  # what the grid does not resolve is not the scheme's business
    name = case["solver"]
    mat = case["matrix"] and name != "IF45DP" and lr * h < 1.0
    if mat:
        lin = np.diag(lin)
    calls = [0]

    def counted(v):
        calls[0] += 1
        if calls[0] > 400000:
            raise gen.LongRun("more than 400000 evaluations")
        return nl(v)

    etd = dict(contour_points=64, contour_radius=4.0) if mat else None
    if mat and name not in env.FIXED and name.startswith("ETD"):
        mat, lin = False, np.diag(lin)  # adaptive steps may leave the contour circle
        etd = None
    s, out = run(case, name, lin, counted, uf, T, h, case["eps"], True, case["store"], etd)
    require(np.all(np.isfinite(out)), "%s: non-finite result", name)
    moved = float(np.linalg.norm(want - np.exp(own * T) * uf))
    if name in env.FIXED:
        tol = FIXTOL * scale
    else:
        tol = scale * (ADTOL * case["eps"] * max(len(s.t), calls[0] // 5) + 1e-9)
        if case["defcut"]:
            tol += 0.03 * scale  # modes below one percent of the largest are not controlled
    tol += alias
    diff = float(np.linalg.norm(out - want))
    cmp.STAT["max"] = max(cmp.STAT["max"], diff / tol)
    require(diff <= tol, "%s %s on %d points to T=%g: differs from the reference by %.3g (allowed %.3g)", model, name, n, T, diff, tol)
    # conservation
    tail = float(np.max(np.abs(want[n // 3 :] if "kr" in case else want[-2:]))) / scale  # scattered modes: products must not alias
    if model == "burgers" or tail < 1e-7:  # KdV rotates the Nyquist mode, which then feeds the mean
        dc = (1e-7 if mat else 1e-11) * scale + (0.03 * tol if model == "kdv" and name not in env.FIXED else 0.0)
        for t, v in zip(s.t, s.u):
            require(abs(v[0] - uf[0]) <= dc, "%s %s: mass drifts to %r from %r at t=%r", model, name, v[0], uf[0], t)
    if tail < 1e-7:
        e = [energy(v, n) for v in s.u] + [energy(out, n)]
        etol = 2 * e[0] * (tol / scale + 1e-7)
        if model == "kdv":
            require(abs(energy(out, n) - e[0]) <= etol, "KdV %s: momentum %r becomes %r", name, e[0], energy(out, n))
        else:
            for i in range(1, len(e)):
                require(e[i] <= e[i - 1] + etol, "Burgers %s: energy grows from %r to %r", name, e[i - 1], e[i])
            m0 = abs(uf[0]) ** 2 / n
            if e[0] - m0 > 0.05 * e[0] and case["mu"] * k[1] ** 2 * T > 10 * (tol / scale + 1e-7):
                require(e[-1] < e[0], "Burgers %s: no energy lost (%r to %r)", name, e[0], e[-1])
    labels = [model, name, "n>400" if n > 400 else "n<=400", "resolved tail" if tail < 1e-7 else "tail"]
    if mat:
        labels.append("matrix form")
    return moved > 100 * tol, labels


FIXTOL = 1e-6
ADTOL = 10.0


# ------------------------------------------------------------------ soliton
@st.composite
def sol_case(draw):
    return dict(a=draw(gen.num(0.4, 2.0)), pos=draw(gen.num(-0.3, 0.3)), off=draw(gen.num(-10, 10)), move=draw(gen.num(0.05, 0.6)), n=2 * draw(ints(40, 64)),
                solver=draw(pick(*env.ALL)), eps=draw(pick(1e-4, 1e-5, 1e-6)), t0=draw(pick(0.0, 0.0, 3.5, -2.0)))


def check_sol(case):
    from rkstiff import grids, models

    a = case["a"]
    W = 40 / a
    lo = case["off"] - W / 2
    x, kx = grids.construct_x_kx_rfft(case["n"], lo, lo + W)
    lin, nl = models.kdv_ops(kx)
    x0 = case["off"] + case["pos"] * W / 4
    T = case["move"] / a**3
    t0 = case["t0"]
    u0 = models.kdv_soliton(x, a, x0, t0) if t0 else models.kdv_soliton(x, a, x0)
    # re-centre so that the profile stays inside the box
    if t0:
        x0 = x0 - a * a * t0
        u0 = models.kdv_soliton(x, a, x0, t0)
    name = case["solver"]
    uf = np.fft.rfft(u0)
    nev = [0]

    def counted(v):
        nev[0] += 1
        if nev[0] > 400000:
            raise gen.LongRun("more than 400000 evaluations")
        return nl(v)

    s = gen.make(name, lin, counted, cfg=dict(epsilon=case["eps"]))
    if name in env.FIXED:
        out = s.evolve(uf, t0, t0 + T, T / 200, store_data=False)
        tol = 1e-6
    else:
        out = s.evolve(uf, t0, t0 + T, h_init=T / 50, store_data=False)
        tol = 5 * case["eps"] * max(10, nev[0] / 5) + 1e-6
    u = np.fft.irfft(out, case["n"])
    th = np.abs(a * (x - x0 - a * a * (t0 + T)))
    want = 2 * a * a * np.exp(-th) / (1 + np.exp(-th)) ** 2
    d = float(np.max(np.abs(u - want))) / (a * a / 2)
    cmp.STAT["max"] = max(cmp.STAT["max"], d / tol)
    require(d <= tol, "%s: soliton a=%r after T=%r differs from the exact one by %.3g of its height (allowed %.3g)", name, a, T, d, tol)
    moved = float(np.max(np.abs(u - u0))) / (a * a / 2)
    return moved > 100 * tol, [name]


# ------------------------------------------------------------------ Allen-Cahn (full matrices)
@st.composite
def ac_case(draw):
    n = draw(st.one_of(ints(6, 14), ints(15, 28)))
    return dict(n=n, eps=draw(gen.logu(-3, -1)), co=[draw(gen.num(-1, 1)) for _ in range(4)], T=draw(gen.num(0.1, 1.5)), tol=draw(pick(1e-4, 1e-5, 1e-6)),
                solver=draw(pick("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34")), diagonalize=draw(BOOL))


def check_ac(case):
    from rkstiff import grids, models
    from scipy.integrate import solve_ivp

    n, e = case["n"], case["eps"]
    x, d = grids.construct_x_dx_cheb(n)
    lin, nl = models.allen_cahn_ops(x, d, e)
    xi = x[1:-1]
    w0 = 0.5 * (1 - xi**2) * np.polynomial.polynomial.polyval(xi, case["co"])
    # own second-derivative matrix from barycentric Lagrange interpolation
    j = np.arange(n + 1)
    xo = -np.cos(np.pi * j / n)
    wt = (-1.0) ** j
    wt[0] /= 2
    wt[-1] /= 2
    D1 = np.zeros((n + 1, n + 1))
    for r in range(n + 1):
        for c in range(n + 1):
            if r != c:
                D1[r, c] = wt[c] / wt[r] / (xo[r] - xo[c])
        D1[r, r] = -np.sum(D1[r])
    L2 = e * (D1 @ D1)[1:-1, 1:-1]
    xin = xo[1:-1]

    def f(t, w):
        u = w + xin
        return L2 @ w + u - u**3

    norm = float(np.max(np.sum(np.abs(L2), axis=0)))
    T = min(case["T"], 40.0 / (norm + 1))
    sol = solve_ivp(f, (0, T), w0, method="DOP853", rtol=1e-11, atol=1e-13)
    want = sol.y[:, -1]
    name = case["solver"]
    h = T / 100
    rad = max(2.0, 2.0 * h * norm)
    calls = [0]

    def counted(v):
        calls[0] += 1
        if calls[0] > 200000:
            raise gen.LongRun("more than 200000 evaluations")
        return nl(v)

    diag = case["diagonalize"] and name in ("ETD34", "ETD35", "IF34")
    if name in ("ETD34", "ETD35") and not diag:
        # adaptive steps are only covered by the contour while ||hL|| stays inside it
        rad = max(4.0, 1.6 * T * (norm + 1))
        if rad > 8:
            return False, ["contour too small"]
    etd = dict(contour_points=64, contour_radius=rad)
    s = gen.make(name, lin, counted, cfg=dict(epsilon=case["tol"]), etd=etd, diagonalize=diag or None)
    if name in env.FIXED:
        out = s.evolve(w0.astype(complex), 0.0, T, h, store_data=False)
        tol = 3e-8
    else:
        out = s.evolve(w0.astype(complex), 0.0, T, h_init=h, store_data=False)
        tol = 2 * case["tol"] * max(10, calls[0] / 5) + 1e-7
    require(float(np.max(np.abs(out.imag))) <= 1e-9, "%s: real field acquires an imaginary part of %g", name, float(np.max(np.abs(out.imag))))
    diff = float(np.linalg.norm(out - want))
    scale = float(np.linalg.norm(np.abs(w0) + 0.1))
    cmp.STAT["max"] = max(cmp.STAT["max"], diff / (tol * scale))
    require(diff <= tol * scale, "Allen-Cahn %s n=%d eps=%g to T=%g: differs from the reference by %.3g (allowed %.3g)", name, n, e, T, diff, tol * scale)
    return float(np.linalg.norm(want - w0)) > 20 * tol * scale, [name, "diagonalized" if diag else "matrix"]


# ------------------------------------------------------------------ radial diffusion / diffraction
@st.composite
def radial_case(draw):
    return dict(nr=draw(ints(40, 90)), rmax=draw(gen.logu(-1, 1)), spread=draw(gen.num(0.05, 1.0)), ang=draw(gen.num(-0.5, 0.5)), t0=draw(gen.num(-2, 2)),
                solver=draw(pick(*env.ALL)), steps=draw(ints(1, 5)), pot=draw(gen.num(-1, 1)))


def check_radial(case):
    """u_t = D Lap u + c u with the Hankel transform: Gaussians stay Gaussian. The term c u is handled as 'nonlinear'."""
    from rkstiff import transforms

    t = transforms.HankelTransform(case["nr"], case["rmax"])
    r, kr = t.r, t.kr
    D = np.exp(1j * np.pi * case["ang"])
    a = 40.0 / case["rmax"] ** 2
    T = case["spread"] / (4 * a)  # 1 + 4 a D T stays within (1, 2]
    f = np.exp(-a * r**2)
    uf = t.ht(f).astype(complex)
    c = case["pot"] * 0.05 / T
    name = case["solver"]
    calls = [0]

    def nl(v):
        calls[0] += 1
        if calls[0] > 100000:
            raise gen.LongRun("more than 100000 evaluations")
        return c * v

    s = gen.make(name, -D * kr**2, nl, cfg=dict(epsilon=1e-7))
    t0 = case["t0"]
    if name in env.FIXED:
        out = s.evolve(uf, t0, t0 + T, T / (case["steps"] * 4), store_data=False)
    else:
        out = s.evolve(uf, t0, t0 + T, store_data=False)
    got = t.iht(out)
    g = 1 + 4 * a * D * T
    want = np.exp(c * T) / g * np.exp(-a * r**2 / g)
    # the Gaussian must still have decayed at the rim, and the time be representable relative to t0
    edge = abs(np.exp(-a * case["rmax"] ** 2 / g))
    tol = 1e-6 + 50 * edge + 100 * 1e-16 * abs(t0) / T
    if name not in env.FIXED:
        tol += 20 * 1e-7 * max(10, calls[0] / 5)
    if T < 1e-9 * max(1.0, abs(t0)):
        return False, ["span too short"]
    d = float(np.max(np.abs(got - want)))
    cmp.STAT["max"] = max(cmp.STAT["max"], d / tol)
    require(d <= tol, "%s: radial Gaussian differs from the exact one by %.3g (allowed %.3g)", name, d, tol)
    return float(np.max(np.abs(want - f))) > 100 * tol, [name]


FACETS = [
    Facet("pde", pde_case(), check_pde, quick=900, thorough=12000, shards=4, rule="KdV and Burgers: reference, mass, momentum/energy"),
    Facet("wide", wide_case(), check_pde, quick=1000, thorough=12000, shards=3, rule="KdV and Burgers on 66 to 1280 points, structure anywhere in the spectrum"),
    Facet("soliton", sol_case(), check_sol, quick=500, thorough=8000, shards=2, rule="the KdV soliton travels unchanged"),
    Facet("allen-cahn", ac_case(), check_ac, quick=600, thorough=8000, shards=2, rule="full-matrix Allen-Cahn against the reference"),
    Facet("radial", radial_case(), check_radial, quick=500, thorough=10000, shards=2, rule="Hankel pipeline: diffusion and diffraction of a Gaussian"),
]

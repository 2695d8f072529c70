"""Hypothesis strategies that build JSON-serialisable cases, and their decoders."""

from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from .core import LongRun, Runaway


# ----------------------------------------------------------------- scalars
def _milli(i):
    return i / 1000


def _ten(e):
    return float("%.6g" % 10.0**e)


def _real(x):
    return [x, 0.0]


@lru_cache(None)
def num(lo, hi):
    """A float in [lo, hi] on a decimal grid, so that failures shrink well."""
    return st.integers(int(np.ceil(lo * 1000)), int(np.floor(hi * 1000))).map(_milli)


@lru_cache(None)
def logu(lo, hi):
    """A positive float, log-uniform in [10**lo, 10**hi]."""
    return st.floats(lo, hi).map(_ten)


@lru_cache(None)
def ints(lo, hi):
    return st.integers(lo, hi)


@lru_cache(None, typed=True)
def _pick(*xs):
    return st.sampled_from(xs)


def pick(*xs):
    try:
        return _pick(*xs)
    except TypeError:  # unhashable choices
        return st.sampled_from(xs)


@lru_cache(None)
def unif(lo, hi):
    return st.floats(lo, hi)


@lru_cache(None)
def intlist(n, lo, hi):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


BOOL = st.booleans()


@lru_cache(None)
def vec(n, lo=-2.0, hi=2.0, cplx=True):
    x = num(lo, hi)
    if cplx:
        return st.lists(st.tuples(x, x).map(list), min_size=n, max_size=n)
    return st.lists(x.map(_real), min_size=n, max_size=n)


def carr(x):
    """[[re, im], ...] (any depth) -> complex array."""
    a = np.array(x, dtype=float)
    return (a[..., 0] + 1j * a[..., 1]).copy()


def enc(a):
    a = np.asarray(a, dtype=complex)
    return np.stack([a.real, a.imag], axis=-1).tolist()


# ----------------------------------------------------------------- nonlinear terms
@lru_cache(None)
@st.composite
def nl_spec(draw, n, cplx=True, size=1.5, kinds=None):
    """N(u) = c + M u + q * u[p] * u[r] + k * u**3, each part optional."""
    kind = draw(pick(*(kinds or ("full", "full", "full", "quad", "cubic", "linear", "const"))))
    d = {}
    v = lambda: draw(vec(n, -size, size, cplx))  # noqa: E731
    if kind in ("full", "const", "quad") and draw(BOOL) or kind == "const":
        d["c"] = v()
    if kind in ("linear",) or (kind == "full" and draw(BOOL)):
        d["M"] = [draw(vec(n, -size, size, cplx)) for _ in range(n)]
    if kind in ("full", "quad"):
        d["q"] = v()
        d["p"] = draw(intlist(n, 0, n - 1))
        d["r"] = draw(intlist(n, 0, n - 1))
    if kind == "cubic" or (kind == "full" and draw(ints(0, 2)) == 0):
        d["k"] = v()
    return d


class NL:
    """Callable nonlinear term with a deterministic evaluation budget."""

    def __init__(self, d, budget=200000, strict=False):
        self.c = carr(d["c"]) if "c" in d else None
        self.M = carr(d["M"]) if "M" in d else None
        self.q = carr(d["q"]) if "q" in d else None
        self.k = carr(d["k"]) if "k" in d else None
        self.p = d.get("p")
        self.r = d.get("r")
        self.calls, self.budget, self.strict = 0, budget, strict
        self.real = all(x is None or not np.any(x.imag) for x in (self.c, self.M, self.q, self.k))
        if self.real:
            for nme in ("c", "M", "q", "k"):
                if getattr(self, nme) is not None:
                    setattr(self, nme, getattr(self, nme).real.copy())

    def __call__(self, u):
        self.calls += 1
        if self.calls > self.budget:
            raise (Runaway if self.strict else LongRun)("nonlinear term evaluated more than %d times" % self.budget)
        out = np.zeros_like(u) if np.iscomplexobj(u) or self.real else np.zeros(u.shape, dtype=complex)
        if out.dtype.kind in "iu":
            out = out.astype(float)
        if self.c is not None:
            out = out + self.c
        if self.M is not None:
            out = out + self.M @ u
        if self.q is not None:
            out = out + self.q * u[self.p] * u[self.r]
        if self.k is not None:
            out = out + self.k * u * u * u
        return out

    def lip(self, m):
        """A bound on |dN_i| / max|du| for states of magnitude <= m."""
        t = 0.0
        if self.M is not None:
            t += float(np.max(np.sum(np.abs(self.M), axis=1)))
        if self.q is not None:
            t += 2 * float(np.max(np.abs(self.q))) * m
        if self.k is not None:
            t += 3 * float(np.max(np.abs(self.k))) * m * m
        return t


def nl_size(h):
    """Coefficient range for the nonlinear term: keep h * Lipschitz moderate."""
    return 1.5 if h <= 0.33 else 0.5


@st.composite
def in_units(draw, c):
    """The same system with time and state measured in other units (one case in three)."""
    if draw(ints(0, 2)) > 0:
        return c
    ts = draw(pick(1e-12, 1e-9, 1e-6, 1.0, 1.0, 1e3, 1e7, 1e13))
    us = draw(pick(1e-9, 1e-4, 1.0, 1.0, 1e5, 1e9))
    c = dict(c, h=c["h"] * ts, L=enc(carr(c["L"]) / ts), u0=enc(carr(c["u0"]) * us), us=us, ts=ts)
    d = dict(c["nl"])
    for k, f in (("c", us / ts), ("M", 1 / ts), ("q", 1 / ts / us), ("k", 1 / ts / us**2)):
        if k in d:
            d[k] = enc(carr(d[k]) * f)
    c["nl"] = d
    return c


# ----------------------------------------------------------------- spectra
@lru_cache(None)
@st.composite
def mode_z(draw, cutoff=0.01, real=False, stiff=True):
    """z = h*lambda for one mode, over every regime the coefficients distinguish. stiff: decades reached (True: 4.5)."""
    top = 4.5 if stiff is True else float(stiff)
    kinds = ("zero", "tiny", "cut", "mid", "mid", "mid") + (("stiff", "imag") if stiff else ())
    k = draw(pick(*kinds))
    if k == "zero":
        return 0j
    if k == "tiny":
        m = draw(logu(-14, -2.2))
    elif k == "cut":
        m = cutoff * draw(pick(0.5, 0.9, 0.999, 1.001, 1.1, 2.0, 4.0))
    elif k == "mid":
        m = draw(unif(0.02, 3.0))
    elif k == "stiff":
        return -draw(logu(0.5, top)) + (0j if real else 1j * draw(num(-3, 3)))
    else:
        m = draw(logu(0.0, top - 0.5))
        if real:
            return complex(-m)
        return 1j * m * draw(pick(1, -1))
    if real:
        return complex(m * draw(pick(-1, 1, -1)))
    ang = draw(pick(0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, None, "near"))
    if ang is None:
        ang = draw(unif(0, 2))
    elif ang == "near":  # nearly real or nearly imaginary
        ang = draw(pick(0.0, 1.0, 0.5, 1.5)) + draw(pick(-1, 1)) * draw(logu(-13, -1.5))
    return complex(m * np.exp(1j * np.pi * ang))


@lru_cache(None)
@st.composite
def etd_cfg(draw, matrix=None):
    """ETDConfig keyword arguments. matrix=||hL|| asks for a circle that encloses it."""
    if matrix is not None:
        rad = max(1.0, matrix * draw(unif(2.0, 3.0)))
        rad = float("%.4g" % rad)
        npts = draw(pick(*((32, 48, 64) if rad <= 4 else (64, 80))))
        return dict(contour_points=npts, contour_radius=rad)
    if draw(ints(0, 2)) == 0:
        return {}
    return dict(
        modecutoff=draw(pick(0.01, 0.001, 0.05, 0.1, 0.3)),
        contour_points=draw(pick(16, 24, 31, 32, 33, 64)),
        contour_radius=draw(pick(0.6, 1.0, 1.0, 1.5, 2.0)),
    )


@lru_cache(None)
@st.composite
def diag_system(draw, nmin=1, nmax=5, cplx=None, stiff=True, cfg=True, hlo=-3.0, hhi=0.0, kinds=None, umax=1.5, units=False):
    n = draw(ints(nmin, nmax))
    if cplx is None:
        cplx = draw(BOOL)
    ec = draw(etd_cfg()) if cfg else {}
    h = draw(logu(hlo, hhi))
    cut = ec.get("modecutoff", 0.01)
    realL = cplx and draw(ints(0, 3)) == 0  # a real operator acting on complex states
    z = [draw(mode_z(cut, not cplx or realL, stiff)) for _ in range(n)]
    L = [[float(w.real / h), float(w.imag / h)] for w in z]
    # keep h * Lipschitz moderate so that single steps are meaningful
    size = nl_size(h)
    c = dict(
        kind="diag",
        n=n,
        h=h,
        L=L,
        cplx=cplx,
        etd=ec,
        nl=draw(nl_spec(n, cplx, size, kinds)),
        u0=draw(vec(n, -umax, umax, cplx)),
    )
    if realL:
        c["realL"] = True
    return draw(in_units(c)) if units else c


# the first six are normal: their eigenbases are well conditioned, even with repeated eigenvalues
FAMILIES = ("hermitian", "circulant", "ones", "laplace", "periodic", "skew", "triangular", "blocks", "nilpotent", "symmetric", "integer")


def structured(family, M, shift):
    """A member of a matrix family, built from the entries of M, moved left by shift."""
    n = len(M)
    if family == "hermitian":
        M = (M + M.conj().T) / 2
    elif family == "symmetric":
        M = (M + M.T) / 2
    elif family == "skew":
        M = (M - M.conj().T) / 2
    elif family == "circulant":
        M = np.array([[M[0, (j - i) % n] for j in range(n)] for i in range(n)])
    elif family == "ones":
        M = np.ones((n, n)) * M[0, 0]
    elif family in ("laplace", "periodic"):
        A = -2 * np.eye(n) + np.eye(n, k=1) + np.eye(n, k=-1)
        if family == "periodic" and n > 2:
            A[0, -1] = A[-1, 0] = 1
        M = A * (M[0, 0].real + 1.25)
    elif family == "triangular":
        M = np.triu(M)
    elif family == "blocks":
        k = n // 2
        M = M.copy()
        M[:k, k:] = M[k:, :k] = 0
    elif family == "nilpotent":
        M = np.diag(np.diag(M, 1), 1) if n > 1 else M
    else:
        M = np.round(2 * M.real) + 1j * np.round(2 * M.imag)
    return M - shift * np.eye(n)


@lru_cache(None)
@st.composite
def mat_system(draw, nmin=1, nmax=4, cplx=None, znorm=(0.01, 3.0), hlo=-3.0, hhi=0.0, kinds=None, umax=1.5, diagable=False, units=False):
    n = draw(ints(nmin, nmax))
    if cplx is None:
        cplx = draw(BOOL)
    h = draw(logu(hlo, hhi))
    target = draw(unif(*znorm))
    realL = cplx and draw(ints(0, 3)) == 0
    lc = cplx and not realL
    M = carr([draw(vec(n, -1, 1, lc)) for _ in range(n)])
    family = draw(pick("any", "any", *(FAMILIES[:6] if diagable else FAMILIES)))
    if family != "any":
        M = structured(family, M, draw(pick(0.0, 0.5, 2.0, 3.0)))
        M = M if lc else M.real
    elif diagable:
        # well-separated eigenvalues and a well-conditioned eigenbasis
        S = np.eye(n) + 0.3 / n * M
        d = np.array([draw(num(-1.0, 0.25)) for _ in range(n)]) + 0.35 * np.arange(1, n + 1)
        if lc:
            d = d + 1j * np.array([draw(num(-1, 1)) for _ in range(n)])
        d = -d
        M = S @ np.diag(d) @ np.linalg.inv(S)
        if not lc:
            M = M.real
    nrm = float(np.max(np.sum(np.abs(M), axis=0)))
    if nrm > 0:
        M = M * (target / nrm)
    zn = float(np.max(np.sum(np.abs(M), axis=0)))
    size = nl_size(h)
    c = dict(
        kind="mat",
        n=n,
        h=h,
        L=enc(M / h),
        znorm=zn,
        cplx=cplx,
        etd=draw(etd_cfg(matrix=float('%.2g' % (zn * 1.05)))),
        nl=draw(nl_spec(n, cplx, size, kinds)),
        u0=draw(vec(n, -umax, umax, cplx)),
    )
    if realL:
        c["realL"] = True
    return draw(in_units(c)) if units else c


def decode_L(case):
    L = carr(case["L"])
    if not case["cplx"] or case.get("realL"):
        L = L.real.copy()
    return L


def decode_u(case, key="u0"):
    u = carr(case[key])
    if not case["cplx"] and not case.get("force_complex"):
        u = u.real.copy()
    return u


# ----------------------------------------------------------------- configs
@lru_cache(None)
@st.composite
def solver_cfg(draw, eps=(-8, -1), stubborn=False):
    """stubborn adds an increase threshold above the growth cap: such steps never grow, so it is not for whole runs."""
    if draw(ints(0, 3)) == 0:
        return dict(epsilon=draw(logu(*eps)))
    return dict(
        epsilon=draw(logu(*eps)),
        incr_f=draw(pick(1.01, 1.1, 1.25, 1.25, 1.5, 2.0, 3.0, *([4.5] if stubborn else []))),
        decr_f=draw(pick(0.05, 0.2, 0.3, 0.5, 0.7, 0.85, 0.85, 0.99)),
        safety_f=draw(pick(0.2, 0.5, 0.7, 0.8, 0.8, 0.9, 1.0)),
        adapt_cutoff=draw(pick(0.0, 1e-10, 1e-6, 1e-3, 0.01, 0.01, 0.1, 0.3, 0.8)),
    )


@st.composite
def loose_cfg(draw, eps, **kw):
    """solver_cfg, with a tolerance so large in one case in three that every finite step is accepted."""
    c = dict(draw(solver_cfg(eps, **kw)))
    if draw(ints(0, 2)) == 0:
        c["epsilon"] = draw(pick(1e3, 1e6, 1e9))
    return c


DEFCFG = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)


def full_cfg(d):
    c = dict(DEFCFG)
    c.update(d)
    return c


def make(name, L, nl, cfg=None, etd=None, diagonalize=None, loglevel=None):
    """Construct a solver through the public constructor."""
    from .env import solver_class
    from rkstiff.solveras import SolverConfig
    from rkstiff.etd import ETDConfig

    kw = {}
    if cfg is not None and name in ("ETD34", "ETD35", "IF34", "IF45DP"):
        kw["config"] = SolverConfig(**cfg)
    if etd and name.startswith("ETD"):
        kw["etd_config"] = ETDConfig(**etd)
    if diagonalize is not None and name in ("ETD34", "ETD35", "IF34"):
        kw["diagonalize"] = diagonalize
    if loglevel is not None:
        kw["loglevel"] = loglevel
    return solver_class(name)(L, nl, **kw)


# ----------------------------------------------------------------- evolutions
@lru_cache(None)
@st.composite
def evo_system(draw, kind="diag", cplx=None, nmax=4, stiff=True, kinds=None, nlT=0.8, units=False):
    """A system and a time span T over which it stays tame: |N'| T <~ nlT, Re(L) T <= 0.5.

    With units, one case in three measures time or the state in other units.
    """
    n = draw(ints(1, nmax))
    if cplx is None:
        cplx = draw(BOOL)
    other = units and draw(ints(0, 2)) == 0
    realL = cplx and draw(ints(0, 3)) == 0
    lc = cplx and not realL
    T = draw(logu(-9, 8) if other else logu(-2, 1.3))

    def rate():
        k = draw(pick(*(("zero", "mid", "mid", "grow", "osc") + (("stiff",) if stiff else ()))))
        im = draw(num(-6, 6)) if lc and k in ("mid", "osc") else 0.0
        if k == "zero":
            return 0j
        if k == "mid":
            return complex(-draw(unif(0.01, 5.0)), im)
        if k == "grow":
            return complex(draw(unif(0.0, 0.5)))
        if k == "osc":
            return complex(0.0 if lc else -draw(unif(0.0, 1.0)), im)
        return complex(-draw(logu(1, 4)))

    w = [rate() for _ in range(n)]
    w = np.array([complex(float("%.6g" % x.real), float("%.6g" % x.imag)) for x in w])
    c = dict(kind=kind, n=n, cplx=cplx, T=T, etd={})
    if realL:
        c["realL"] = True
    if kind == "diag":
        c["L"] = enc(w / T)
        c["etd"] = draw(etd_cfg())
    else:
        # bounded spectrum so that the contour circle can enclose it for every step size
        w = w / max(1.0, float(np.max(np.abs(w))) / 2.5)
        w = w - 0.2 * np.arange(n)
        S = np.eye(n) + 0.3 / n * carr([draw(vec(n, -1, 1, lc)) for _ in range(n)])
        if not lc:
            S, w = S.real, w.real
        c["L"] = enc(S @ np.diag(w) @ np.linalg.inv(S) / T)
        c["etd"] = dict(contour_points=64, contour_radius=8.0)
    c["nl"] = draw(nl_spec(n, cplx, 1.0, kinds))
    c["u0"] = draw(vec(n, -1.2, 1.2, cplx))
    # scale the nonlinear term
    lip = NL(c["nl"]).lip(2.0) + (2.0 * float(np.max(np.abs(carr(c["nl"]["c"])))) if "c" in c["nl"] else 0.0)
    if lip * T > nlT or (other and lip > 0):
        f = float("%.4g" % (nlT / (lip * T)))
        for k in ("c", "M", "q", "k"):
            if k in c["nl"]:
                c["nl"][k] = enc(carr(c["nl"][k]) * f)
    if other:
        us = draw(pick(1e-9, 1e-4, 1.0, 1.0, 1e5, 1e9))
        c.update(us=us, u0=enc(carr(c["u0"]) * us))
        for k, f in (("c", us), ("q", 1 / us), ("k", 1 / us**2)):
            if k in c["nl"]:
                c["nl"][k] = enc(carr(c["nl"][k]) * f)
    return c


# ----------------------------------------------------------------- many modes
WIDE_N = (16, 31, 32, 33, 64, 100, 128, 129, 256, 257, 301, 400, 512, 513, 1000, 1024, 1025, 2049, 4097)


@lru_cache(None)
@st.composite
def wide_system(draw, kind="diag", nmax=256, hlo=-3.0, hhi=0.0):
    """A system of many modes, given by its size, regime and a seed (see expand)."""
    n = draw(st.one_of(ints(6, min(nmax, 40)), ints(6, min(nmax, 256)), pick(*[k for k in WIDE_N if k <= nmax])))
    c = dict(kind=kind, n=n, cplx=draw(BOOL), h=draw(logu(hlo, hhi)), seed=draw(ints(0, 10**6)))
    c["regime"] = draw(pick("mixed", "mixed", "ladder", "small", "one small", "repeated", "one big"))
    c["profile"] = draw(pick("flat", "flat", "decaying", "sparse"))
    if c["cplx"] and draw(ints(0, 3)) == 0:
        c["realL"] = True
    if kind == "diag":
        c["etd"] = draw(etd_cfg())
    else:
        c["zt"] = draw(unif(0.05, 2.5))
        c["etd"] = dict(contour_points=draw(pick(64, 80)), contour_radius=float("%.4g" % max(1.0, c["zt"] * draw(unif(2.0, 3.0)))))
    return c


def expand(case):
    """Fill in L, nl and u0 of a wide_system case (deterministic in the case)."""
    n, cplx, h = case["n"], case["cplx"], case["h"]
    g = np.random.default_rng(case["seed"])
    num_ = lambda *sh: g.uniform(-1, 1, sh) + (1j * g.uniform(-1, 1, sh) if cplx else 0)  # noqa: E731
    c = dict(case)
    lc = cplx and not case.get("realL")
    if case["kind"] == "diag":
        cut = case["etd"].get("modecutoff", 0.01)
        ang = np.exp(1j * np.pi * g.uniform(0, 2, n)) if lc else g.choice([-1.0, -1.0, 1.0], n)
        small = g.uniform(0, 0.95, n) ** 3 * cut * ang
        small[g.uniform(size=n) < 0.2] = 0
        mid = g.uniform(1.05 * cut, 3.0, n) * ang
        stiff = -(10.0 ** g.uniform(0.3, 4.0, n)) + (1j * g.uniform(-3, 3, n) if lc else 0)
        r = case["regime"]
        if r == "mixed":
            w = g.integers(0, 3, n)
            z = np.where(w == 0, small, np.where(w == 1, mid, stiff))
        elif r == "ladder":
            k = np.arange(n)
            z = -(k**2) * (10.0 ** g.uniform(-4, 0.5)) + (0.1j * k if lc else 0)
        elif r == "small":
            z = small
        elif r == "repeated":
            base = np.where(g.integers(0, 2, 4) == 0, small[:4], mid[:4])
            z = base[g.integers(0, 4, n)]
        else:
            z = (mid if r == "one small" else small).copy()
            z[g.integers(n)] = (small if r == "one small" else mid)[0]
        c["L"] = enc(z / h)
    else:
        M = num_(n, n) if lc or not cplx else num_(n, n).real
        if case["regime"] in ("ladder", "repeated"):  # banded
            M = np.triu(np.tril(M, 1), -1)
        elif case["regime"] == "one big":  # triangular
            M = np.triu(M)
        nrm = float(np.max(np.sum(np.abs(M), axis=0)))
        c["L"] = enc(M * (case["zt"] / nrm / h))
        c["znorm"] = case["zt"]
    s = nl_size(h)
    d = {}
    if g.uniform() < 0.6:
        d["c"] = enc(s * num_(n))
    if g.uniform() < 0.8 or not d:
        d.update(q=enc(s * num_(n)), p=g.integers(0, n, n).tolist(), r=g.integers(0, n, n).tolist())
    if g.uniform() < 0.3:
        d["k"] = enc(s * num_(n))
    c["nl"] = d
    u = 1.5 * num_(n)
    if case["profile"] == "decaying":
        u = u * np.exp(-12.0 * np.arange(n) / n)
    elif case["profile"] == "sparse":
        u = np.where(g.uniform(size=n) < 0.8, 0, u)
    c["u0"] = enc(u)
    return c


@lru_cache(None)
@st.composite
def history(draw, system, words, nmin=9, nmax=50):
    """A small system stepped many times through a palette of step sizes."""
    c = dict(draw(system))
    pal = draw(st.lists(st.one_of(pick(*words), num(0.2, 1.0)), min_size=2, max_size=14))
    c["hf"] = [pal[i % len(pal)] for i in draw(st.lists(st.integers(0, 13), min_size=nmin, max_size=nmax))]
    c["reset_at"] = draw(pick(None, None, 5, 20))
    c["damped"] = draw(ints(0, 3)) > 0
    return c


def damp(case):
    """Move the spectrum of a drawn diagonal system into the left half-plane."""
    if case.get("damped") and case["kind"] == "diag":
        L = carr(case["L"])
        return dict(case, L=enc(-np.abs(L.real) + 1j * L.imag))
    return case

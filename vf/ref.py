"""Independent reference models, evaluated in extended precision (x87 long double).

Nothing in here looks at the implementation: the schemes are transcribed from the
literature as tableaux over phi functions and evaluated by one generic engine.
"""

import math
from functools import lru_cache

import numpy as np

LD = np.longdouble
CLD = np.clongdouble
EPS = float(np.finfo(float).eps)
LEPS = float(np.finfo(LD).eps)


RFACT = [LD(1) / LD(math.factorial(j)) for j in range(60)]


# ----------------------------------------------------------------- phi functions
def phi(k, z):
    """phi_k(z) = int_0^1 e^{(1-s)z} s^{k-1}/(k-1)! ds  (phi_0 = exp), elementwise."""
    z = np.asarray(z, dtype=CLD)
    if k == 0:
        return np.exp(z)
    small = np.abs(z) < 1.0
    out = np.empty_like(z)
    zs = z[small]
    acc = np.zeros_like(zs)
    for j in range(23, -1, -1):  # Horner on sum z^j/(j+k)!
        acc = acc * zs + RFACT[j + k]
    out[small] = acc
    zb = z[~small]
    val = np.exp(zb)
    for j in range(k):
        val = (val - RFACT[j]) / zb
    out[~small] = val
    return out


@lru_cache(None)
def _ld(fr):
    return LD(fr.numerator) / LD(fr.denominator)


class DiagPhi:
    """c, k -> phi_k(c z) acting on vectors, for a diagonal operator."""

    def __init__(self, z):
        self.z = np.asarray(z, dtype=CLD)
        self.cache = {}
        self.ops = {}

    def op(self, terms):
        tot = CLD(0)
        for (k, c), w in terms.items():
            key = (k, c)
            if key not in self.cache:
                self.cache[key] = phi(k, _ld(c) * self.z)
            tot = tot + _ld(w) * self.cache[key]
        return tot

    def apply(self, terms, v):
        return self.op(terms) * v


class MatPhi(DiagPhi):
    """The same for a full matrix: Taylor series on z / 2**s and the doubling formulas
    phi_k(2z) = 2**-k (phi_0(z) phi_k(z) + sum_{j=1..k} phi_j(z) / (k-j)!)."""

    def __init__(self, z):
        super().__init__(z)
        self.norm = float(np.max(np.sum(np.abs(self.z), axis=0))) if self.z.size else 0.0

    def _phis(self, c):
        nrm = self.norm * float(c)
        if not nrm < 1e6:
            return [np.full_like(self.z, np.nan)] * 4
        s = max(0, int(math.ceil(math.log2(max(nrm, 1e-9)))) - 1)
        z = self.z * (_ld(c) / LD(2) ** s)
        nt = 30 if nrm / 2**s > 0.5 else 24
        acc = [np.eye(z.shape[0], dtype=CLD) * RFACT[k] for k in range(4)]
        p = np.eye(z.shape[0], dtype=CLD)
        for j in range(1, nt):
            p = p @ z
            for k in range(4):
                acc[k] = acc[k] + RFACT[j + k] * p
        for _ in range(s):
            new = [acc[0] @ acc[0]]
            for k in (1, 2, 3):
                t = acc[0] @ acc[k]
                for j in range(1, k + 1):
                    t = t + RFACT[k - j] * acc[j]
                new.append(t / LD(2) ** k)
            acc = new
        return acc

    def op(self, terms):
        tot = None
        for (k, c), w in terms.items():
            if c not in self.cache:
                self.cache[c] = self._phis(c)
            t = _ld(w) * self.cache[c][k]
            tot = t if tot is None else tot + t
        return tot

    def apply(self, terms, v):
        return self.op(terms) @ v


# ----------------------------------------------------------------- tableaux
from fractions import Fraction as F  # noqa: E402


def _psi(d):
    """{(r, c): w} over psi_r = r! phi_r  ->  over phi_r."""
    return {(r, F(c)): F(w) * math.factorial(r) for (r, c), w in d.items()}


def _phi(d):
    return {(r, F(c)): F(w) for (r, c), w in d.items()}


H = F(1, 2)
Q = F(1, 4)
T = F(3, 4)

# Krogstad (2005) ETDRK4
ETDRK4 = dict(
    c=[F(0), H, H, F(1)],
    a=[
        {},
        {0: _phi({(1, H): H})},
        {0: _phi({(1, H): H, (2, H): -1}), 1: _phi({(2, H): 1})},
        {0: _phi({(1, 1): 1, (2, 1): -2}), 2: _phi({(2, 1): 2})},
    ],
    b={
        0: _phi({(1, 1): 1, (2, 1): -3, (3, 1): 4}),
        1: _phi({(2, 1): 2, (3, 1): -4}),
        2: _phi({(2, 1): 2, (3, 1): -4}),
        3: _phi({(2, 1): -1, (3, 1): 4}),
    },
)
# embedded estimate: N4 replaced by the nonlinear term at the new solution (index 4)
_b4 = ETDRK4["b"][3]
ETDRK4["err"] = {3: _b4, 4: {k: -w for k, w in _b4.items()}}

# Whalen, Brio, Moloney (2015) six-stage, fifth order (psi notation)
ETDRK5 = dict(
    c=[F(0), Q, Q, H, T, F(1)],
    a=[
        {},
        {0: _psi({(1, Q): Q})},
        {0: _psi({(1, Q): Q, (2, Q): -F(1, 8)}), 1: _psi({(2, Q): F(1, 8)})},
        {0: _psi({(1, H): H, (2, H): -H}), 2: _psi({(2, H): H})},
        {
            0: _psi({(1, T): T, (2, T): -F(9, 16)}),
            1: _psi({(1, T): -F(3, 8)}),
            2: _psi({(1, T): F(3, 8)}),
            3: _psi({(2, T): F(9, 16)}),
        },
        {
            0: _psi({(1, 1): -F(77, 42), (2, 1): F(59, 42)}),
            1: _psi({(1, 1): F(8, 7)}),
            2: _psi({(1, 1): F(111, 28), (2, 1): -F(87, 28)}),
            3: _psi({(1, 1): -F(12, 7)}),
            4: _psi({(1, 1): -F(47, 84), (2, 1): F(143, 84)}),
        },
    ],
    b={
        0: _psi({(1, 1): F(1799, 2700), (2, 1): -F(3479, 2700), (3, 1): F(1890, 2700)}),
        2: _psi({(1, 1): F(1097, 1350), (2, 1): -F(467, 1350), (3, 1): -F(150, 1350)}),
        3: _psi({(1, 1): -F(98, 225), (2, 1): F(398, 225), (3, 1): -F(270, 225)}),
        4: _psi({(1, 1): -F(313, 1350), (2, 1): F(883, 1350), (3, 1): -F(90, 1350)}),
        5: _psi({(1, 1): F(509, 2700), (2, 1): -F(2129, 2700), (3, 1): F(1830, 2700)}),
    },
)


def _scaled(op, w):
    return {k: v * w for k, v in op.items()}


_b5 = ETDRK5["b"][4]
ETDRK5["err"] = {0: _scaled(_b5, -1), 2: _scaled(_b5, 4), 3: _scaled(_b5, -6), 4: _scaled(_b5, 4), 5: _scaled(_b5, -1)}


def lawson(c, a, b, e):
    """Integrating-factor form of an explicit Runge-Kutta method."""
    c = [F(x) for x in c]

    def mk(row, ci):
        return {j: {(0, ci - c[j]): F(w)} for j, w in row.items() if w != 0}

    return dict(
        c=c,
        a=[mk(row, c[i]) for i, row in enumerate(a)],
        b=mk(b, F(1)),
        err={j: {(0, F(1) - (c[j] if j < len(c) else F(1))): F(w)} for j, w in e.items()},
    )


IFRK4 = lawson(
    [0, H, H, 1],
    [{}, {0: H}, {1: H}, {2: 1}],
    {0: F(1, 6), 1: F(1, 3), 2: F(1, 3), 3: F(1, 6)},
    {3: F(1, 6), 4: -F(1, 6)},
)
IFDP = lawson(
    [0, F(1, 5), F(3, 10), F(4, 5), F(8, 9), 1],
    [
        {},
        {0: F(1, 5)},
        {0: F(3, 40), 1: F(9, 40)},
        {0: F(44, 45), 1: -F(56, 15), 2: F(32, 9)},
        {0: F(19372, 6561), 1: -F(25360, 2187), 2: F(64448, 6561), 3: -F(212, 729)},
        {0: F(9017, 3168), 1: -F(355, 33), 2: F(46732, 5247), 3: F(49, 176), 4: -F(5103, 18656)},
    ],
    {0: F(35, 384), 2: F(500, 1113), 3: F(125, 192), 4: -F(2187, 6784), 5: F(11, 84)},
    # b - bhat with bhat = (5179/57600, 0, 7571/16695, 393/640, -92097/339200, 187/2100, 1/40)
    {
        0: F(35, 384) - F(5179, 57600),
        2: F(500, 1113) - F(7571, 16695),
        3: F(125, 192) - F(393, 640),
        4: -F(2187, 6784) + F(92097, 339200),
        5: F(11, 84) - F(187, 2100),
        6: -F(1, 40),
    },
)

SCHEME = dict(ETD4=ETDRK4, ETD5=ETDRK5, IF4=IFRK4, ETD34=ETDRK4, ETD35=ETDRK5, IF34=IFRK4, IF45DP=IFDP)
ORDER = dict(ETD4=4, ETD5=5, IF4=4, ETD34=4, ETD35=5, IF34=4, IF45DP=5)
EST_Q = dict(ETD34=4, ETD35=4, IF34=4, IF45DP=5)
ONE = {}


def is_etd(name):
    return name.startswith("ETD")


class Step:
    """Result of a reference step."""

    def __init__(self):
        self.unew = self.err = None
        self.smax = 0.0  # largest state magnitude met
        self.nmax = 0.0  # largest nonlinear-term magnitude met


def ref_step(name, L, nl, u, h, want_err=False, ph=None):
    """One step of scheme `name` for u' = L u + nl(u), in extended precision."""
    sch = SCHEME[name]
    L = np.asarray(L, dtype=CLD)
    if ph is None:
        z = LD(h) * L
        ph = DiagPhi(z) if L.ndim == 1 else MatPhi(z)
    u = np.asarray(u, dtype=CLD)
    h = LD(h)
    r = Step()
    Ns = []
    states = []

    def seen(y, n):
        states.append(y)
        r.smax = max(r.smax, _mx(y))
        r.nmax = max(r.nmax, _mx(n))
        Ns.append(n)

    for ci, row in zip(sch["c"], sch["a"]):
        y = ph.apply({(0, ci): F(1)}, u) if ci != 0 else u
        for j, op in row.items():
            y = y + h * ph.apply(op, Ns[j])
        seen(y, np.asarray(nl(y), dtype=CLD))
    y = ph.apply({(0, F(1)): F(1)}, u)
    for j, op in sch["b"].items():
        y = y + h * ph.apply(op, Ns[j])
    r.unew = y
    r.smax = max(r.smax, _mx(y))
    r.states = states
    if want_err:
        if any(j >= len(Ns) for j in sch["err"]):
            seen(y, np.asarray(nl(y), dtype=CLD))
        e = None
        mag = 0.0
        for j, op in sch["err"].items():
            t = h * ph.apply(op, Ns[j])
            mag = max(mag, _mx(t))
            e = t if e is None else e + t
        r.err = e
        r.errmag = mag
    r.Ns = Ns
    return r


def _mx(a):
    if a.size == 0:
        return 0.0
    m = np.max(np.abs(a))
    return float(m) if np.isfinite(m) else float("inf")


# ----------------------------------------------------------------- coefficient accuracy
def diag_coef_err(name, z, cfg):
    """Per-mode bound (up to a constant) on the relative error of double-precision
    coefficients: direct evaluation loses eps/|cz|^k, contour means lose eps/r^k plus
    the trapezoid truncation R^N k!/(N+k)!. Lawson coefficients are plain exponentials."""
    z = np.asarray(z, dtype=complex)
    az = np.abs(z)
    # rounding of z moves exp(c z) by eps |z| |exp(c z)|, c >= 1/10
    base = EPS * (1.0 + az * np.exp(0.1 * np.minimum(z.real, 0.0)))
    if not is_etd(name):
        return base
    cut, npts, rad = cfg.get("modecutoff", 0.01), cfg.get("contour_points", 32), cfg.get("contour_radius", 1.0)
    cs = (0.25, 0.5, 0.75, 1.0) if name in ("ETD5", "ETD35") else (0.5, 1.0)

    def cancel(rmin):
        # psi2 at the sub-steps, psi3 at the full step
        out = 6.0 / np.maximum(rmin, 1e-300) ** 3
        for c in cs:
            out = np.maximum(out, 2.0 / np.maximum(c * rmin, 1e-300) ** 2)
        return EPS * (1.0 + out)

    direct = cancel(np.minimum(az, 1.0))
    nodes = rad * np.exp(2j * np.pi * (np.arange(npts) + 0.5) / npts)
    rmin = np.min(np.abs(z[..., None] + nodes), axis=-1)
    trunc = 0.0
    for k in (1, 2, 3):
        lg = npts * math.log(rad) + math.lgamma(k + 1) - math.lgamma(npts + k + 1)
        trunc = max(trunc, math.exp(min(lg, 700.0)))
    contour = cancel(np.minimum(rmin, 1.0)) * math.exp(min(rad, 700.0)) + 3.0 * trunc * math.exp(min(cut, 1.0))
    lo, hi = az < cut * (1 + 1e-9), az >= cut * (1 - 1e-9)
    return np.maximum(base, np.maximum(np.where(lo, contour, 0.0), np.where(hi, direct, 0.0)))


def mat_coef_err(name, znorm, n, cfg):
    """Same, for the Cauchy-integral coefficients of a full matrix with ||hL|| = znorm < R."""
    if not is_etd(name):
        return EPS * n * (10.0 + znorm) * math.exp(min(znorm, 300.0))
    npts, rad = cfg.get("contour_points", 32), cfg.get("contour_radius", 1.0)
    ratio = znorm / rad
    if ratio >= 0.95:
        return float("inf")
    alias = ratio**npts / (1.0 - ratio)
    trunc = 0.0
    for k in (1, 2, 3):
        lg = npts * math.log(rad) + math.lgamma(k + 1) - math.lgamma(npts + k + 1)
        trunc = max(trunc, math.exp(min(lg, 700.0)))
    small = min(rad, 1.0)
    rnd = EPS * n * 6.0 * math.exp(rad) / small**3 / (1.0 - ratio) ** 2
    return 20.0 * (alias * 6 + trunc * math.exp(znorm) + rnd) + EPS * n * (10 + znorm) * math.exp(znorm)


def adapt_model(unew, err, cfg, q):
    """Scale factor s of the documented controller, from scratch."""
    u = np.asarray(unew, dtype=CLD)
    e = np.asarray(err, dtype=CLD)
    mag = np.abs(u)
    top = mag.max()
    keep = mag > LD(cfg["adapt_cutoff"]) * top
    nu = np.sqrt(np.sum(mag[keep] ** 2))
    ne = np.sqrt(np.sum(np.abs(e[keep]) ** 2))
    return float(LD(cfg["safety_f"]) * (LD(cfg["epsilon"]) * nu / ne) ** (LD(1) / LD(q))), keep, float(ne), float(nu)

"""Comparing a solver's step with the extended-precision reference step."""

import math
import numpy as np

from . import ref
from .core import Violation, require

K = 10.0
STAT = {"max": 0.0}  # worst error/tolerance ratio seen (developer aid)


def coef_err(name, case, L, h, eig=None, cond=1.0):
    """Componentwise bound on coefficient accuracy, and the linear growth over the step."""
    L = np.asarray(L)
    etd = case.get("etd") or {}
    if eig is not None:  # diagonalized
        z = h * np.asarray(eig)
        ce = np.full(L.shape[0], float(np.max(ref.diag_coef_err(name, z, etd))) * cond**2)
        return ce, math.exp(min(max(0.0, float(np.max(z.real))), 50.0)) * cond
    if L.ndim == 1:
        z = h * L
        return ref.diag_coef_err(name, z, etd), math.exp(min(max(0.0, float(np.max(z.real))), 50.0))
    zn = float(np.max(np.sum(np.abs(h * L), axis=0)))
    return np.full(L.shape[0], ref.mat_coef_err(name, zn, L.shape[0], etd)), math.exp(min(zn, 50.0))


def step_tolerance(name, case, L, h, r, nl, K=K, eig=None, cond=1.0):
    """Componentwise tolerance for one double-precision step, and a usefulness flag."""
    ce, grow = coef_err(name, case, L, h, eig, cond)
    hn = h * r.nmax
    lip = nl.lip(r.smax)
    base = ce * (r.smax + hn) + 4 * ref.EPS * (r.smax + hn)
    hl = h * lip * grow
    spread = float(np.max(base)) * hl * (1 + hl) ** 5
    tol = K * (base + spread)
    scale = max(r.smax, 1e-300)
    ok = math.isfinite(scale) and math.isfinite(spread) and float(np.max(tol)) < 1e-4 * scale
    return tol, ok


def same(got, want, tol, what):
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    d = np.abs(np.asarray(got, dtype=np.clongdouble) - want).astype(float)
    with np.errstate(all="ignore"):
        ratio = d / (np.asarray(tol, dtype=float) + 1e-290)
    m = float(np.max(ratio)) if ratio.size else 0.0
    if m > STAT["max"]:
        STAT["max"] = m
    if not m <= 1.0:
        i = int(np.argmax(np.where(np.isnan(ratio), np.inf, ratio)))
        raise Violation(
            "%s: component %d is %s, expected %s (difference %.3g, tolerance %.3g)"
            % (what, i, got.ravel()[i], complex(want.ravel()[i]), d.ravel()[i], np.broadcast_to(tol, d.shape).ravel()[i])
        )

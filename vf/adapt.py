"""Shared pieces for the adaptive-solver checks."""

import math
import numpy as np
from hypothesis import strategies as st

from . import gen, ref, cmp
from .gen import BOOL, pick, logu, ints

MATNAMES = ("ETD34", "ETD35", "IF34")
DIAGNAMES = ("ETD34", "ETD35", "IF34", "IF45DP")


@st.composite
def adaptive_case(draw, kind, eps=(-9.0, -1.0), nsteps=4, hmax=0.0, hmin=-2.0, stiff=True):
    if kind == "diag":
        c = dict(draw(gen.diag_system(nmin=1, nmax=5, hlo=hmin, hhi=hmax, stiff=stiff, units=True)))
        c["solver"] = draw(pick(*DIAGNAMES))
    else:
        c = dict(draw(gen.mat_system(nmin=1, nmax=4, hlo=hmin, hhi=hmax, diagable=(kind == "eig"), znorm=(0.05, 3.0), units=True)))
        c["solver"] = draw(pick(*MATNAMES))
    c["diagonalize"] = kind == "eig"
    c["cfg"] = dict(draw(gen.solver_cfg(eps, stubborn=True)))
    if c.get("ts", 1.0) < 1.0:
        c["cfg"]["minh"] = 1e-16 * c["ts"]
    c["hf"] = draw(st.lists(pick("s", "s", "s", 1.0, 0.5, 1.0 + 1e-10, 0.999), min_size=1, max_size=nsteps))
    c["force_complex"] = draw(BOOL)
    c["reset_at"] = draw(pick(None, None, 1, 2))
    return c


def eig_info(case, L):
    """(eigenvalues, condition) for the diagonalized form; None if ill-conditioned."""
    if not case.get("diagonalize"):
        return None, 1.0
    if not np.all(np.isfinite(L)) or np.linalg.cond(L) > 1e10:
        return None, float("inf")
    w, S = np.linalg.eig(L)
    return w, float(np.linalg.cond(S))


def ref_adaptive(name, case, L, nl, u, h, cfg, eig=None, cond=1.0, max_attempts=60):
    """The documented controller driven by reference estimates. Returns a dict with
    the accepted h, the suggestion, and `risk`: how much rounding could matter."""
    q = ref.EST_Q[name]
    attempts = 0
    risk = 0.0
    factor_err = 0.0
    while attempts < max_attempts:
        r = ref.ref_step(name, L, nl, u, h, want_err=True)
        if not np.isfinite(r.smax) or not np.isfinite(r.nmax) or r.smax > 1e6 * case.get("us", 1.0):
            return None
        s, keep, ne, nu = ref.adapt_model(r.unew, r.err, cfg, q)
        ce, grow = cmp.coef_err(name, case, L, h, eig, cond)
        lip = nl.lip(r.smax)
        hn = h * r.nmax
        hl = h * lip * grow
        noise = float(np.max(ce)) * (r.smax + hn) * (hl + 1e-3) * (1 + hl) ** 5 * 30 + float(np.max(ce)) * hn * 60
        # an estimate so small that no rounding of it could stop the step from growing by the full factor
        mag = np.abs(r.unew).astype(float)
        low = float(mag.max()) - noise
        top = float(np.linalg.norm(np.abs(r.err).astype(float))) + 10 * noise
        if low > 0 and cfg["adapt_cutoff"] < 0.99 and abs(cfg["incr_f"] - 4.0) > 0.01 and factor_err < 1e-6:
            floor = cfg["safety_f"] * (cfg["epsilon"] * low / max(top, 1e-290)) ** (1 / q)
            if floor > 6.0:
                return dict(h=h, suggest=4.0 * h if 4.0 > cfg["incr_f"] else h, rel=1e-9 + factor_err, attempts=attempts + 1, s=s, grow=4.0 > cfg["incr_f"], clamped=True, masked=int(np.sum(~keep)), ref=r)
        if not ne > 0 or not math.isfinite(s):
            return None
        rel = noise / ne
        if rel > 1e-3:
            return None
        edge = np.abs(mag / mag.max() - cfg["adapt_cutoff"])
        if np.any(edge < 1e-5 * max(cfg["adapt_cutoff"], 1e-3)):
            return None
        # a retried size is only known to factor_err, and fast phases amplify that
        zmax = float(np.max(np.abs(h * (L if eig is None else eig)))) if np.ndim(L) == 1 or eig is not None else float(np.max(np.sum(np.abs(h * L), axis=0)))
        rel = rel + 1e-9 + factor_err * (1 + zmax)
        if factor_err * zmax > 1e-4:
            return None
        near = min(abs(s - 1.0), abs(s - cfg["incr_f"]))
        if near < 10 * rel:
            return None
        attempts += 1
        if s < 1.0:
            f = min(max(s, 0.25), cfg["decr_f"])
            if f == s:
                factor_err += rel
            h = f * h
            if h < cfg["minh"]:
                return None
            continue
        g = min(s, 4.0)
        return dict(
            h=h,
            suggest=g * h if g > cfg["incr_f"] else h,
            rel=rel,
            attempts=attempts,
            s=s,
            grow=g > cfg["incr_f"],
            clamped=s > 4.0,
            masked=int(np.sum(~keep)),
            ref=r,
        )
    return None

"""C03: design order of the one-step error against the true flow."""

import math
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Facet, require
from ..env import ALL, ADAPTIVE
from ..gen import BOOL, pick, unif, vec, carr, ints

KINDS = ("full", "full", "full", "quad", "cubic")
MATRIX = tuple(x for x in ALL if x != "IF45DP")
LD, CLD = np.longdouble, np.clongdouble
RULE = (
    "Random coupled polynomial systems with bounded operators; one step of each solver is compared with the true flow "
    "(extrapolated midpoint rule on the full right-hand side in long double) for steps h, h/2, h/4, ...; the observed "
    "order over the last three halvings above the rounding floor must reach the design order (undecided where the last two"
    " observed orders still differ by more than 0.25 before rounding takes over). Non-trivial: at least "
    "three such halvings exist."
)

SEQ = (2, 4, 6, 8, 12, 16, 20, 24, 28)


def flow(f, u, h):
    """u(h) for u' = f(u) by Gragg extrapolation in long double."""
    tab = []
    u = np.asarray(u, dtype=CLD)
    for i, n in enumerate(SEQ):
        k = LD(h) / n
        y0, y1 = u, u + k * f(u)
        for _ in range(n - 1):
            y0, y1 = y1, y0 + 2 * k * f(y1)
        row = [(y0 + y1 + k * f(y1)) / 2]
        for j in range(i):
            ratio = (LD(n) / SEQ[i - 1 - j]) ** 2
            row.append(row[j] + (row[j] - tab[-1][j]) / (ratio - 1))
        tab.append(row)
    best = tab[-1][-1]
    return best, float(np.max(np.abs(best - tab[-2][-1])))


@st.composite
def case_st(draw, kind):
    n = draw(ints(1, 4))
    cplx = draw(BOOL)
    c = dict(kind=kind, n=n, cplx=cplx, u0=draw(vec(n, -1.0, 1.0, cplx)), x=draw(unif(0.8, 2.0)))
    names = ALL
    if kind == "diag":
        c["L"] = draw(vec(n, -1.0, 1.0, cplx))
        c["nl"] = draw(gen.nl_spec(n, cplx, 1.0, KINDS))
    elif kind == "mat":
        names = MATRIX
        c["L"] = [draw(vec(n, -0.6, 0.6, cplx)) for _ in range(n)]
        c["nl"] = draw(gen.nl_spec(n, cplx, 1.0, KINDS))
    else:  # commuting: N'(u) commutes with L for every u
        how = draw(pick("componentwise", "scalar", "scalar-matrix", "polynomial"))
        lam = draw(vec(1, -1.0, 1.0, cplx))[0]
        if how == "componentwise":
            c["L"] = draw(vec(n, -1.0, 1.0, cplx))
            c["nl"] = dict(q=draw(vec(n, -1, 1, cplx)), p=list(range(n)), r=list(range(n)), c=draw(vec(n, -1, 1, cplx)))
            if draw(BOOL):
                c["nl"]["k"] = draw(vec(n, -0.6, 0.6, cplx))
        elif how == "polynomial":
            names = MATRIX
            c["L"] = [draw(vec(n, -0.6, 0.6, cplx)) for _ in range(n)]
            A = carr(c["L"])
            k = [draw(gen.num(-1, 1)) for _ in range(3)]
            c["nl"] = dict(M=gen.enc(k[0] * np.eye(n) + k[1] * A + k[2] * (A @ A)), c=draw(vec(n, -1, 1, cplx)))
        else:
            c["nl"] = draw(gen.nl_spec(n, cplx, 1.0, KINDS))
            if how == "scalar":
                c["L"] = [lam] * n
            else:
                names = MATRIX
                c["L"] = [[lam if i == j else [0.0, 0.0] for j in range(n)] for i in range(n)]
        c["how"] = how
    c["solver"] = draw(pick(*names))
    c["diagonalize"] = kind != "diag" and draw(BOOL)
    return c


def settled(errs):
    """Asymptotic range: the last two observed orders agree (a deficit from the limit halves with each halving)."""
    return abs(math.log2(errs[-3] / errs[-2]) - math.log2(errs[-2] / errs[-1])) <= 0.25


def orders(case):
    """(observed orders over the last halvings above rounding, error list) or None."""
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    nl = gen.NL(case["nl"])
    Lc = L.astype(CLD)
    f = (lambda y: Lc * y + nl(y)) if L.ndim == 1 else (lambda y: Lc @ y + nl(y))
    m = 1.5 * float(np.max(np.abs(u))) + 0.2
    J = float(np.max(np.abs(L))) if L.ndim == 1 else float(np.max(np.sum(np.abs(L), axis=1)))
    J += nl.lip(m)
    if nl.c is not None:
        J += float(np.max(np.abs(nl.c))) / m
    if not J > 1e-3:
        return None, ["degenerate"]
    cond = 1.0
    diagonalize = case["diagonalize"] and name in ("ETD34", "ETD35", "IF34") and L.ndim == 2
    if diagonalize:
        if np.linalg.cond(L) > 1e6:
            return None, ["near-singular"]
        cond = float(np.linalg.cond(np.linalg.eig(L)[1]))
        if cond > 50:
            return None, ["ill-conditioned basis"]
    etd = dict(modecutoff=1.0, contour_points=64, contour_radius=4.0)
    errs = []
    h = case["x"] / J
    for _ in range(9):
        cfg = dict(epsilon=1e30) if name in ADAPTIVE else None
        s = gen.make(name, L, nl, cfg=cfg, etd=etd, diagonalize=diagonalize or None)
        if name in ADAPTIVE:
            un, hu, _ = s.step(u, h)
            require(hu == h, "%s: rejected a step although the tolerance is huge", name)
        else:
            un = s.step(u, h)
        ex, acc = flow(f, u, h)
        scale = float(np.max(np.abs(ex))) + float(np.max(np.abs(u))) + h * float(np.max(np.abs(nl(u)))) + h * nl.lip(m) * m * 0.1
        e = float(np.max(np.abs(un - ex)))
        if not e > 20 * (1e-15 * scale * cond**2 + acc):
            if errs:
                break
        else:
            errs.append(e)
        h /= 2
        if len(errs) >= 5 and settled(errs):
            break
    if len(errs) < 4:
        return None, [name, "at rounding level"]
    return ([math.log2(errs[i] / errs[i + 1]) for i in range(len(errs) - 1)][-3:], errs), (
        [name] + (["diagonalize"] if diagonalize else []) + ([case["how"]] if "how" in case else [])
    )


def check_order(case, p):
    got, labels = orders(case)
    if got is None:
        return False, labels
    slopes, errs = got
    if max(slopes) <= p + 0.45 and not settled(errs):
        return False, labels + ["never asymptotic"]
    require(
        max(slopes) > p + 0.45,
        "%s: one-step errors %s for halved steps show order %.2f, expected order %d",
        case["solver"], ["%.3g" % e for e in errs], max(slopes) - 1, p,
    )
    return True, labels


def check(case):
    return check_order(case, 4 if case["solver"] in ("ETD5", "ETD35") else ref.ORDER[case["solver"]])


def check_full(case):
    return check_order(case, ref.ORDER[case["solver"]])


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=1500, shards=6, rule="1D operators, all seven solvers (ETD5/ETD35: order 4)"),
    Facet("matrix", case_st("mat"), check, quick=700, shards=4, rule="full matrices, direct and diagonalized (ETD5/ETD35: order 4)"),
    Facet("commuting", case_st("com"), check_full, quick=1200, shards=6, rule="operator commutes with the Jacobian: all solvers reach their full design order"),
    Facet("full-order", case_st("diag"), check_full, quick=0, rule="not searched: full design order for ETD5/ETD35 on non-commuting systems (the known finding)"),
]

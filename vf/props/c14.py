"""C14: adaptive failure is loud, never a non-finite or silently wrong result."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, LongRun, Runaway, require
from ..env import ADAPTIVE
from ..gen import BOOL, carr, ints, logu, num, pick, unif, vec

MATS = ("ETD34", "ETD35", "IF34")
RULE = (
    "Finite-time blow-up problems with known blow-up time, nonlinear terms that turn non-finite or huge from a chosen "
    "evaluation on, for a while, or beyond a state threshold, and overflowing operators: step() and evolve() either "
    "return finite states (and stay before the blow-up) or raise the documented solver error within a bounded number of "
    "evaluations; afterwards the same object must evolve a benign problem exactly as a new one. Non-trivial: a fault was "
    "hit or the interval crosses the blow-up."
)


def finite(a):
    return bool(np.all(np.isfinite(a)))


@st.composite
def blowup_st(draw):
    n = draw(ints(1, 3))
    kind = draw(pick("diag", "diag", "mat", "eig"))
    c = dict(n=n, kind=kind, solver=draw(pick(*(ADAPTIVE if kind == "diag" else MATS))))
    c["p"] = draw(pick(2, 2, 3))
    c["b"] = draw(logu(-1, 1))
    c["u0"] = [draw(num(0.3, 2.0)) for _ in range(n)]
    c["a"] = draw(pick(0.0, 0.5, -0.1)) if kind != "eig" else draw(pick(0.5, -0.1))
    c["tfac"] = draw(pick(0.5, 0.9, 1.01, 1.3, 3.0, 50.0))
    c["cfg"] = dict(draw(gen.solver_cfg((-4.5, -1))))
    c["hi"] = draw(pick(None, 0.1, 1.0, 1e-3))
    c["cfg"]["minh"] = draw(pick(1e-16, 1e-16, 1e-290, 1e-6))  # failure by minimum step or by number of attempts
    return c


def check_blowup(case):
    n, name, p, b = case["n"], case["solver"], case["p"], case["b"]
    u0 = np.array(case["u0"])
    L = np.full(n, case["a"]) if case["kind"] == "diag" else case["a"] * np.eye(n)
    m = float(u0.max())
    a = case["a"]
    # u' = a u + b u^p blows up at t with b m^(p-1) (e^{(p-1)at}-1)/a = 1
    q = p - 1
    x = a / (b * m**q)
    tb = 1.0 / (q * b * m**q) if a == 0 else (np.log1p(x) / (q * a) if x > -1 else np.inf)
    if not np.isfinite(tb):
        return False, ["no blow-up"]
    cnt = [0, False]

    def nl(u):
        cnt[0] += 1
        if cnt[0] > 300000:
            raise Runaway("more than 80000 evaluations without a verdict")
        return -0.3 * u if cnt[1] else b * u**p

    s = gen.make(name, L, nl, cfg=case["cfg"], diagonalize=True if case["kind"] == "eig" else None)
    tf = float(case["tfac"] * tb)
    try:
        uf = s.evolve(u0, 0.0, tf, None if case["hi"] is None else case["hi"] * tf)
        exc = None
    except s.SolverError as e:
        exc = e
    require(all(finite(v) for v in s.u), "%s: a non-finite state was stored", name)
    require(np.all(np.diff(s.t) > 0), "%s: times stalled near the blow-up", name)
    eps = gen.full_cfg(case["cfg"])["epsilon"]
    if exc is None:
        require(finite(uf), "%s: evolve returned a non-finite state", name)
        require(s.t[-1] == tf, "%s: evolve to %r returned without an error at t=%r", name, tf, s.t[-1])
        # tolerance up to 0.1 may step across the pole; tight tolerances must not
        require(not (case["tfac"] > 1.2 and eps < 1e-3 and case["hi"] != 1.0), "%s: silently integrated through a blow-up at %.4g to %.4g (tolerance %.2g)", name, tb, tf, eps)
    cnt[:] = [0, True]
    after(s, name, L, case["cfg"], case["kind"] == "eig", n)
    return case["tfac"] > 1 or exc is not None, [name, "raised " + type(exc).__name__ if exc else "finished", "beyond" if case["tfac"] > 1 else "before"]


def after(s, name, L, cfg, diagonalize, n):
    """The same object evolves a benign problem as a new one does."""
    good = lambda u: -0.3 * u  # noqa: E731
    f = gen.make(name, L, good, cfg=cfg, diagonalize=diagonalize or None, etd=None)
    u0 = np.linspace(1.0, 0.5, n)
    try:
        b = f.evolve(u0, 0.0, 0.7)
    except f.SolverError:
        b = None
    try:
        a = s.evolve(u0, 0.0, 0.7)
    except s.SolverError:
        a = None
    require((a is None) == (b is None), "%s: after a failure a benign problem %s, a new solver %s", name, "fails" if a is None else "works", "fails" if b is None else "works")
    if a is not None:
        require(np.array_equal(a, b) and list(s.t) == list(f.t), "%s: after a failure a benign problem gives %s, a new solver %s", name, a, b)


@st.composite
def fault_st(draw):
    kind = draw(pick("diag", "diag", "mat", "eig"))
    if kind == "diag":
        c = dict(draw(gen.diag_system(nmin=1, nmax=4, stiff=False, cfg=False, units=True)))
    else:
        c = dict(draw(gen.mat_system(nmin=1, nmax=3, diagable=kind == "eig", znorm=(0.05, 1.0), units=True)))
        c["etd"] = {}
    c["solver"] = draw(pick(*(ADAPTIVE if kind == "diag" else MATS)))
    c["diagonalize"] = kind == "eig"
    c["cfg"] = dict(draw(gen.solver_cfg((-5, -1))))
    c["fault"] = draw(pick("nan", "inf", "-inf", "huge", "partial-nan", "partial-inf", "overflow"))
    c["at"] = draw(ints(1, 40))
    c["len"] = draw(pick(1, 2, 5, 30, 10**9))
    c["how"] = draw(pick("count", "count", "threshold"))
    c["thr"] = draw(unif(0.2, 1.2)) * c.get("us", 1.0)
    c["api"] = draw(pick("step", "evolve"))
    c["nsteps"] = draw(ints(1, 8))
    c["cfg"]["minh"] = draw(pick(1e-16, 1e-16, 1e-290, 1e-6)) * min(1.0, c.get("ts", 1.0))
    return c


class Faulty:
    def __init__(self, case):
        self.f, self.c, self.n, self.hits, self.on = gen.NL(case["nl"], budget=10**9), case, 0, 0, True
        self.bad = 0

    def __call__(self, u):
        self.n += 1
        if self.n > 8000:
            # still busy with the fault, or just a long honest run after it (cautious settings)?
            if self.bad > 2000:
                raise Runaway("more than 8000 evaluations without a verdict, %d of them non-finite" % self.bad)
            raise LongRun("more than 8000 evaluations")
        out = self.f(u)
        self.bad += not finite(out)
        c = self.c
        if not self.on:
            return out
        if c["how"] == "count":
            hit = c["at"] <= self.n < c["at"] + c["len"]
        else:
            hit = bool(np.max(np.abs(u)) > c["thr"])
        if hit:
            self.hits += 1
            self.bad += 1
            k = c["fault"]
            out = out.astype(complex if np.iscomplexobj(out) else float).copy()
            if k.startswith("partial"):
                out[-1] = np.nan if k.endswith("nan") else np.inf
            else:
                out[:] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e160, "overflow": 1e308}[k]
        return out


def check_fault(case):
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    if case["diagonalize"] and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    nl = Faulty(case)
    s = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    h = case["h"]
    exc = None
    taken = 0
    try:
        if case["api"] == "step":
            v = u
            for i in range(case["nsteps"]):
                before = nl.hits
                v, hu, h = s.step(v, h)
                require(finite(v) and np.isfinite(hu) and hu > 0 and np.isfinite(h) and h > 0, "%s step %d returned %s, h=%r, suggestion %r", name, i, v, hu, h)
                taken += 1
        else:
            v = s.evolve(u, 0.0, h * case["nsteps"], h)
            require(finite(v), "%s: evolve returned a non-finite state %s", name, v)
            require(s.t[-1] == h * case["nsteps"], "%s: evolve to %r returned without an error at t=%r", name, h * case["nsteps"], s.t[-1])
            taken = len(s.t)
    except s.SolverError as e:
        exc = e
    except Runaway:
        # accepted steps of a huge but finite forcing may be tiny for ever; anything non-finite must end
        if case["fault"] in ("huge", "overflow") or case["how"] == "threshold":
            return False, [name, "slow"]
        raise
    require(all(finite(x) for x in s.u), "%s: a non-finite state was stored", name)
    if exc is not None:
        require(isinstance(exc, (s.MaxLoopsExceeded, s.MinimumStepReached)), "%s: unexpected kind of solver error %r", name, exc)
    # after the failure: equal to a new solver
    nl.on = False
    nl.n = 0
    g = Faulty(case)
    g.on = False
    f = gen.make(name, L, g, cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    outs = []
    for x in (s, f):
        try:
            outs.append((x.evolve(u, 0.0, case["h"] * 2.5, case["h"]), None))
        except x.SolverError as e:
            outs.append((None, type(e).__name__))
    require(outs[0][1] == outs[1][1], "%s after a fault: %s, a new solver %s", name, outs[0][1], outs[1][1])
    if outs[0][0] is not None:
        require(np.array_equal(outs[0][0], outs[1][0]) and s.t == f.t, "%s after a fault gives %s, a new solver %s", name, outs[0][0], outs[1][0])
    return nl.hits > 0, [name, case["fault"], case["how"], "raised " + type(exc).__name__ if exc else "survived" if nl.hits else "not hit"]


FACETS = [
    Facet("blow-up", blowup_st(), check_blowup, quick=420, shards=14, rule="finite-time blow-up"),
    Facet("faults", fault_st(), check_fault, quick=3000, shards=10, rule="injected non-finite and huge values"),
]

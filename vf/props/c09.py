"""C09: stored snapshots are faithful and runs have no side effects."""

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, ints, logu, num, pick

RULE = (
    "Generated systems are evolved with every storage setting; snapshots are compared bit for bit with a history recorded "
    "by stepping a fresh solver and copying each state at once; the final state must not depend on the setting; the "
    "caller's state, operator, configuration, and arrays returned by the nonlinear term (including one that returns its "
    "argument, one fixed array or arrays it memoizes) must be unchanged afterwards. Non-trivial: at least three steps."
)
CFGKEYS = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")
ETDKEYS = ("modecutoff", "contour_points", "contour_radius")


@st.composite
def case_st(draw, kind):
    nlkind = draw(pick("fresh", "fresh", "memo", "identity", "view", "fixed"))
    c = dict(draw(gen.evo_system(kind, nmax=4, units=nlkind not in ("identity", "view"))))
    c["solver"] = draw(pick(*(ALL if kind == "diag" else ("ETD4", "ETD5", "IF4", "ETD34", "ETD35", "IF34"))))
    c["diagonalize"] = kind == "mat" and draw(BOOL)
    c["cfg"] = draw(gen.solver_cfg((-6, -2)))
    c["t0"] = draw(pick(0.0, 0.0, -1.0, 3.7))
    c["steps"] = draw(ints(1, 30))
    c["freq"] = draw(st.one_of(ints(1, 6), pick(7, 10, 1000)))
    c["hi"] = draw(pick(None, 0.1, 0.03))
    if draw(ints(0, 3)) == 0:  # a minimum step near, below or above the first one
        c["minf"] = draw(pick(0.01, 0.3, 1.0, 1.5, 10.0))
    c["nlkind"] = nlkind
    c["uint"] = draw(ints(0, 5)) == 0
    return c


@st.composite
def long_st(draw):
    c = dict(draw(gen.evo_system("diag", nmax=2, stiff=False, nlT=0.3)))
    c.update(solver=draw(pick(*ALL)), diagonalize=False, uint=False, nlkind=draw(pick("fresh", "view", "fixed")))
    c["steps"] = draw(st.one_of(pick(100, 500, 1000, 1001), ints(100, 1500)))
    c["hi"] = 1.0 / c["steps"]
    c["cfg"] = dict(epsilon=0.1, incr_f=1e6)
    c["t0"] = draw(pick(0.0, -1.0, 3.7))
    c["freq"] = draw(st.one_of(pick(10, 100, 128, 1000), ints(2, 1200)))
    return c


class Wrapped:
    """Nonlinear term that watches the arrays it hands out and receives."""

    def __init__(self, case, scale):
        self.kind, self.inner, self.scale = case["nlkind"], gen.NL(case["nl"]), scale
        self.fixed = None
        self.memo = {}
        self.n = 0

    def __call__(self, u):
        self.n += 1
        if self.n > 100000:
            raise gen.LongRun("too many evaluations")
        if self.kind == "identity":
            return u
        if self.kind == "view":
            return u[:]
        if self.kind == "fixed":
            if self.fixed is None or self.fixed.dtype != u.dtype:
                self.fixed = np.linspace(0.1, 0.5, len(u)).astype(u.dtype if u.dtype.kind in "fc" else float) * self.scale
                self.copy = self.fixed.copy()
            return self.fixed
        if self.kind == "memo" and len(self.memo) < 2000:
            k = (u.dtype.char, u.tobytes())
            if k not in self.memo:
                r = self.inner(u)
                self.memo[k] = (r, r.copy())
            return self.memo[k][0]
        return self.inner(u)

    def verify(self):
        if self.fixed is not None:
            require(np.array_equal(self.fixed, self.copy), "an array returned by the nonlinear term was modified")
        for r, rc in self.memo.values():
            require(np.array_equal(r, rc, equal_nan=True), "an array the nonlinear term keeps was modified")


def build(case, nl, L):
    cfg = dict(case["cfg"])
    if "minf" in case:
        cfg["minh"] = case["minf"] * (case["hi"] or 0.01) * case["T"]
    return gen.make(case["solver"], L, nl, cfg=cfg, etd=case["etd"], diagonalize=case["diagonalize"] or None)


def check(case):
    name = case["solver"]
    L, u0 = gen.decode_L(case), gen.decode_u(case)
    if case["diagonalize"] and name in ADAPTIVE and (np.linalg.cond(L) > 1e10 or np.linalg.cond(np.linalg.eig(L)[1]) > 1e3):
        return False, ["ill-conditioned basis"]
    if case["uint"] and not case["cplx"]:
        u0 = np.round(u0 * 2).astype(int)
    T, t0 = case["T"], case["t0"]
    tf = t0 + T
    Lc, uc = L.copy(), u0.copy()
    nl = Wrapped(case, 1.0 / T)
    args = (t0, tf, None if case["hi"] is None else case["hi"] * T) if name in ADAPTIVE else (t0, tf, (tf - t0) / case["steps"])

    def pure(what):
        require(np.array_equal(L, Lc), "%s: the caller's operator was modified by %s", name, what)
        require(np.array_equal(u0, uc), "%s: the caller's state was modified by %s", name, what)
        nl.verify()

    runs = []
    for kw in (dict(store_freq=1), dict(store_freq=case["freq"]), dict(store_data=False), dict(store_data=False, store_freq=case["freq"])):
        s = build(case, nl, L)
        before, failed = snapshot(s), False
        try:
            uf = s.evolve(u0, *args, **kw)
        except RuntimeError as e:
            if not (name in ADAPTIVE and isinstance(e, s.SolverError)):
                raise
            failed = True
        pure("evolve(%s)" % kw)
        require(snapshot(s) == before, "%s: evolve changed the configuration from %s to %s", name, before, snapshot(s))
        if failed:
            return False, ["solver error"]
        runs.append((s, uf))
    full, uf = runs[0]
    for s, v in runs[1:]:
        require(np.array_equal(v, uf, equal_nan=True), "%s: the result depends on what is stored", name)
    require(runs[2][0].t == [] and runs[2][0].u == [], "%s: data stored although store_data is False", name)
    require(len(full.t) == len(full.u), "%s: %d times but %d states", name, len(full.t), len(full.u))
    k = case["freq"]
    sub = runs[1][0]
    want_t = [full.t[0]] + [full.t[i] for i in range(k, len(full.t), k)]
    want_u = [full.u[0]] + [full.u[i] for i in range(k, len(full.u), k)]
    require(list(sub.t) == list(want_t), "%s: store_freq=%d keeps times %s, expected %s", name, k, sub.t, want_t)
    require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(sub.u, want_u)) and len(sub.u) == len(want_u), "%s: store_freq=%d keeps other states", name, k)
    # independent history
    require(full.t[0] == t0 and np.array_equal(full.u[0], uc), "%s: the first snapshot is not the initial state", name)
    f = build(case, nl, L)
    v = u0
    # twins whose first step is a rounding error shorter or longer: where the histories part, the step sizes
    # follow the rounding of an error estimate and there is no single history to compare with
    twins = [[build(case, nl, L), u0, d] for d in (-1, 1, -3, 3)] if name in ADAPTIVE else []
    parted = False
    for i in range(1, len(full.t)):
        slack = 0.0
        if name in ADAPTIVE:
            if i == 1:
                h = (tf - t0) / 100.0 if case["hi"] is None else case["hi"] * T
                if t0 + h > tf:
                    h = tf - t0
                for w in twins:
                    w[2] = h + w[2] * np.spacing(h)
            else:
                h = tf - full.t[i - 1] if full.t[i - 1] + hs > tf else hs
                for w in twins:
                    w[2] = tf - full.t[i - 1] if full.t[i - 1] + w[2] > tf else w[2]
            vin = v.copy()
            vn, _, hs = f.step(v, h)
            for w in twins:
                try:
                    w[1], _, w[2] = w[0].step(w[1], w[2])
                except RuntimeError as e:
                    if not isinstance(e, w[0].SolverError):
                        raise
                    parted = True
                    break
                slack = max(slack, 1e3 * float(np.max(np.abs(w[1] - vn))))
            if parted or not slack <= 1e-6 * max(1e-300, float(np.max(np.abs(vn)))):
                break
        else:
            vin = v.copy()
            vn = f.step(v, args[2])
        require(np.array_equal(v, vin, equal_nan=True), "%s: step modified its input state", name)
        require(np.allclose(vn, full.u[i], rtol=1e-10, atol=1e-13 * case.get("us", 1.0) + slack, equal_nan=True), "%s: snapshot %d is %s, the state there was %s", name, i, full.u[i], vn)
        v = vn.copy() if i % 2 else vn
    pure("step")
    nsteps = len(full.t)
    # snapshots and results taken from one run survive later runs and resets of the same solver
    kept = [(a, a.copy()) for a in list(full.u) + [uf]]
    try:
        full.evolve(uc * 0.5 + 0.25 * case.get("us", 1.0), *args)
        full.reset()
        full.step(uc * 0.75, T / 50)
    except RuntimeError as e:
        if not (name in ADAPTIVE and isinstance(e, full.SolverError)):
            raise
    require(all(np.array_equal(a, b, equal_nan=True) for a, b in kept), "%s: states of an earlier run changed during a later one", name)
    pure("a second run")
    return nsteps > 3, [name, "nl " + case["nlkind"], "integer state" if u0.dtype.kind == "i" else "state"]


def snapshot(s):
    d = {}
    if hasattr(s, "config"):
        d.update({k: getattr(s.config, k) for k in CFGKEYS})
    if hasattr(s, "etd_config"):
        d.update({k: getattr(s.etd_config, k) for k in ETDKEYS})
    return d


FACETS = [
    Facet("diagonal", case_st("diag"), check, quick=2400, shards=8, rule="1D operators"),
    Facet("long", long_st(), check, quick=120, shards=8, rule="100 to 1500 steps, storing every 2nd to 1200th"),
    Facet("matrix", case_st("mat"), check, quick=500, shards=4, rule="full matrices, direct and diagonalized"),
]

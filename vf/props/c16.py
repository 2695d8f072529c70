"""C16: solver instances are independent of one another."""

import threading

import numpy as np
from hypothesis import strategies as st

from .. import adapt, cmp, gen, ref
from ..core import Facet, require
from ..env import ADAPTIVE, ALL
from ..gen import BOOL, enc, ints, logu, num, pick, vec

EIGS = ("ETD34", "ETD35", "IF34")
RULE = (
    "Two to four solvers of equal or different classes, sharing operators, step sizes and sizes of problem on purpose, "
    "built with and without explicit configurations, run interleaved operations (step, evolve, reset, tolerance and "
    "contour changes, failing calls, log level changes). Each solver's outputs, settings and history must equal those of "
    "the same operations run on a solver alone, and each regular step the published step. Non-trivial: two solvers "
    "alternate at least twice."
)


@st.composite
def case_st(draw):
    n = draw(ints(1, 3))
    cplx = draw(BOOL)
    h = draw(logu(-2, -0.3))
    Ls = []
    for _ in range(2):
        z = [draw(gen.mode_z(0.01, not cplx, False)) for _ in range(n)]
        Ls.append([[w.real / h, w.imag / h] for w in z])
    # full matrices with the first spectrum's diagonal, differing only off the diagonal
    off = [draw(vec(n, -0.5, 0.5, cplx)) for _ in range(n)]
    rel = draw(pick("transpose", "entry", "negated", "none"))
    nls = [draw(gen.nl_spec(n, cplx, 1.0)) for _ in range(2)]
    specs = []
    twins = n > 1 and draw(ints(0, 3)) == 0  # one class, full matrices of one diagonal
    base = draw(pick(*ALL))
    kind = draw(pick("eig", "eig", "mat")) if twins else None
    if twins:
        base, which = draw(pick(*(EIGS if kind == "eig" else [x for x in ALL if x != "IF45DP"]))), draw(ints(0, 1))
    for j in range(draw(ints(2, 4))):
        if twins:
            specs.append(dict(solver=base, form=kind, full=1 + (j % 2 if draw(ints(0, 3)) else draw(ints(0, 1))), L=which, nl=draw(ints(0, 1)), cfg=None, etd=None))
            continue
        name = draw(pick(base, base, *ALL))
        form = draw(pick("vec", "vec", "mat", "eig"))
        if form == "eig" and name not in EIGS or form == "mat" and name == "IF45DP":
            form = "vec"
        specs.append(dict(solver=name, form=form, full=draw(ints(0, 2)) if form in ("mat", "eig") else 0, L=draw(ints(0, 1)), nl=draw(ints(0, 1)), cfg=draw(pick(None, None, 1)) and draw(gen.solver_cfg((-5, -1))), etd=draw(pick(None, None, 1)) and draw(gen.etd_cfg())))
    ops = []
    for _ in range(draw(ints(2, 10))):
        i = draw(ints(0, len(specs) - 1))
        k = draw(pick("step", "step", "step", "step", "evolve", "reset", "eps", "safety", "fail", "build", "log"))
        if k == "step":
            ops.append([i, k, draw(pick(1.0, 1.0, 0.5, 0.25))])
        elif k == "evolve":
            ops.append([i, k, draw(ints(1, 4)), draw(pick(1.0, 0.5))])
        elif k == "eps":
            ops.append([i, k, draw(logu(-6, -1))])
        elif k == "safety":
            ops.append([i, k, draw(pick(0.5, 0.9, 0.3))])
        else:
            ops.append([i, k])
    return dict(n=n, cplx=cplx, h=h, Ls=Ls, nls=nls, specs=specs, ops=ops, off=off, rel=rel, u0=draw(vec(n, -1, 1, cplx)))


class One:
    """One solver with its private nonlinear term and current state."""

    def __init__(self, case, k):
        sp = case["specs"][k]
        self.case, self.sp, self.name = case, sp, sp["solver"]
        self.L = self.operator(case, sp)
        self.u0 = gen.carr(case["u0"])
        if not case["cplx"]:
            self.u0 = self.u0.real.copy()
        self.nl = gen.NL(case["nls"][sp["nl"]], budget=60000)
        self.fail = False
        self.pause = None
        self.u = self.u0
        self.build()

    @staticmethod
    def operator(case, sp):
        L = gen.carr(case["Ls"][sp["L"]])
        L = L if case["cplx"] else L.real.copy()
        if sp["form"] != "vec":
            L = np.diag(L)
        if not sp.get("full"):
            return L
        n, h = case["n"], case["h"]
        M = gen.carr(case["off"]) / h
        if not case["cplx"]:
            M = M.real.copy()
        M = M - np.diag(np.diag(M))
        if sp["full"] == 2:
            rel = case["rel"]
            if rel == "transpose":
                M = M.T.copy()
            elif rel == "negated":
                M = -M
            elif rel == "entry" and n > 1:
                M[n - 1, 0] += 0.25 / h
        return np.diag(np.diag(L)) + M

    def build(self):
        etd = self.sp["etd"]
        if self.L.ndim == 2 and self.sp["form"] == "mat":
            etd = dict(contour_points=64, contour_radius=8.0)
        self.etd = etd or {}
        self.s = gen.make(self.name, self.L, self.call, cfg=self.sp["cfg"], etd=self.etd, diagonalize=True if self.sp["form"] == "eig" else None)
        self.u = self.u0

    def call(self, u):
        if self.pause is not None:
            self.pause()
        if self.fail:
            return np.full(u.shape, np.nan)
        return self.nl(u)

    def settings(self):
        c = getattr(self.s, "config", None)
        return None if c is None else (c.epsilon, c.incr_f, c.decr_f, c.safety_f, c.adapt_cutoff, c.minh)

    def do(self, op, check=False):
        """Result record of one operation."""
        k, h, s = op[1], self.case["h"], self.s
        out = None
        try:
            if k == "step":
                hh = h * op[2]
                u = self.u
                r = s.step(u, hh)
                un, hu = (r[0], r[1]) if self.name in ADAPTIVE else (r, hh)
                if check:
                    self.verify(u, un, hu)
                out = (un.copy(),) + tuple(r[1:] if self.name in ADAPTIVE else ())
                self.u = un if np.all(np.isfinite(un)) and np.max(np.abs(un)) < 1e3 else self.restart()
            elif k == "evolve":
                r = s.evolve(self.u0, 0.0, h * op[2] * op[3], h * op[3])
                out = (r.copy(),)
                self.u = self.restart()
            elif k == "reset":
                self.restart()
            elif k == "eps" and self.name in ADAPTIVE:
                s.config.epsilon = op[2]
            elif k == "safety" and self.name in ADAPTIVE:
                s.config.safety_f = op[2]
            elif k == "fail":
                self.fail = True
                try:
                    s.step(self.u, h)
                finally:
                    self.fail = False
                    self.restart()
            elif k == "build":
                self.build()
            elif k == "log":
                s.set_loglevel("CRITICAL")
        except RuntimeError as e:
            out = (type(e).__name__,)
            self.restart()
        return out, [float(t) for t in s.t], [v.copy() for v in s.u], self.settings()

    def restart(self):
        self.s.reset()
        self.u = self.u0
        return self.u0

    def verify(self, u, un, hu):
        r = ref.ref_step(self.name, self.L, self.nl, u, hu)
        if not np.isfinite(r.smax) or r.smax > 1e6:
            return
        if self.sp["form"] == "eig":
            w, S = np.linalg.eig(self.L)
            tol, _ = cmp.step_tolerance(self.name, dict(etd=self.etd), self.L, hu, r, self.nl, eig=w, cond=float(np.linalg.cond(S)))
        else:
            tol, _ = cmp.step_tolerance(self.name, dict(etd=self.etd), self.L, hu, r, self.nl)
        cmp.same(un, r.unew, tol, "%s beside other solvers, h=%r" % (self.name, hu))


def basis_ok(L):
    return np.linalg.cond(L) < 1e10 and np.linalg.cond(np.linalg.eig(L)[1]) < 1e3


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


def check(case):
    specs, ops = case["specs"], case["ops"]
    for sp in specs:
        if sp["form"] == "eig" and not basis_ok(One.operator(case, sp)):
            return False, ["ill-conditioned basis"]
        if sp["form"] == "mat" and np.max(np.abs(gen.carr(case["Ls"][sp["L"]]))) * case["h"] > 4:
            return False, ["outside the circle"]
    together = [One(case, k) for k in range(len(specs))]
    views = [[] for _ in specs]
    for op in ops:
        others = [(k, together[k].settings(), list(together[k].s.t), len(together[k].s.u)) for k in range(len(specs)) if k != op[0]]
        views[op[0]].append(together[op[0]].do(op, check=True))
        for k, cfg, t, nu in others:
            x = together[k]
            require(x.settings() == cfg, "%s on solver %d (%s) changed the settings of solver %d (%s) from %s to %s", op[1], op[0], specs[op[0]]["solver"], k, x.name, cfg, x.settings())
            require(list(x.s.t) == t and len(x.s.u) == nu, "%s on solver %d changed the stored history of solver %d", op[1], op[0], k)
    for k in reversed(range(len(specs))):
        alone = One(case, k)
        for op, v in zip([o for o in ops if o[0] == k], views[k]):
            w = alone.do(op)
            require(equal(v, w), "%s: %s among other solvers gives %s, alone %s", alone.name, op[1], v, w)
    switches = sum(a[0] != b[0] for a, b in zip(ops, ops[1:]))
    names = [specs[o[0]]["solver"] for o in ops]
    return switches >= 2, ["same class" if len(set(names)) < len({o[0] for o in ops}) else "other classes", "default config" if any(sp["cfg"] is None for sp in specs) else "explicit"]


# ------------------------------------------------ switching inside a step
@st.composite
def sched_st(draw):
    c = dict(draw(case_st()))
    for k in range(len(c["specs"])):  # everyone has something to do
        if not any(o[0] == k and o[1] in ("step", "evolve") for o in c["ops"]):
            c["ops"].append([k, "step", draw(pick(1.0, 0.5))])
    c["how"] = draw(pick("threads", "threads", "nested"))
    c["sched"] = draw(st.lists(st.integers(0, 3), min_size=3, max_size=40))
    return c


class Baton:
    """Runs the solvers in threads of their own, switching only at evaluations of the nonlinear terms, as scheduled."""

    def __init__(self, sched):
        self.sched, self.i, self.switches = sched, 0, 0
        self.locks, self.done, self.error = [], [], None

    def choose(self, me):
        live = [k for k in range(len(self.locks)) if not self.done[k]]
        if not live:
            return None
        k = live[self.sched[self.i % len(self.sched)] % len(live)]
        self.i += 1
        self.switches += k != me
        return k

    def pause(self, me):
        k = self.choose(me)
        if k != me:
            self.locks[k].release()
            self.locks[me].acquire()

    def run(self, jobs):
        self.locks = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * len(jobs)
        main = threading.Semaphore(0)

        def work(me, job):
            self.locks[me].acquire()
            try:
                with np.errstate(all="ignore"):
                    job(lambda: self.pause(me))
            except BaseException as e:  # pylint: disable=broad-except
                self.error = self.error or e
            self.done[me] = True
            k = self.choose(me)
            (main if k is None else self.locks[k]).release()

        ts = [threading.Thread(target=work, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
        for t in ts:
            t.start()
        self.locks[self.choose(-1)].release()
        main.acquire()
        for t in ts:
            t.join()
        if self.error is not None:
            raise self.error


def check_sched(case):
    specs, ops = case["specs"], case["ops"]
    for sp in specs:
        if sp["form"] == "eig" and not basis_ok(One.operator(case, sp)):
            return False, ["ill-conditioned basis"]
        if sp["form"] == "mat" and np.max(np.abs(gen.carr(case["Ls"][sp["L"]]))) * case["h"] > 4:
            return False, ["outside the circle"]
    mine = [[o for o in ops if o[0] == k] for k in range(len(specs))]
    xs = [One(case, k) for k in range(len(specs))]
    views = [[] for _ in specs]
    if case["how"] == "threads":
        def job(k):
            def go(pause):
                xs[k].pause = pause
                for o in mine[k]:
                    views[k].append(xs[k].do(o))
            return go

        b = Baton(case["sched"])
        b.run([job(k) for k in range(len(specs))])
        switches = b.switches
    else:  # one solver at work inside another's nonlinear term, at most one level per solver
        todo = [list(m) for m in mine]
        busy, i, switches = set(), [0], [0]

        def pause(me):
            k = case["sched"][i[0] % len(case["sched"])] % len(specs)
            i[0] += 1
            if k not in busy and todo[k]:
                switches[0] += 1
                work(k)

        def work(k):
            busy.add(k)
            try:
                views[k].append(xs[k].do(todo[k].pop(0)))
            finally:
                busy.discard(k)

        for k in range(len(specs)):
            xs[k].pause = lambda k=k: pause(k)
        for k in range(len(specs)):
            while todo[k]:
                work(k)
        switches = switches[0]
    for k in range(len(specs)):
        alone = One(case, k)
        for op, v in zip(mine[k], views[k]):
            w = alone.do(op)
            require(equal(v, w), "%s: %s interrupted by other solvers (%s) gives %s, alone %s", alone.name, op[1], case["how"], v, w)
    names = [sp["solver"] for sp in specs]
    return switches >= 2, [case["how"], "same class" if len(set(names)) < len(names) else "other classes"]


FACETS = [
    Facet("interleaved", case_st(), check, quick=5000, shards=8, rule="2-4 solvers, 2-10 operations"),
    Facet("suspended", sched_st(), check_sched, quick=2000, shards=8,
          rule="control passes between solvers at evaluations of their nonlinear terms: threads under a generated schedule, or one solver running inside another's nonlinear term"),
]

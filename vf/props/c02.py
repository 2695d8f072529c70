"""C02: an accepted adaptive step is the published higher-order step over the reported size."""

import numpy as np
from hypothesis import strategies as st

from .. import adapt, gen, ref, cmp
from ..core import Facet, require

RULE = (
    "Generated systems and configurations stepped through an adaptive solver's public step() with starting steps that "
    "may be rejected; the accepted state is compared with the long-double tableau advanced from the same state by the "
    "reported step. Non-trivial: nonlinear term active and tolerance four digits below the state."
)
ASSUMPTIONS = ["step() continues from its previous output (or follows reset): the documented FSAL contract"]


class Bounded(gen.NL):
    """A nonlinear term that is only defined for states of magnitude below `bound`."""

    def __init__(self, d, bound, how):
        super().__init__(d)
        self.bound, self.how, self.outside = bound, how, 0

    def __call__(self, u):
        out = super().__call__(u)
        with np.errstate(all="ignore"):
            m = np.max(np.abs(u))
        if not m <= self.bound:
            self.outside += 1
            out = out.copy()
            if self.how == "one":
                out[0] = np.nan
            else:
                out[:] = float(self.how)
        return out


@st.composite
def overflow_case(draw, kind):
    c = dict(draw(adapt.adaptive_case(kind, hmax=-0.5)))
    m = float(np.max(np.abs(gen.carr(c["u0"]))))
    c["bound"] = float("%.3g" % ((0.2 * c.get("us", 1.0) + m) * draw(gen.pick(1.5, 2.5, 4.0, 8.0))))
    c["how"] = draw(gen.pick("nan", "inf", "-inf", "one"))
    c["hf"] = draw(st.lists(gen.pick("s", 1.0, 0.1, 30.0, 300.0, 3000.0), min_size=2, max_size=5))
    return c


@st.composite
def wide(draw, kind, nmax):
    c = dict(draw(gen.wide_system(kind, nmax, -2.0)))
    c["solver"] = draw(gen.pick(*(adapt.DIAGNAMES if kind == "diag" else adapt.MATNAMES)))
    c["cfg"] = draw(gen.solver_cfg((-9.0, -1.0)))
    c["hf"] = draw(st.lists(gen.pick("s", "s", 1.0, 0.5), min_size=1, max_size=3))
    c.update(reset_at=None, force_complex=False, diagonalize=False)
    return c


@st.composite
def history(draw, kind):
    c = dict(draw(gen.history(adapt.adaptive_case(kind, stiff=4.0), ("s", "s", 1.0, 1.0, 0.5, 0.25, 1.0 + 1e-10))))
    return c


def nonlinear(case):
    return gen.NL(case["nl"]) if case.get("bound") is None else Bounded(case["nl"], case["bound"], case["how"])


def completes(case, L, u, h):
    s = gen.make(case["solver"], L, nonlinear(case), cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    try:
        with np.errstate(all="ignore"):
            s.step(u, h)
        return True
    except s.SolverError:
        return False


def check(case):
    name = case["solver"]
    case = gen.damp(gen.expand(case) if "seed" in case else case)
    L, u = gen.decode_L(case), gen.decode_u(case)
    bound = case.get("bound")
    nl = nonlinear(case)
    eig, cond = adapt.eig_info(case, L)
    if cond > 1e4:
        return False, ["ill-conditioned basis"]
    s = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    err_t = s.SolverError
    labels = [name]
    useful = rejected = 0
    h = case["h"]
    for i, f in enumerate(case["hf"]):
        if f != "s":
            h = case["h"] * f
        if bound is None:
            h = min(h, case["h"])
        outside = getattr(nl, "outside", 0)
        if case["reset_at"] == i:
            s.reset()
        try:
            with np.errstate(all="ignore"):
                un, hu, hs = s.step(u, h)
        except err_t as e:
            labels.append("solver error")
            # the same step on a solver without a past must fail as well (unless rounding decides)
            require(i == 0 or not all(completes(case, L, u, h * g) for g in (1.0, 1.0 - 1e-7, 1.0 + 1e-7)), "%s: step %d (h=%r) fails with %r, but completes on a new solver from the same state", name, i, h, e)
            break
        left = getattr(nl, "outside", 0) > outside
        require(0 < hu <= h, "%s: accepted step %r outside (0, %r]", name, hu, h)
        require(np.all(np.isfinite(un)), "%s: accepted a non-finite state", name)
        if bound is not None and hu * float(np.max(np.abs(L))) > 1e6:
            labels.append("huge")
            break
        with np.errstate(all="ignore"):
            r = ref.ref_step(name, L, nl, u, hu)
        if bound is not None and any(0.999 * bound < np.max(np.abs(y)) < 1.001 * bound for y in r.states):
            labels.append("at the bound")
            break
        if not np.isfinite(r.smax) or r.smax > 1e8 * case.get("us", 1.0):
            labels.append("huge")
            break
        tol, ok = cmp.step_tolerance(name, case, L, hu, r, nl, eig=eig, cond=cond)
        cmp.same(un, r.unew, tol, "%s accepted step %d (h=%r of %r)" % (name, i, hu, h))
        if hu < h:
            rejected += 1
            if left and i:
                labels.append("after a non-finite trial")
        if ok and r.nmax * hu > 1e-6 * r.smax and r.nmax > 0:
            useful += 1
        u, h = un, hs
    if rejected:
        labels.append("after rejection")
    if len(case["hf"]) > 1:
        labels.append("multi")
    return useful > 0, labels


FACETS = [
    Facet("diagonal", adapt.adaptive_case("diag", stiff=7.5), check, quick=3000, shards=4, rule="1D operators, all four solvers"),
    Facet("overflow", overflow_case("diag"), check, quick=3000, shards=4, rule="nonlinear term undefined beyond a state bound, steps up to 3000 times too large, after accepted steps"),
    Facet("overflow_eig", overflow_case("eig"), check, quick=1000, shards=2, rule="the same, diagonalized"),
    Facet("matrix", adapt.adaptive_case("mat"), check, quick=1000, shards=4, rule="full matrices"),
    Facet("diagonalized", adapt.adaptive_case("eig"), check, quick=1500, shards=3, rule="full matrices, diagonalize=True"),
    Facet("wide", wide("diag", 4097), check, quick=1000, shards=2, rule="1D operators of 6-4097 modes"),
    Facet("wide-matrix", wide("mat", 20), check, quick=120, shards=2, rule="full matrices of 6-20 modes"),
    Facet("history", history("diag"), check, quick=700, shards=3, rule="9-50 steps, suggested sizes mixed with sizes that recur"),
    Facet("history-eig", history("eig"), check, quick=300, shards=2, rule="the same, diagonalized"),
    Facet("history-matrix", history("mat"), check, quick=150, shards=2, rule="the same, full matrices"),
]

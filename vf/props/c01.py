"""C01: a fixed step is exactly the published exponential Runge-Kutta step."""

from hypothesis import strategies as st
import numpy as np

from .. import gen, ref, cmp
from ..core import Facet, require
from ..env import FIXED

RULE = (
    "Generated semilinear systems (1-5 modes; zero, tiny, near-cutoff, moderate, stiff and oscillatory spectra; "
    "polynomial coupling; random ETDConfig) stepped through the public step(); every step is compared with the "
    "published tableau evaluated in long double from the same input state. Non-trivial: the nonlinear term is "
    "non-zero and the tolerance is at least four digits below the state."
)
ASSUMPTIONS = [
    "step() continues from its previous output (or follows reset/construction): the documented FSAL contract",
    "full-matrix ETD: the contour circle encloses the spectrum of hL with a factor-two margin",
]


@st.composite
def _steps(draw, sysd):
    c = draw(sysd)
    c["solver"] = draw(st.sampled_from(FIXED))
    c["hf"] = draw(
        st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.25, 1.0 + 1e-12, 1.0 + 1e-9, 1 - 1e-7, 1.001, 0.8]), min_size=1, max_size=5)
    )
    c["hf"][0] = 1.0
    c["reset_at"] = draw(st.one_of(st.none(), st.integers(1, 4)))
    c["force_complex"] = draw(st.booleans())
    return c


@st.composite
def wide(draw, kind, nmax):
    c = dict(draw(gen.wide_system(kind, nmax)))
    c["solver"] = draw(st.sampled_from(FIXED))
    c["hf"] = [1.0] + draw(st.lists(st.sampled_from([1.0, 0.5, 1.0 + 1e-9, 0.8]), max_size=2))
    c.update(reset_at=None, force_complex=False)
    return c


@st.composite
def history(draw, sysd):
    c = dict(draw(gen.history(sysd, (1.0, 1.0, 0.5, 0.25, 1.0 + 1e-12, 1 - 1e-7, 1.001))))
    c["solver"] = draw(st.sampled_from(FIXED))
    c["force_complex"] = draw(st.booleans())
    return c


def check(case):
    name = case["solver"]
    case = gen.damp(gen.expand(case) if "seed" in case else case)
    L, u = gen.decode_L(case), gen.decode_u(case)
    nl = gen.NL(case["nl"])
    s = gen.make(name, L, nl, etd=case["etd"])
    labels = [name, case["kind"]]
    useful = 0
    for i, f in enumerate(case["hf"]):
        h = case["h"] * f
        if case["reset_at"] == i:
            s.reset()
            labels.append("reset")
        r = ref.ref_step(name, L, nl, u, h)
        un = s.step(u, h)
        if not np.isfinite(r.smax) or r.smax > 1e8 * case.get("us", 1.0):
            labels.append("huge")
            break
        tol, ok = cmp.step_tolerance(name, case, L, h, r, nl)
        require(np.all(np.isfinite(un)), "%s step %d: non-finite result from a finite step", name, i)
        cmp.same(un, r.unew, tol, "%s step %d (h=%r)" % (name, i, h))
        if ok and r.nmax * h > 1e-6 * r.smax and r.nmax > 0:
            useful += 1
        u = un
    if len(case["hf"]) > 1:
        labels.append("multi")
    if case["kind"] == "diag":
        az = np.abs(case["h"] * L)
        cut = case["etd"].get("modecutoff", 0.01)
        labels += [k for k, c in (("z=0", az == 0), ("small", (az > 0) & (az < cut)), ("big", az >= cut), ("stiff", az > 20)) if c.any()]
    return useful > 0, labels


FACETS = [
    Facet("diagonal", _steps(gen.diag_system(stiff=7.5, units=True)), check, quick=6000, shards=6, rule="1D operators, 1-5 consecutive steps with repeated, nearly equal and different h"),
    Facet("matrix", _steps(gen.mat_system(units=True)), check, quick=1600, shards=4, rule="full-matrix operators, 1-4 modes"),
    Facet("wide", wide("diag", 4097), check, quick=1200, shards=2, rule="1D operators of 6-4097 modes"),
    Facet("wide-matrix", wide("mat", 20), check, quick=160, shards=2, rule="full matrices of 6-20 modes"),
    Facet("history", history(gen.diag_system(nmax=2, stiff=4.0, units=True)), check, quick=700, shards=3, rule="9-50 steps through a palette of up to 14 step sizes that recur"),
    Facet("history-matrix", history(gen.mat_system(nmax=2, units=True)), check, quick=200, shards=2, rule="the same, full matrices"),
]

"""C04: acceptance and suggested sizes follow the published embedded estimate."""

import numpy as np

from .. import adapt, gen, ref
from ..core import Facet, require

RULE = (
    "Generated systems, configurations and starting steps; the accepted size and the suggestion returned by step() are "
    "compared with an independent controller model driven by the published embedded estimate in long double. Cases "
    "whose outcome rounding could flip (scale within 1e-8 of a threshold, estimate at rounding level) are counted as "
    "trivial. Non-trivial: the model reached a verdict."
)
ASSUMPTIONS = ["documented controller constants: growth at most 4, shrink at least 0.25 per attempt"]


def check(case):
    name = case["solver"]
    L, u = gen.decode_L(case), gen.decode_u(case)
    nl = gen.NL(case["nl"])
    eig, cond = adapt.eig_info(case, L)
    if cond > 1e3:
        return False, ["ill-conditioned basis"]
    cfg = gen.full_cfg(case["cfg"])
    s = gen.make(name, L, nl, cfg=case["cfg"], etd=case["etd"], diagonalize=case["diagonalize"] or None)
    labels = [name]
    useful = 0
    h = case["h"]
    for i, f in enumerate(case["hf"]):
        if f != "s":
            h = case["h"] * f
        h = min(h, case["h"])
        if case["reset_at"] == i:
            s.reset()
        m = adapt.ref_adaptive(name, case, L, nl, u, h, cfg, eig, cond)
        try:
            un, hu, hs = s.step(u, h)
        except s.SolverError as e:
            require(m is None or m["attempts"] > 50, "%s step %d failed (%s) but the estimate accepts h=%r", name, i, e, m and m["h"])
            labels.append("solver error")
            break
        if m is not None:
            t = 20 * m["rel"]
            require(abs(hu - m["h"]) <= t * m["h"], "%s step %d from h=%r: accepted %r, the published estimate gives %r (scale %r)", name, i, h, hu, m["h"], m["s"])
            require(abs(hs - m["suggest"]) <= t * m["suggest"], "%s step %d: suggested %r, the published estimate gives %r (scale %r)", name, i, hs, m["suggest"], m["s"])
            useful += 1
            labels.append("rejections" if m["attempts"] > 1 else "first try")
            labels.append("grow" if m["grow"] else "keep")
            if m["clamped"]:
                labels.append("max growth")
            if m["masked"]:
                labels.append("masked modes")
        u, h = un, hs
    return useful > 0, sorted(set(labels))


FACETS = [
    Facet("diagonal", adapt.adaptive_case("diag", nsteps=3, stiff=6.5), check, quick=3000, shards=4, rule="1D operators, all four solvers"),
    Facet("matrix", adapt.adaptive_case("mat", nsteps=3), check, quick=900, shards=4, rule="full matrices"),
    Facet("diagonalized", adapt.adaptive_case("eig", nsteps=3), check, quick=1500, shards=3, rule="full matrices, diagonalize=True"),
]

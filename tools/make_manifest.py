"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
    "C01": "Hypothesis property-based testing: differential against long-double published tableaux",
    "C02": "Hypothesis property-based testing: differential against long-double published tableaux after rejections",
    "C03": "Hypothesis property-based testing: measured order against an extrapolated long-double flow oracle",
    "C04": "Hypothesis property-based testing: differential against a from-scratch controller and estimate model",
    "C05": "Hypothesis property-based testing with fault injection: scripted estimates against a controller model",
    "C06": "Hypothesis property-based testing: exact solutions and equilibria as oracles",
    "C07": "Hypothesis property-based testing: exact rational step-count oracle",
    "C08": "Hypothesis property-based testing: invariants over the recorded time history and shift metamorphic relation",
    "C09": "Hypothesis property-based testing: independent history, storage-frequency metamorphic relation",
    "C10": "Hypothesis stateful (generated histories) testing: differential against a fresh solver",
    "C11": "Hypothesis property-based testing: differential between operator representations",
    "C12": "Hypothesis property-based testing: metamorphic relations (permutation, conjugation, splitting, scaling, invariants)",
    "C13": "Hypothesis property-based testing: closed-form solutions as oracle over tolerances",
    "C14": "Hypothesis property-based testing with fault injection at generated evaluations",
    "C15": "Hypothesis stateful (generated assignments) testing against a validity model",
    "C16": "Hypothesis stateful (interleaved operations) testing: differential against solvers run alone",
    "C17": "Hypothesis property-based testing: differential between log levels and a level-parsing model",
    "C18": "Hypothesis property-based testing: exact rational grid oracle",
    "C19": "Hypothesis property-based testing: analytic derivatives and algebraic laws",
    "C20": "Hypothesis property-based testing: exact polynomial derivatives",
    "C21": "Hypothesis property-based and stateful testing: direct sums, round trips, analytic pairs, fresh-object differential",
    "C22": "Hypothesis property-based testing: index-by-index even extension",
    "C23": "Hypothesis property-based testing: stated equations evaluated from coefficients, PDE residual",
    "C24": "Hypothesis property-based testing: differential against DOP853, exact solutions, conserved quantities",
    "C25": "Hypothesis property-based testing: contract model and presentation metamorphic relation",
    "C26": "Hypothesis property-based testing: extended-precision phi functions and quadrature of the defining integral",
    "C27": "Hypothesis stateful (generated histories) testing: counted evaluations against the scheme's stage count",
}
NOTE = (
    "Searches generated cases only; no absence proof. Trusts the references in vf/ref.py (transcribed from the literature, "
    "evaluated in x87 extended precision), numpy/scipy and Hypothesis. Domain limits and tolerances: DESIGN.md and the "
    "evidence file's assumptions."
)
checks = [
    dict(
        property=k,
        quick_cmd="python3-vt check.py %s --tier quick" % k,
        thorough_cmd="python3-vt check.py %s --tier thorough" % k,
        technique=v,
        level="exploration",
        level_note=NOTE,
    )
    for k, v in sorted(T.items())
]
json.dump(
    dict(
        version=1,
        setup_cmd="python3-vt -c 'import vf.core, vf.ref, vf.gen, hypothesis, scipy'",
        checks=checks,
        not_applicable=[],
        notes="No hooks: the checks use the public API of /repo's working tree (pure Python, imported directly, nothing to rebuild).",
    ),
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)

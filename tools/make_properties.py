"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["rkstiff/" + f for f in files],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


SOLV = ["etd4.py", "etd5.py", "if4.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py"]
p("C01", "A fixed step is exactly the published exponential Runge-Kutta step",
  "For every semilinear system and step size, one step of ETD4, ETD5 or IF4 returns the value of the published scheme (Krogstad ETDRK4, Whalen-Brio-Moloney ETDRK5, integrating-factor RK4) to near rounding accuracy, whatever the stiffness of each mode (including zero, tiny and complex eigenvalues) and whether the operator is given as a diagonal or a full matrix. This stays true for consecutive steps whose sizes repeat, differ slightly or change freely.",
  ["inputs", "configurations", "histories"], "all linear operators (1D and square), smooth nonlinear terms, states, step sizes and sequences of step sizes, contour settings that enclose the spectrum",
  "The tests run a handful of PDEs at loose tolerances with one grid; they never compare a step with the scheme itself over spectra mixing tiny, near-threshold and stiff modes.",
  ["etd4.py", "etd5.py", "if4.py", "etd.py"],
  [("coefficients by direct formula or contour mean, split at a mode threshold", "etd4.py/etd5.py update_coeffs"), ("first-same-as-last reuse and per-h coefficient cache", "update_stages, _update_coeffs")], ["step()", "evolve()"])
p("C02", "An accepted adaptive step is the published step over the reported size",
  "Whenever an adaptive solver accepts a step it returns the higher-order solution of its published embedded pair, advanced from the given state by exactly the step size it reports, to near rounding accuracy. This holds after any number of rejected attempts, for consecutive steps, and for diagonal, full-matrix and diagonalized operators.",
  ["inputs", "configurations", "histories"], "all systems, tolerances, initial step suggestions (including ones that force rejections) and step sequences",
  "Tests only look at final errors of smooth runs; a stale stage after a rejection or a wrong coefficient in one operator variant is hidden by error control.",
  ["etd34.py", "etd35.py", "if34.py", "if45dp.py", "solveras.py"],
  [("reuse of the last stage only after acceptance", "update_stages(accept)"), ("coefficients recomputed whenever h changes", "_update_coeffs")], ["step()"])
p("C03", "Every solver attains its design order on every smooth non-stiff system",
  "As the step size shrinks, the one-step error of ETD4, IF4, ETD34 and IF34 against the true flow shrinks at least like the fifth power of the step, and that of ETD5, ETD35 and IF45DP at least like the sixth power, for every smooth nonlinear term and bounded linear operator.",
  ["inputs"], "all polynomial nonlinearities with coupling between components, all bounded diagonal and full operators",
  "The convergence tests use a few fixed PDEs whose structure (scalar-like coupling, special symmetries) leaves many order conditions unexercised.",
  SOLV, [("scheme coefficients", "update_coeffs / update_stages")], ["step()"])
p("C04", "Step acceptance and suggested sizes follow the embedded error estimate",
  "For every adaptive solver the accepted step size and the suggested next size are those obtained from the solver's published embedded error estimate by the documented rule: scale = safety * (epsilon*|u|/|err|)^(1/q) over the modes above the relative cutoff, retry smaller when the scale is below one, grow only when it exceeds the increase threshold. The estimate itself vanishes with the step size at the published rate.",
  ["inputs", "configurations"], "all systems, configurations and suggested step sizes",
  "Tests check only that a run finishes with small error; an estimator that is wrong by a factor or by an order only changes how many steps are taken.",
  ["solveras.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py"],
  [("embedded error estimates", "update_stages"), ("scale factor", "solveras.py _compute_s")], ["step() return values", "solver.t"])
p("C05", "The adaptive controller honours its limits on any stream of estimates",
  "Given any sequence of trial solutions and error estimates, the controller accepts exactly the trials whose scale is at least one, shrinks a rejected step by a factor within the documented limits (and by the minimum factor on non-finite estimates), never grows a step beyond the maximum factor, accepts a finite trial with zero estimated error, and fails with the documented error when the minimum step or the attempt limit is reached.",
  ["inputs", "configurations", "fault_sequences"], "all scripted sequences of (trial, estimate) pairs including zeros, infinities and NaN, all valid configurations and starting steps",
  "Tests script a few single-attempt cases with one configuration.",
  ["solveras.py"], [("retry loop", "solveras.py step"), ("clamping", "_reject_step_size/_accept_step_size")], ["step()", "exceptions"])
p("C06", "Linear problems, constant forcing and equilibria are solved exactly",
  "With no nonlinear term every solver returns the exact exponential propagation for any step size, however stiff, and adaptive solvers complete such runs. The ETD solvers are also exact for constant forcing, and keep every steady state of the full system steady for any step size.",
  ["inputs", "configurations"], "all operators (stiff, oscillatory, mildly unstable), states, step sizes and intervals",
  "Tests try one decaying system; exactness for every spectrum and at adaptive level (zero error estimate) is not sampled.",
  SOLV + ["solveras.py", "solvercs.py"], [("exact treatment of the linear part", "exponential coefficients"), ("zero error estimate accepted", "solveras.py")], ["step()", "evolve()"])
p("C07", "Fixed-step evolution covers the interval in exactly the implied steps",
  "Fixed-step evolution from t0 to tf takes the smallest whole number of steps of the given size that reaches tf (exactly n steps when the interval is n step sizes up to rounding), records times that are t0 plus whole multiples of the step, and returns the state after exactly that many steps. A step size exceeding the interval, or not positive, is refused with a value error.",
  ["inputs"], "all start times, end times and step sizes, including ones not representable exactly, negative and large times, and step counts in the thousands",
  "Tests use tf=0.3 or 0.4 with h=0.1, where accumulated rounding happens not to bite.",
  ["solvercs.py"], [("time loop", "solvercs.py evolve")], ["evolve()", "solver.t"])
p("C08", "Adaptive evolution covers the interval exactly, in increasing times",
  "Adaptive evolution takes steps whose recorded times strictly increase from t0 and end at tf itself, never beyond it, for any start time, length and initial step (the default included), or the run fails with the documented solver error; an empty interval returns the initial state. Shifting t0 and tf together does not change the states beyond rounding.",
  ["inputs", "configurations"], "all start and end times, initial steps and tolerances",
  "Tests integrate one interval starting at zero and check the end time approximately.",
  ["solveras.py"], [("clipping of the last step", "solveras.py evolve")], ["evolve()", "solver.t"])
p("C09", "Stored snapshots are faithful and runs have no side effects",
  "Evolution stores the initial state and then every store_freq-th state at its time, unaltered by later steps; the returned state and the step sequence do not depend on whether or how often snapshots are stored. Neither evolution nor stepping modifies the caller's initial state, operator or configuration.",
  ["inputs", "configurations"], "all systems, solvers, storage frequencies and input array kinds",
  "Tests check the number of snapshots for one frequency, not their contents against an independent history.",
  ["solveras.py", "solvercs.py"], [("snapshot list", "evolve"), ("fresh arrays per stage", "update_stages")], ["solver.t", "solver.u", "evolve() result", "argument arrays"])
p("C10", "Results do not depend on what the solver did before",
  "After any history of steps, evolutions, failures and resets, a new evolution (or a reset followed by steps) gives bit-for-bit the result of a newly built solver, and an evolution equals the same steps taken one at a time. Nothing computed for an earlier step size, state or failed run leaks into a later result.",
  ["histories", "fault_sequences"], "all sequences of step, evolve, reset and failing calls on one solver object",
  "Tests construct a new solver per test; cached stages and coefficients are only ever exercised in one order.",
  SOLV + ["solveras.py", "solvercs.py"], [("reset of cached stage and coefficients", "reset/_reset"), ("h-keyed coefficient cache", "_update_coeffs")], ["step()", "evolve()", "reset()"])
p("C11", "The representation of the linear operator does not change the solution",
  "A diagonal operator given as a vector or as a full matrix, and a full matrix handled directly or by diagonalization, produce the same steps, the same adaptive step sizes and the same trajectories up to rounding. Changing the basis of a full-matrix problem changes fixed-step solutions only by that basis change.",
  ["inputs", "configurations"], "all diagonal operators and well-conditioned diagonalizable matrices, all solvers offering both forms",
  "Tests run each representation on its own problem and never compare them, so an inconsistency in one variant stays invisible.",
  ["etd4.py", "etd5.py", "if4.py", "etd34.py", "etd35.py", "if34.py"], [("diagonal, diagonalized and full-matrix strategies", "class trio in each solver module")], ["step()", "evolve()", "solver.t"])
p("C12", "Solvers commute with permutation, conjugation, splitting and time scaling",
  "Renumbering the components, conjugating the whole problem, or rescaling time (operator and nonlinear term divided by c, step multiplied by c) transforms the solution in the same way; uncoupled components evolve as if alone under fixed steps; weighted sums that the system conserves are conserved.",
  ["inputs"], "all systems and all permutations, scalings and block decompositions",
  "Metamorphic relations over whole families of problems; the tests contain none.",
  SOLV, [("componentwise/matrix arithmetic without positional or scale-dependent special cases", "update_coeffs/update_stages")], ["step()", "evolve()"])
p("C13", "Adaptive accuracy follows the requested tolerance",
  "On problems with a known solution, the error of an adaptive run is bounded by a modest multiple of the tolerance times the number of steps, and tightening the tolerance by orders of magnitude reduces the error accordingly, for every adaptive solver and operator form.",
  ["inputs", "configurations"], "families of exactly solvable nonlinear systems (Bernoulli/logistic, rotations, coupled by random bases), tolerances from 3e-3 down to 1e-13",
  "Tests use one or two problems at one tolerance.",
  ["solveras.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py"], [("embedded error control", "solveras.py step")], ["evolve()"])
p("C14", "Adaptive failure is loud: never a non-finite or silently wrong result",
  "An adaptive step or evolution either returns a finite state or raises the documented solver error; blow-up, overflow, NaN or infinite nonlinear values at any moment never produce a returned non-finite state and never loop for ever. After such a failure the same object evolves a well-behaved problem as a new one would.",
  ["inputs", "fault_sequences"], "finite-time blow-up problems and nonlinear terms that return NaN/inf or huge values at any chosen evaluation",
  "Tests contain one explosive example.",
  ["solveras.py"], [("rejection of non-finite scale factors", "solveras.py step"), ("attempt and minimum-step limits", "solveras.py step")], ["step()", "evolve()", "exceptions"])
p("C15", "Configurations accept exactly the documented values",
  "Setting any solver or contour parameter, at construction or later, succeeds and reads back equal for every value in its documented range, and otherwise raises the documented error and leaves the previous value in place. NaN is never accepted.",
  ["inputs", "histories"], "all real values including boundaries, infinities and NaN, all parameters, sequences of assignments",
  "Tests try one bad value per parameter, and none checks that a failed assignment changes nothing.",
  ["solveras.py", "etd.py"], [("validating setters", "SolverConfig/ETDConfig")], ["property reads", "exceptions"])
p("C16", "Solver instances are independent of one another",
  "Building, configuring, stepping, failing or resetting one solver never changes the results, settings or stored history of another, including solvers of the same class built without an explicit configuration and solvers stepped alternately. (Log levels, which the library sets per solver class, are not covered by this.)",
  ["histories", "configurations"], "all interleavings of operations on two or more solver objects of any classes, including interleavings inside steps (threads switching at evaluations of the nonlinear terms, one solver run inside another's nonlinear term)",
  "Every test uses one solver at a time.",
  SOLV + ["solveras.py", "solvercs.py", "etd.py"], [("per-instance state and per-instance default configuration", "constructors")], ["step()", "evolve()", "config attributes"])
p("C17", "Logging never changes results, and log levels mean what they say",
  "Results, times and errors are identical at every log level, and a run of any length and any start time never fails because of its log messages. Level names are accepted case-insensitively, numeric levels pass through, unknown names raise a value error, and repeated setup adds no duplicate output.",
  ["configurations", "inputs"], "all log levels, all solvers, short and long runs at any time offset",
  "Tests check level parsing on examples; no test runs more than a hundred steps at a verbose level or ends at time zero.",
  ["util/loghelper.py", "solver.py", "solveras.py", "solvercs.py"], [("progress messages", "evolve"), ("level parsing", "loghelper.py")], ["evolve()", "captured log records"])
p("C18", "Fourier grids have n points, spacing (b-a)/n and matching wavenumbers",
  "For every even n > 2 and interval [a,b) the Fourier grids have exactly n uniformly spaced points starting at a and excluding b, and wavenumbers that are the non-negative (real) or FFT-ordered (complex) multiples of 2*pi/(b-a). Other n are refused with the documented error type.",
  ["inputs"], "all even n up to thousands, all finite intervals",
  "Tests use n up to 64 on a few intervals; rounding produced an extra point on a few percent of intervals.",
  ["grids.py"], [("grid formula", "grids.py construct_x_kx_*")], ["returned arrays"])
p("C19", "Spectral Fourier derivatives are exact on resolved trigonometric polynomials",
  "On the library's own Fourier grids (and on uniform periodic grids with an odd number of points), the derivative of any order of any trigonometric polynomial below the Nyquist wavenumber equals its analytic derivative, real input stays real, order zero is the identity, and differentiation is linear and composes (m then n equals m+n). Malformed input is refused with the documented error type and inputs are not modified.",
  ["inputs"], "all band-limited functions, intervals, grid sizes and orders",
  "Tests differentiate a few sine and Gaussian functions.",
  ["derivatives.py", "grids.py"], [("multiplication by (ik)^n", "derivatives.py dx_rfft/dx_fft")], ["returned arrays", "exceptions"])
p("C20", "Chebyshev grids and differentiation are exact on polynomials",
  "The Chebyshev grid on [a,b] has n+1 strictly increasing points, symmetric, with both endpoints; its differentiation matrix, applied once or repeatedly, to one function or to columns of several, is exact on every polynomial of degree at most n, up to rounding. Inconsistent shapes, orders and sizes are refused.",
  ["inputs"], "all n, intervals, polynomials, orders, and column stacks",
  "Tests check a few functions on [-1,1].",
  ["grids.py", "derivatives.py"], [("barycentric differentiation matrix", "grids.py construct_x_dx_cheb"), ("dx_cheb", "derivatives.py")], ["returned arrays"])
p("C21", "The Hankel transform inverts itself, is linear and matches known pairs",
  "Forward then inverse transform restores any radial sample vector up to the method's accuracy at that size, both are linear, and Gaussians transform to the analytic Gaussian on the stated grids. Changing the size or radius of an existing transform makes it equal to a newly built one, refused values leave it unchanged, and returned matrices are copies.",
  ["inputs", "histories"], "all sizes from 4, radii, sample vectors and sequences of reconfigurations",
  "Tests check one Gaussian at a few sizes; no sequence of changes is checked against a fresh object.",
  ["transforms.py", "grids.py"], [("rebuild on size or radius change", "transforms.py setters"), ("scale factor", "transforms.py ht/iht")], ["ht", "iht", "r", "kr"])
p("C22", "Mirroring a radial grid gives the even extension along the chosen axis",
  "Mirroring returns the grid (-r reversed, then r) and, along the chosen axis, the field values that make the extension even: the value at -r equals the value at r for every other index; nothing else is altered, and any other axis is refused.",
  ["inputs"], "all grids, 1D and 2D fields of any dtype and shape, all axes",
  "Tests check tiny examples.",
  ["grids.py"], [("flip and stack", "grids.py mirror_grid")], ["returned arrays"])
p("C23", "Model operators realise their stated equations",
  "For every resolved state, the linear plus nonlinear operators of the KdV, Burgers and Allen-Cahn models equal the spectral right-hand side of the stated equation (for Allen-Cahn, of the deviation from the linear profile x that carries the boundary values). The KdV soliton satisfies the KdV equation for every amplitude, position and time, and the multi-soliton profile is the sum of its solitons.",
  ["inputs"], "all grids, band-limited states, amplitudes, positions, times and parameters",
  "Tests compare shapes and one or two profiles.",
  ["models.py"], [("operators and closures", "models.py")], ["lin_op", "nl_func", "profiles"])
p("C24", "Solved PDEs conserve what they should and all solvers agree",
  "Integrating the model PDEs from generated smooth states, all seven solvers agree with each other and with an independent integrator to their tolerance; KdV (while resolved) keeps mass and momentum, Burgers keeps mass and loses energy, the KdV soliton travels unchanged, and real fields stay real.",
  ["inputs", "configurations"], "band-limited initial states, domain sizes, viscosities, solvers and tolerances",
  "Tests follow one initial condition per model and compare each solver only with itself.",
  SOLV + ["models.py", "grids.py"], [("whole pipeline grid -> operators -> solver", "package")], ["evolve()"])
p("C25", "Construction and call contract hold for every solver",
  "Every solver accepts a 1D or (where offered) square 2D operator and refuses every other shape with a value error, refuses operators its method cannot handle (IF45DP with matrices, diagonalization of singular matrices), reports its kind consistently, and returns states of the input's shape. Integer, real, complex, single-precision, read-only and strided inputs of equal value give equal results (in double precision).",
  ["inputs", "configurations"], "all operator shapes and dtypes, all solvers and state array kinds",
  "Tests check one bad shape and float/complex arrays only.",
  SOLV + ["solver.py", "util/solver_type.py"], [("shape validation", "solver.py"), ("kind reporting", "util/solver_type.py")], ["constructors", "step()", "solver_type"])
p("C26", "The psi functions are r! times the phi functions",
  "For every complex argument away from zero, psi_1, psi_2 and psi_3 equal r times the integral of exp((1-s)z) s^(r-1) over [0,1], to the accuracy the direct formula allows at that magnitude, and they commute with conjugation and act elementwise.",
  ["inputs"], "complex arguments of modulus 1e-2 to 1e3 in the closed left half-plane and moderate right half-plane, arrays of any shape",
  "Tests evaluate a few real arguments.",
  ["etd.py"], [("closed formulas", "etd.py psi1..psi3")], ["return values"])

p("C27", "A step costs no more nonlinear evaluations than its scheme has stages",
  "Solvers evaluate the nonlinear term only while stepping, on arrays of the state's shape, and at most: 4 times per step for ETD4 and IF4, 6 for ETD5; per attempt 4 times for ETD34 and IF34 and 6 for IF45DP; for ETD35 once per step and 5 times per attempt; plus one evaluation in the first step after construction, reset or the start of an evolution (not for ETD35). In particular a rejected attempt does not repeat the evaluation at the step's start, and storing and logging evaluate nothing.",
  ["inputs", "configurations", "histories"], "all systems, operator forms, tolerances, sequences of steps, evolutions, rejections and resets, storage settings and log levels",
  "No test counts evaluations.",
  SOLV + ["solveras.py", "solvercs.py"], [("first-same-as-last reuse", "update_stages of each solver"), ("retry loop", "solveras.py step")], ["number and arguments of nl_func calls"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Feasibility search answers exactly what its oracle accepted",
 "For every oracle, search space and options, the feasibility search asks the oracle at the space's current centre once per round, and the first time the oracle returns no cut it stops and returns that very centre together with the number of completed rounds, without touching the space in that round. "
 "Otherwise it applies exactly the returned cut as a bias cut, and returns 'no point' with the number of completed rounds as soon as the space reports any status other than success or its size measure drops strictly below the tolerance. "
 "When the iteration budget is used up (including a budget of zero) it returns 'no point' and the budget.",
 ["programs", "inputs", "configurations"], "every oracle, search space, tolerance and iteration budget",
 "The tests run three or four concrete oracles with two concrete spaces; the contract is parametric in user supplied oracle and space types.",
 ["src/cutting_plane.rs"], [("cutting_plane_feas", "src/cutting_plane.rs")],
 observe=["cutting_plane_feas"])
prop("C02", "Optimisation search returns the last improving centre it queried",
 "For every oracle, space and options, each round of the optimisation search queries the oracle once at the current centre with the caller's objective bound (which only the oracle changes); when the oracle reports an improvement the queried centre, as it was before the space is updated, becomes the incumbent and the cut is applied as a central cut, otherwise the cut is applied as a bias cut and the incumbent is kept. "
 "It stops, returning the incumbent (none if there never was an improvement) and the number of completed rounds, as soon as the space reports a status other than success or its size measure is strictly below the tolerance. "
 "When the budget is exhausted it returns the incumbent and the budget.",
 ["programs", "inputs", "configurations"], "every oracle, search space, initial bound, tolerance and iteration budget",
 "Tests fix a handful of oracles and only look at the final optimum to a few digits.",
 ["src/cutting_plane.rs"], [("cutting_plane_optim", "src/cutting_plane.rs")], observe=["cutting_plane_optim"])
prop("C03", "Discrete optimisation search: incumbent, retry and stop protocol",
 "In the discrete search the oracle is told to retry exactly when the previous round's cut had no effect, more alternatives were offered and the search went on; after a successful cut, or at the start, it is never told to retry. "
 "The incumbent is always the discrete point the oracle itself handed back in the latest round in which it reported an improvement, and every cut is applied with the space's discrete update. "
 "The search stops, returning incumbent and number of completed rounds, when the space reports no solution, when it reports no effect and the oracle offered no further alternative, or when the size measure is strictly below the tolerance; an exhausted budget returns the incumbent and the budget.",
 ["programs", "inputs", "configurations"], "every discrete oracle, search space, initial bound, tolerance and iteration budget",
 "One discrete example is tested; the retry protocol depends on multi-round histories the example barely exercises.",
 ["src/cutting_plane.rs"], [("cutting_plane_optim_q", "src/cutting_plane.rs")], observe=["cutting_plane_optim_q"])
prop("C04", "Bisection halves the interval, keeps the feasible half and reports the result",
 "For every interval with lower <= upper, the bisection search queries the oracle exactly once per round at the midpoint of the current interval, keeps the lower half when the midpoint is feasible and the upper half otherwise, stops when the half-width is strictly below the tolerance or the budget is exhausted, and reports the number of rounds and whether some midpoint was found feasible. "
 "On return the caller's interval holds the final narrowed bounds; an interval with lower > upper is refused by a panic before any query. "
 "The bisection adaptor judges a value by setting it on its oracle and running the feasibility search on a copy of its space: only when that finds a point does its own space change, and then only by moving its centre to that point.",
 ["programs", "inputs", "configurations"], "every interval, oracle, space, tolerance and budget",
 "Tests bisect two concrete problems; which half is kept in every history and what the adaptor leaves behind on failure is not observed.",
 ["src/cutting_plane.rs"], [("bsearch", "src/cutting_plane.rs"), ("BSearchAdaptor", "src/cutting_plane.rs")], observe=["bsearch", "OracleBS::assess_bs"])
prop("C05", "Every library call terminates within its budget",
 "No library function can loop forever: every loop advances a counter or a finite iterator towards a bound fixed before the loop starts (array sizes, constraint counts or the caller's iteration budget), never only until some real number gets small or an oracle changes its mind, and no function calls itself, directly or through others. "
 "The iterative solvers run at most max_iters rounds, query the oracle at most once per round, and never report more rounds than that, for every oracle and input.",
 ["inputs", "programs"], "every public function, every input, every oracle behaviour",
 "A test can only see that the sampled runs stopped.",
 ["src"], [("counted for-loops", "src/**/*.rs")])
prop("C06", "Results are a pure function of arguments and object state",
 "No library function reads or writes hidden mutable state, the environment, files, clocks, random numbers, threads or the console; calling it twice with equal arguments and equal objects gives equal results, and it changes only objects the caller passed mutably. "
 "Objects never share mutable state behind the caller's back: clones and stored arguments are independent.",
 ["programs", "histories", "schedules"], "every public function and call history",
 "Hidden state shows up only in particular call histories; tests run each scenario once in a fresh process.",
 ["src"], [("no statics, no interior mutability, no unsafe, no I/O", "src/**/*.rs")])
prop("C07", "Single-cut update parameters follow the ellipsoid formulas",
 "For every dimension n, squared size tsq and cut offset beta, with tau = sqrt(tsq): a bias cut yields rho = (tau + n*beta)/(n+1), sigma = 2*rho/(tau+beta), delta = n^2/(n^2-1) * (1 - (beta/tau)^2), and a central cut is the beta = 0 case (rho = tau/(n+1), sigma = 2/(n+1), delta = n^2/(n^2-1)), up to rounding. "
 "The variant that is handed tau + n*beta by its caller uses that value in place of it and otherwise agrees.",
 ["inputs"], "every dimension, offset and size",
 "Tests sample a few (n, beta, tsq) points, mostly n = 4.",
 ["src/ell_calc.rs"], [("EllCalcCore", "src/ell_calc.rs")],
 observe=["EllCalcCore::calc_bias_cut", "EllCalcCore::calc_bias_cut_fast", "EllCalcCore::calc_central_cut", "EllCalc::calc_bias_cut", "EllCalc::calc_central_cut"])
prop("C08", "Parallel-cut update parameters follow the ellipsoid formulas",
 "For every dimension n, size tsq and offsets b0, b1, with eta = tsq + n*b0*b1 and xi = sqrt((tsq-b0^2)(tsq-b1^2) + (n(b1^2-b0^2)/2)^2), a parallel cut yields sigma = 2*eta/(tsq + b0*b1 + n(b0+b1)^2/2 + xi), rho = sigma*(b0+b1)/2 and delta = n^2/(n^2-1) * ((2*tsq-b0^2-b1^2)/2 + xi/n)/tsq, up to rounding. "
 "The parallel central cut is given by a = b1^2/tsq, r = n*a/2 + sqrt(1 - a + (n*a/2)^2), rho = b1/(r+1), sigma = 2/(r+1), delta = r/(r - 1/n). "
 "The legacy parallel formula agrees with its published definition for all inputs.",
 ["inputs"], "every dimension, pair of offsets and size",
 "Tests sample a few points; wrong terms that vanish there go unnoticed.",
 ["src/ell_calc.rs"], [("EllCalcCore parallel cut formulas", "src/ell_calc.rs")],
 observe=["EllCalcCore::calc_parallel_bias_cut", "EllCalcCore::calc_parallel_bias_cut_fast", "EllCalcCore::calc_parallel_central_cut", "EllCalcCore::calc_parallel_bias_cut_fast_old"])
prop("C09", "Cuts are classified and dispatched correctly for every offset and size",
 "A bias cut is 'no solution' exactly when beta^2 > tsq; in discrete mode it is 'no solution' exactly when beta > tau and otherwise 'no effect' exactly when tau + n*beta < 0; a parallel cut is 'no solution' exactly when its upper offset is below its lower one (for central cuts: below zero), and a discrete parallel cut is 'no effect' exactly when eta <= 0; everything else is 'success', and central cuts always succeed. "
 "A parallel cut whose second offset is absent, lies outside the ellipsoid (positive and b1^2 >= tsq), or whose parallel handling is switched off is treated exactly as the corresponding single cut with the first offset. "
 "'No solution' carries parameters (0,0,0) and 'no effect' carries (0,0,1).",
 ["inputs", "configurations"], "every offset, size, dimension and parallel-cut setting",
 "Boundary comparisons (strict versus non-strict, which offset is compared) matter on measure-zero or rarely sampled inputs.",
 ["src/ell_calc.rs"], [("EllCalc", "src/ell_calc.rs")],
 observe=["EllCalc::calc_*"])
prop("C10", "Ellipsoid update applies exactly the rank-one cut formula and stays symmetric",
 "For every ellipsoid (centre xc, symmetric matrix Q, scale kappa) and cut gradient g, an update sets the size measure to kappa*g'Qg, asks for the cut parameters at that size, and on success moves the centre by -(rho/omega)*Qg, replaces every entry of Q by Q - (sigma/omega)*(Qg)(Qg)' with omega = g'Qg, and multiplies kappa by delta, up to rounding. "
 "The updated matrix is exactly symmetric: entries (i,j) and (j,i) hold the same value. "
 "With the no-deferral switch on, the scale is folded into the matrix after each successful update and reset to one; with it off the matrix is never rescaled.",
 ["inputs", "histories", "configurations"], "every dimension, ellipsoid state, gradient, cut kind and update kind",
 "Tests use 4-dimensional scaled identities with constant gradients, for which many wrong index or transpose choices coincide.",
 ["src/ell.rs"], [("Ell update", "src/ell.rs")], observe=["Ell::update_bias_cut", "Ell::update_central_cut", "Ell::update_q"])
prop("C11", "Factored (stable) ellipsoid update computes the same cut on its LDL' form",
 "For every stable ellipsoid (whose matrix holds unit upper factor entries above the diagonal and reciprocal pivots on it) and gradient g, an update solves forward with the factor, sets the size measure to kappa*omega for the resulting quadratic form omega, and on success solves backward, moves the centre by -(rho/omega) times the solution, applies the rank-one factor update with mu = sigma/(1-sigma) to pivots and factor entries, and multiplies the scale by delta, up to rounding. "
 "Scratch values it leaves below the diagonal never influence any later result.",
 ["inputs", "histories"], "every dimension, factored state, gradient, cut kind and update kind",
 "Tests start from scaled identities in dimension 4 where the factor is trivial.",
 ["src/ell_stable.rs"], [("EllStable update", "src/ell_stable.rs")], observe=["EllStable::update_*"])
prop("C12", "A rejected cut leaves the search space unchanged",
 "Whenever a search-space update (bias, central or discrete; single or parallel cut; plain or stable ellipsoid) returns a status other than success, the centre, the shape of the ellipsoid and its scale are exactly what they were before the call, and only the size measure has been refreshed. "
 "The status returned to the caller is the one the cut computation produced.",
 ["inputs", "histories", "configurations"], "every space state, gradient and cut",
 "Tests check one rejected cut on one state.",
 ["src/ell.rs", "src/ell_stable.rs"], [("status test before mutation", "src/ell.rs, src/ell_stable.rs")], observe=["SearchSpace::update_*"])
prop("C13", "Each update kind reaches its own cut rule in both ellipsoid types",
 "For both ellipsoid types and both cut kinds, the bias update uses the bias-cut rule, the central update the central-cut rule and the discrete update the discrete rule, with the offsets of the cut that was passed in, the ellipsoid's own dimension and its freshly computed size. "
 "Centre and size accessors return the current centre and size, and setting the centre replaces the centre and nothing else. "
 "A space that does not define a discrete update uses its bias update for it.",
 ["inputs", "programs"], "every cut kind x update kind x ellipsoid type, every state",
 "A swapped route gives plausible numbers and is only seen when the particular combination is sampled.",
 ["src/ell.rs", "src/ell_stable.rs", "src/cutting_plane.rs"], [("UpdateByCutChoice impls", "src/ell.rs, src/ell_stable.rs")])
prop("C14", "Search-space and calculator constructors establish the documented initial state",
 "Building an ellipsoid from a scalar gives the identity matrix with that scalar as scale; from a vector gives the diagonal matrix of that vector with scale one; from a matrix or covariance stores it unchanged with the given scale or one; in every case the centre is the given one, the size measure is zero, deferral is on, parallel cuts are enabled and the cut calculator is set up for the dimension of the centre. "
 "Cutting-plane options built without arguments allow 2000 iterations with tolerance 1e-20 and are quiet, and explicit values are stored as given.",
 ["inputs"], "every dimension and argument",
 "Tests construct 2- and 4-dimensional instances.",
 ["src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs", "src/cutting_plane.rs"], [("constructors", "src/ell.rs")])
prop("C15", "LDL' factorisation gives a correct positive-definiteness verdict and witness",
 "For every symmetric matrix, factorisation computes the LDL' recurrence row by row, reports success exactly when all pivots are positive (in the semidefinite-tolerant variant: none negative, restarting after a zero pivot), and otherwise stops at the first offending pivot and remembers the index window; a matrix containing NaN in an examined pivot is never reported positive definite. "
 "After a failure the witness is the vector obtained by back-substitution with last entry one, its value is minus the offending pivot, and the quadratic form of a matrix is evaluated with that vector over that window only; asking for a witness after success or a square root after failure panics. "
 "After success the square root is the upper-triangular R with R'R equal to the factorised matrix.",
 ["inputs", "histories"], "every matrix size, every matrix, every call order",
 "Ten small fixed matrices are tested.",
 ["src/oracles/ldlt_mgr.rs"], [("LDLTMgr", "src/oracles/ldlt_mgr.rs")], observe=["LDLTMgr::*"])
prop("C16", "LMI oracles accept exactly the positive definite matrix combinations",
 "For every coefficient list F and point x, the LMI oracles accept x exactly when B - sum(x_k F_k) (for the homogeneous oracle: sum(x_k F_k)) factorises as positive definite; otherwise they return the cut whose offset is the witness value and whose gradient entry k is the witness quadratic form of F_k (for the homogeneous oracle its negative). "
 "The lazily evaluated and the materialised oracle return the same answer for every input and history.",
 ["inputs", "histories"], "every coefficient set, point and query history",
 "Tests use one 2/3-dimensional problem and check only feasibility of the final result.",
 ["src/oracles/lmi_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/lmi0_oracle.rs"],
 [("assess_feas", "src/oracles/lmi_oracle.rs")])
prop("C17", "Profit oracles: cuts, bound update and robust/discrete variants",
 "For every input price/elasticity data, point y and bound gamma, the profit oracle examines its two constraints in round-robin order starting after the one it examined last, returns the first violated one (value > 0) with its gradient and no improvement, and when neither is violated sets the bound to the exact profit exp(log_pA + a.y) - v.exp(y), returning the objective gradient with offset zero and 'improved'. "
 "The robust oracle does the same with worst-case parameters, lowering elasticity i by its uncertainty where y_i > 0 and raising it otherwise. "
 "The discrete oracle rounds exp(y) to the nearest integers, never below one, on a first attempt, re-uses the stored rounding on a retry, evaluates the profit cut there, shifts the offset by gradient . (rounded - y), returns the rounded point, and offers another alternative exactly on a first attempt.",
 ["inputs", "histories"], "every data set, point, bound and query history",
 "Regression tests pin one data set.",
 ["src/oracles/profit_oracle.rs"], [("ProfitOracle, ProfitRbOracle, ProfitOracleQ", "src/oracles/profit_oracle.rs")])
prop("C18", "Low-pass filter oracle checks every frequency and returns the right parallel cut",
 "For every oracle state and filter x, the pass band, then the stop band, then the transition band are scanned round-robin from where the previous query left off, each frequency at most once per query, and the first violated bound yields the signed spectrum row as gradient with the matching lower and upper offsets (transition band and the final x_0 >= 0 check: single offset); only if none is violated is x accepted. "
 "An optimisation query adopts the caller's stop-band bound, returns feasibility cuts without improvement and with the bound untouched, and otherwise lowers the bound to the largest stop-band response with the cut of that frequency and 'improved'. "
 "Construction tabulates the cosine spectrum on 15*n equally spaced frequencies with band edges at the rounded-down indices.",
 ["inputs", "histories"], "every filter, oracle state and query history",
 "One 32-tap design is run; per-branch cut offsets are not asserted.",
 ["src/oracles/lowpass_oracle.rs"], [("LowpassOracle", "src/oracles/lowpass_oracle.rs")])
prop("C19", "Max-cut oracle evaluates the sign cut and its gradient",
 "For every square weight matrix and point x, the partition is by sign (zero counts as positive), the cut value is the sum of weights over pairs i<j on opposite sides, and the gradient entry i is minus twice the sum of weights from i to the opposite side. "
 "Exactly when the cut value exceeds the bound the oracle raises the bound to it and reports an improvement with offset minus the cut value; otherwise the bound is unchanged and returned as the offset without improvement.",
 ["inputs"], "every weight matrix, point and bound",
 "Tests use one 2x2 matrix.",
 ["src/oracles/maxcut_oracle.rs"], [("MaxcutOracle", "src/oracles/maxcut_oracle.rs")])
prop("C20", "SVM oracle finds the smallest margin and cuts along that sample",
 "For every data set, labels and point (w, b), the oracle finds the first sample with the smallest margin label*(w.x+b); if that margin is at least one it returns the zero gradient, offset zero and bound zero, otherwise the gradient is minus label times the sample extended by one, and offset and bound are that margin.",
 ["inputs"], "every data set and point",
 "Tests use two tiny data sets and do not check gradient or offset.",
 ["src/oracles/svm_oracle.rs"], [("SvmOracle", "src/oracles/svm_oracle.rs")])
prop("C21", "Quasi-convex example oracle: constraints, gradients and bound",
 "For every point (s, t) and bound gamma, the quasi-convex oracle examines s^2 - t <= 0 and gamma*e^t - s <= 0 in round-robin order starting after the one it examined last, returns the first violated one with its value and its gradient ((2s, -1) and (-1, gamma*e^t)) and no improvement, and if neither is violated sets the bound to s/e^t and returns gradient (-1, s) with offset zero and 'improved'.",
 ["inputs", "histories"], "every point, bound and query history",
 "Tests only look at the optimum it leads to.",
 ["src/quasicvx.rs"], [("MyOracle", "src/quasicvx.rs")])
prop("C22", "Array constructors, accessors and indexing agree on a row-major layout",
 "Every array constructor produces exactly the documented shape and contents (zeros, ones, constant, identity, diagonal, from data, from function, equally spaced and unit-step ranges, row extraction), and a one-dimensional array has as many rows as elements and zero columns. "
 "Element (i,j) is the element i*cols+j of the flat data for every way of reading or writing it, so what is written through one accessor is read back through all others and no other element changes. "
 "Equality means equal shape and equal elements.",
 ["inputs", "programs"], "every shape, index and sequence of accessor calls",
 "Tests use a few square or tiny arrays on which row-major and column-major coincide.",
 ["src/arr.rs"], [("Arr", "src/arr.rs")])
prop("C23", "Array arithmetic is the elementwise or linear-algebra operation it names",
 "For all shapes and contents, the scalar and array operators (+, -, *, /, negation and their assigning, by-value and by-reference forms) act elementwise and keep the left operand's shape (a scalar operand keeps the array's shape); dot, matrix-vector product, outer product, sum, map and the elementwise functions compute exactly what they name, up to rounding; the symmetric rank-one update adds alpha*u_i*u_j to the lower triangle and mirrors it. "
 "Operands taken by reference are never modified.",
 ["inputs"], "every shape and content",
 "Tests check two- or three-element arrays.",
 ["src/arr.rs"], [("operator impls", "src/arr.rs")])
prop("C24", "Array operations refuse mismatched shapes instead of computing garbage",
 "Every binary array operation panics before producing a result or modifying its operands when the element counts of the operands differ; matrix-vector product, dot, outer product, rank-one update, diagonal construction and row extraction panic when given arrays of the wrong dimensionality, length or row index; and constructing an array from data panics unless the data length equals rows*cols.",
 ["inputs"], "every pair of shapes",
 "The tests never pass mismatched shapes.",
 ["src/arr.rs"], [("size assertions", "src/arr.rs")])
prop("C25", "Conjugate gradient returns a solution only when the residual is below tolerance",
 "For every system, starting point (zero when absent), tolerance and budget, the solver performs the standard conjugate-gradient recurrence, returns Ok exactly when the residual norm of an iterate falls strictly below the tolerance, including the starting point itself, and returns that iterate. "
 "It returns an error, never a vector, when the budget is exhausted or a search direction has zero curvature.",
 ["inputs"], "every matrix, right-hand side, start, tolerance and budget",
 "Tests solve one 2x2 system.",
 ["src/conjugate_gradient.rs"], [("conjugate_gradient", "src/conjugate_gradient.rs")])
prop("C26", "Power iterations leave a unit vector and its Rayleigh quotient",
 "Each of the four power-iteration variants multiplies by the matrix and normalises in every round, stops in the first round in which its stopping measure (change of the vector up to sign, or change of the eigenvalue estimate) is at most the tolerance, and returns the eigenvalue estimate of the final vector with the number of completed rounds, or the budget if it is exhausted. "
 "On every return the caller's vector is the final iterate normalised to Euclidean length one.",
 ["inputs"], "every matrix, start vector, tolerance and budget",
 "Tests run one 3x3 matrix to convergence and do not look at the vector.",
 ["src/power_iteration.rs"], [("power_iteration*", "src/power_iteration.rs")])
prop("C27", "The library panics only where a contract is violated",
 "Given arguments of matching shapes and in-range indices, no driver, search-space update or oracle query can reach an explicit panic, an unwrap of an absent value or an 'unreachable' arm, for any oracle answer and any number of previous calls.",
 ["inputs", "histories", "programs"], "every call history with well-shaped arguments",
 "Unreachable arms depend on round-robin state after arbitrary histories.",
 ["src"], [("round-robin index invariant, is_none checks", "src/oracles/*.rs, src/quasicvx.rs, src/cutting_plane.rs")])
prop("C28", "Objects keep their internals private and their invariants closed",
 "Code outside the crate cannot change an array's shape independently of its data, a stable ellipsoid's factor or centre, an LDL' factor, or the private calculator state of an ellipsoid (its dimension and cut constants) except through the operations that keep them consistent: these stay private fields and no public function hands out a reference through which they can be replaced or resized. Every public function that builds or changes an array leaves it with exactly rows*cols elements (or rows elements for a one-dimensional array), whenever it returns.",
 ["programs", "histories"], "every program using the public API",
 "Encapsulation is about programs that do not exist yet.",
 ["src/arr.rs", "src/ell_stable.rs", "src/oracles/ldlt_mgr.rs", "src/ell_calc.rs"], [("private fields", "src/arr.rs")])
prop("C29", "What the library computes does not depend on how it is built",
 "The crate builds with no, each and all of its cargo features, and every public function computes the same result, leaves the same state and refuses the same arguments in each of these builds. With debug assertions switched on (debug profile) or off (release profile) it computes the same as well, except that a failing debug assertion may refuse a call: code that is present in one build only never changes a result, an object or the path taken afterwards.",
 ["configurations", "inputs", "histories"], "every feature set and profile, every call",
 "The test suite is built once, in the debug profile with default features; what a release build or another feature set computes is never run.",
 ["src", "Cargo.toml"], [("cfg(feature), debug_assert", "src/lib.rs, src/arr.rs")])
prop("C30", "Python drivers follow the query, cut and stop protocol",
 "For every oracle, search space and options, the Python cutting_plane_feas and cutting_plane_optim read the centre and query the oracle once per round at that centre; when the oracle accepts (returns None, or reports optimality) they return (SUCCESS, that very centre, index of the round) without touching the space; otherwise the cut is handed on unchanged to space.update_bias_cut, a status other than SUCCESS is returned as it is with the centre that was queried and the index of the round, and a size measure strictly below the tolerance returns SUCCESS with the centre after the cut; an exhausted budget (also a budget of zero) returns (UNKNOWN, current centre, max_iters). "
 "binary_search halves [lower, upper] keeping the half the oracle points to (upper moves to the middle exactly when the oracle says yes), stops with SUCCESS at the middle as soon as the width is strictly below the tolerance, checked before each query, and returns UNKNOWN with the middle of the last interval when the budget is used up. "
 "cutting_plane runs the feasibility search exactly for oracles that have assess_feas and reports no objective for them; for the others it returns what cutting_plane_optim returns, whose objective is the value reached; omitted options mean 2000 rounds and tolerance 1e-20.",
 ["programs", "inputs", "configurations"], "every oracle, search space, interval, tolerance and budget",
 "The package's driver tests cannot even be collected at the pinned commit, and would only sample two oracles.",
 ["python_ai/ellalgo/cutting_plane.py"], [("drivers", "python_ai/ellalgo/cutting_plane.py")])
prop("C31", "Python Ell owns its arrays and applies exactly the calculator's cut",
 "Every constructor of the Python Ell refuses (raises for) a matrix that is not two-dimensional and square or a centre that is not one-dimensional of the same size, and otherwise holds copies: changing the caller's arrays, the array returned by get_xc or the array given to set_xc afterwards never changes the ellipsoid, and an update never changes the caller's gradient, matrix or centre. "
 "An update with gradient g and offset beta measures tsq = kappa * g'Qg, asks the calculator method of the same kind (bias, central or discrete; single for a number, integer or float, and single-or-parallel for a pair), and on success moves the centre by -(rho/omega) Qg, subtracts (sigma/omega) (Qg)(Qg)' from Q and multiplies kappa by delta (folding kappa into Q and resetting it to 1 when the defer trick is off), with omega = g'Qg. "
 "On any other status only tsq changes and the status is returned; set_xc refuses a centre of another shape and otherwise replaces the centre only.",
 ["inputs", "histories"], "every matrix, centre, gradient, offset and dimension",
 "Tests use two- and three-dimensional unit matrices, for which wrong scalings and shared arrays are invisible.",
 ["python_ai/ellalgo/ell.py"], [("Ell", "python_ai/ellalgo/ell.py")])
prop("C32", "Python cut calculator: refusals change nothing, answers have no memory",
 "For every dimension, offset and tsq, each EllCalc method refuses tsq <= 0 with NO_EFFECT; the single-cut methods refuse beta >= 0 with NO_SOLN and beta <= -sqrt(tsq) with NO_EFFECT and accept everything in between, and the central cut is refused only for tsq <= 0; whatever is refused carries the parameters (0, 0, 1). "
 "A pair whose second offset is None is answered exactly as the single cut of the same kind with the first offset (the plain central cut for the central kind), and any other pair, also one whose second offset is 0, exactly as the parallel cut of that kind; accepted central and parallel (non-discrete) cuts carry the core's parameters; a symmetric pair of cuts does not move the centre. "
 "Answers depend on the dimension and the arguments alone, never on earlier calls, and the core's constants are n, n+1, n/2, 1/n, n^2/(n^2-1) and 2/(n+1).",
 ["inputs", "histories"], "every dimension, offset, tsq and earlier calls",
 "Tests sample one or two offsets in dimension two.",
 ["python_ai/ellalgo/ell_calc.py"], [("EllCalc, EllCalcCore", "python_ai/ellalgo/ell_calc.py")])
prop("C33", "Python oracles answer for the problem they were given",
 "The Python LmiOracle accepts a point exactly when the smallest eigenvalue of F0 + sum x_i F_i is not negative, and otherwise returns that eigenvalue and the gradient v'F_i v for a unit eigenvector v of it; coordinates without a matrix get gradient 0 and matrices without a coordinate are left out; the constructor refuses matrices of another shape than F0 and a non-square F0. "
 "The ProfitOracle answers x1 > capacity with gradient (1, 0) and offset capacity - x1; otherwise it returns the gradient of the negative profit (zero outside the positive quadrant), reporting optimality with offset 0 exactly when its norm is below 1e-6 and offset -0.1 otherwise. "
 "Both keep copies of the arrays they are built from, leave the caller's point alone, and answer a query the same way whatever was asked before.",
 ["inputs", "histories"], "every problem, point and earlier queries",
 "Tests query one 2x2 LMI and one profit problem at a few points.",
 ["python_ai/ellalgo/oracles/lmi_oracle.py", "python_ai/ellalgo/oracles/profit_oracle.py"], [("LmiOracle", "python_ai/ellalgo/oracles/lmi_oracle.py"), ("ProfitOracle", "python_ai/ellalgo/oracles/profit_oracle.py")])
prop("C34", "What the Python package ships fits its own protocols",
 "Every method the search-space protocols require is a method of the package's Ell that accepts the protocol's call, every oracle the package ships implements the query of its own protocol with that signature and is recognised as that kind of oracle and not the other by cutting_plane, and the drivers, options, status, ellipsoid and calculator can be imported from the package itself.",
 ["programs"], "every combination of shipped driver, space and oracle",
 "Tests use stand-ins or fail to import.",
 ["python_ai/ellalgo/__init__.py", "python_ai/ellalgo/cutting_plane.py", "python_ai/ellalgo/ell.py", "python_ai/ellalgo/oracles"], [("Protocol classes", "python_ai/ellalgo/cutting_plane.py")])
# not applicable
prop("C40", "The cutting-plane method converges to the optimum",
 "For every convex problem with a solution inside the initial ellipsoid, the search returns a point whose objective is within the tolerance of the optimum before the iteration budget given by the volume bound is used up.",
 ["inputs"], "every convex problem", "Convergence is asymptotic and problem dependent.",
 ["src/cutting_plane.rs", "src/ell.rs"], [("ellipsoid method", "src/ell.rs")])
prop("C41", "The ellipsoid keeps containing every point that satisfies all cuts",
 "After any sequence of successful updates, every point of the initial ellipsoid that satisfies all applied cuts still lies in the current ellipsoid, in floating-point arithmetic up to a stated tolerance.",
 ["inputs", "histories"], "every cut sequence", "Geometric containment under rounding over histories.",
 ["src/ell.rs"], [("update formulas", "src/ell.rs")])
prop("C42", "Floating-point results stay finite and accurate",
 "For well-scaled inputs no intermediate overflow, cancellation or NaN occurs and results are accurate to a stated relative error.",
 ["inputs"], "every well-scaled input", "Rounding-error bounds over runtime values.",
 ["src"], [("f64 arithmetic", "src")])
prop("C43", "Plain and stable ellipsoids give the same search trajectory",
 "For every problem, running any search with the plain and with the stable ellipsoid visits the same centres up to rounding.",
 ["inputs", "histories"], "every problem", "Equality of two recurrences in different factorisations.",
 ["src/ell.rs", "src/ell_stable.rs"], [("LDL' identity", "src/ell_stable.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")

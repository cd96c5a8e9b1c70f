#!/usr/bin/env python3
"""The list of properties, in one place; writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
I = "include/proxsuite-nlp/"


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


prop("C01", "A reported SUCCESS is a genuine KKT point and the results agree with it",
     "Whenever solve() reports success, recomputing the constraints, derivatives and multipliers from the returned point and the "
     "returned multipliers alone gives a primal/complementarity residual (for the penalty parameter reported with them) and a stationarity "
     "residual which are both within the target tolerance, and the point lies on the manifold. The reported objective value, primal and "
     "dual infeasibilities, per-constraint violations and per-constraint multipliers equal the recomputed ones.",
     ["inputs", "configurations"],
     "All smooth programs over vector spaces, SO(2), SO(3) and products of them with equality, inequality, box, l1 and product constraints, "
     "all initial points and multipliers, all settings of penalties, tolerances, Hessian approximation, KKT form, multiplier update and factorisation.",
     "The solver tests run a handful of fixed programs and configurations and check the flag, not the solution; the quantifier is over programs and settings.",
     [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "results.hpp", I + "workspace.hpp", I + "pdal.hxx", I + "constraint-set.hxx"],
     [("primal and dual residuals and the convergence test of the outer loop", I + "prox-solver.hxx solve / computePrimalResiduals / innerLoop")],
     "property-based testing: random programs and configurations, KKT residuals recomputed by an independent model",
     "Exploration over random programs of up to 6 variables and 4 constraint blocks; oracle is an independent reimplementation of the sets and residuals in the harness. Trusts Eigen and the harness's test-double manifolds for SO(2)/SO(3).",
     ["SolverTpl::solve", "ResultsTpl"])

prop("C02", "Convex quadratic programs are solved to their true solution",
     "On strictly convex quadratic programs with consistent equality, inequality and box constraints satisfying constraint qualification, the solver reports success within the "
     "iteration limit and the returned point agrees with the true solution up to the distance the tolerance allows, from every initial point and multiplier, for "
     "sound choices of penalties, Hessians, multiplier updates and factorisations (including the default settings; with equality constraints also when the penalty parameter may not decrease). On a manifold, minimising the squared distance to a reachable target reaches the target.",
     ["inputs", "configurations"],
     "Random strictly convex QPs (n<=6) with solution known by construction, random starts, random sound configurations; closest-point problems on vector spaces, SO(2), SO(3) and their products; equality-constrained programs with a fixed penalty.",
     "Tests solve a few fixed programs; convergence is a statement over all data, starts and configurations.",
     [I + "prox-solver.hxx", I + "linesearch-armijo.hpp", I + "pdal.hxx", I + "bcl-params.hpp", I + "modelling/costs/squared-distance.hpp"],
     [("globalised primal-dual augmented Lagrangian outer/inner loops", I + "prox-solver.hxx")],
     "property-based testing: programs with solutions known by construction (generate the solution, then the program)",
     "Exploration. Rare limit-cycles of the classic KKT form are a recorded finding (known_findings.txt), so the convergence claim for that form covers the soundness of the answer only.",
     ["SolverTpl::solve"])

prop("C03", "solve() always ends within its limits with a truthful status; misuse is rejected",
     "solve() never exceeds the iteration limits it was given, returns the flag recorded in the results, ends at the iteration limit with the point a "
     "longer run would have at that iteration, never reports success on infeasible or unbounded programs (other than at points which satisfy the residuals) nor with non-finite values, and does not swallow an "
     "exception raised by the very first evaluation of the problem. Calls which cannot work (no setup, wrong number of multiplier blocks, BFGS on curved spaces) raise an error, "
     "and neither a rejected call nor an evaluation failure influences the next solve.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "Programs as in C01 plus infeasible, unbounded and faulting ones; exceptions, NaN and infinities injected at the k-th evaluation of any value/derivative; iteration limits from zero upwards.",
     "Tests never inject failing evaluations, never compare runs of different limits and hardly test misuse.",
     [I + "prox-solver.hxx", I + "exceptions.hpp", I + "linesearch-armijo.hpp"],
     [("iteration and NaN guards", I + "prox-solver.hxx"), ("error macros", I + "exceptions.hpp")],
     "property-based testing with fault injection and metamorphic comparison of runs with different limits",
     "Exploration with injected faults at random evaluation counts; a watchdog bounds every run.",
     ["SolverTpl::solve", "ResultsTpl::converged"])

prop("C04", "Penalty, proximal and tolerance parameters follow the documented schedule",
     "After every outer iteration the penalty parameter, proximal parameter, subproblem tolerance and primal tolerance have the values the documented "
     "bound-constrained-Lagrangian schedule gives for that history of successes and failures, the penalty parameter stays within its bounds and no tolerance drops below its floor. "
     "Multipliers are updated exactly on success, the proximal term is centred at the newest iterate, and the outer loop only leaves a subproblem when its tolerance is met.",
     ["histories", "inputs", "configurations"],
     "Random sequences of schedule operations against a model; random programs observed outer iteration by outer iteration, with all parameters of the schedule random.",
     "No test looks at the schedule at all; it is a property of histories.",
     [I + "prox-solver.hpp", I + "prox-solver.hxx", I + "bcl-params.hpp", I + "constraint-set.hpp"],
     [("updatePenalty, setPenalty, setProxParameter, updateToleranceFailure/Success", I + "prox-solver.hxx")],
     "stateful model-based testing of the schedule; step-by-step observation of outer iterations",
     "Exploration against an executable model of the schedule written from its documentation.",
     ["SolverTpl::solve", "SolverTpl::updatePenalty", "SolverTpl::updateToleranceSuccess"])

prop("C05", "Merit function, its gradient and the multiplier estimates are consistent",
     "At every point the multiplier estimates (first-order and primal-dual), shifted constraints and projected Jacobians are those of the augmented Lagrangian of the "
     "constraint sets; the primal and dual gradients of the merit function are the derivatives of its value, whatever its dual weight (setDualPenalty). During a solve the reported merit value, objective value and "
     "directional derivative are those of the reported iterate and step; every accepted step decreases the merit function sufficiently (Armijo) unless the search is exhausted, and is not "
     "shortened when the full step already does; the multipliers accepted after an outer iteration are those of the selected update rule.",
     ["inputs", "histories", "configurations"],
     "Random points, multipliers, penalties and proximal targets on random programs; every iteration of random solves.",
     "No test checks the merit function's derivative; the relation has to hold at every point and active set.",
     [I + "pdal.hpp", I + "pdal.hxx", I + "prox-solver.hxx", I + "constraint-set.hpp", I + "problem-base.hpp"],
     [("merit function value and gradient", I + "pdal.hxx"), ("computeMultipliers, computeProblemDerivatives", I + "prox-solver.hxx")],
     "property-based testing: reference formulas and finite differences of the merit value along random directions",
     "Exploration. The reference is written from the definition of the projection/Moreau envelope; finite differences are used away from kinks only..",
     ["ALMeritFunctionTpl::evaluate", "SolverTpl::computeMultipliers"])

prop("C06", "Every step solves the (regularised) Newton system of the subproblem",
     "The linear system assembled in every iteration is the semismooth Newton matrix of the current subproblem - chosen Hessian approximation, proximal term, projected Jacobians and "
     "penalty blocks - and is symmetric; its active set is that of the current point. Whenever the matrix has the inertia of a descent direction the step satisfies the Newton "
     "equations of the optimality conditions, otherwise the primal block is shifted by the documented regularisation sequence until the inertia is right and the step solves that system, refined as configured.",
     ["inputs", "histories", "configurations"],
     "Every iteration of random constrained solves, convex and nonconvex, for both KKT forms, all Hessian approximations, all factorisations.",
     "No test reads the KKT system; the quantifier is over iterates, active sets and indefinite Hessians.",
     [I + "prox-solver.hxx", I + "workspace.hpp", I + "ldlt-allocator.hpp", I + "bfgs-strategy.hpp"],
     [("assembly, inertia correction, iterative refinement", I + "prox-solver.hxx innerLoop")],
     "property-based testing: each iteration's system and step compared to a reference assembly and dense solve",
     "Exploration; comparisons are skipped where the matrix is ill-conditioned or the point lies on a kink.",
     ["WorkspaceTpl::kkt_matrix", "WorkspaceTpl::pd_step"])

prop("C07", "Every LDLT factorisation reproduces the matrix and solves the system",
     "For every symmetric matrix in its domain, each factorisation (dense, Bunch-Kaufman real and complex, block-structured with any block structure consistent with the matrix) "
     "reports success, its factors multiply back to the (permuted) matrix, and solve() and solveInPlace() for vectors and matrices of right-hand sides give the solution up to conditioning. "
     "This holds for recomputed, copied and re-permuted factorisations as well, for the back end which the solver allocates for a problem, and for matrices whose rows and columns are scaled by widely different magnitudes.",
     ["inputs", "histories"],
     "Random symmetric (quasi-definite, indefinite, saddle-point, Hermitian) matrices from 1x1 up, random block partitions, random structures and permutations, histories of compute/copy/permute.",
     "Unit tests factorise a few random matrices of fixed sizes and structures.",
     [I + "linalg/dense.hpp", I + "linalg/bunchkaufman.hpp", I + "linalg/block-ldlt.hpp", I + "linalg/block-ldlt.hxx", I + "linalg/ldlt-base.hpp", I + "ldlt-allocator.hpp"],
     [("compute / solve of each factorisation", I + "linalg/")],
     "property-based testing: reconstruction and residual identities over random matrices and structures",
     "Exploration mostly up to dimension ~40, rarely to ~530. Tolerances scale with conditioning; the plain dense LDLT (no pivoting) is only judged on matrices for which it is stable.",
     ["LDLT compute/solve/solveInPlace/reconstructedMatrix"])

prop("C08", "Reported inertia and sign are those of the matrix",
     "For every non-singular symmetric matrix, the inertia derived from a factorisation's reported signature equals the numbers of positive, negative and zero eigenvalues, whatever the scale of "
     "the matrix; the reported sign (positive/negative semidefinite, indefinite) agrees with the definiteness of the matrix factorised last. The inertia count of a signature counts its entries.",
     ["inputs", "histories"],
     "Random symmetric matrices with prescribed spectra and scales from 1e-8 to 1e8, sequences of matrices through one object.",
     "Tests check one inertia example.",
     [I + "linalg/bunchkaufman.hpp", I + "linalg/dense.hpp", I + "linalg/block-ldlt.hxx", I + "ldlt-allocator.hpp"],
     [("computeInertiaTuple, bunch_kaufman inertia, sign()", I + "linalg/")],
     "property-based testing: eigenvalues as the oracle, matrices with prescribed spectra",
     "Exploration; spectra are bounded away from zero relative to the norm.",
     ["computeInertia, sign"])

prop("C09", "Symbolic block structures predict numeric ones and permutations are sparsest",
     "The algebra on block kinds (product, sum, transpose) gives the kind of the numeric result; structure copies, transposes, submatrix views, non-zero counts and symmetry tests agree with their "
     "definitions on every structure; the symbolic factorisation never misses a non-zero block of the numeric factor. The permutation found by the search attains the least number of structural non-zeros, "
     "and the default structure for a problem is dense primal and Jacobian blocks with diagonal dual blocks.",
     ["inputs"],
     "All triples of kinds; random structures with up to 5 blocks, compared with all permutations.",
     "Tests print a few structures; optimality over permutations and soundness over structures are universal.",
     [I + "linalg/block-kind.hpp", "src/block-kind.cpp", I + "ldlt-allocator.hpp", I + "linalg/block-ldlt.hxx"],
     [("symbolic LLT and brute-force permutation", "src/block-kind.cpp")],
     "exhaustive enumeration (kinds) and property-based testing against brute force (structures)",
     "Exploration; the algebra of kinds is enumerated completely.",
     ["SymbolicBlockMatrix operations"])

prop("C10", "Structured block products and triangular solves equal the dense ones",
     "For all kinds of blocks (zero, diagonal, triangular, dense) and all sizes, the structured multiply-accumulate used by the block factorisation adds exactly the dense product for the selected "
     "triangle or block to its destination and writes nothing else, and the block triangular solve equals the dense triangular solve.",
     ["inputs"],
     "All combinations of block kinds, sizes 0..8, scalings, destinations which are sub-blocks of larger matrices.",
     "Tests cover dense matrices of a fixed size only.",
     [I + "linalg/gemmt.hpp", I + "linalg/block-triangular.hpp", I + "linalg/dense.hpp"],
     [("gemmt and triangular kernels", I + "linalg/gemmt.hpp")],
     "property-based testing: differential against plain Eigen products with guarded destinations",
     "Exploration.",
     ["backend::gemmt, block triangular solve"])

prop("C11", "Constraint sets implement their projection, normal cone, active set and envelope",
     "For the equality, negative-orthant, box and l1 sets: the projection is the proximal map of the set (idempotent, nearest point, also in place), the normal-cone projection is the remainder, the active-set "
     "flags and the projected Jacobian are the derivative of the normal-cone projection, and the Moreau envelope has the value and gradient of its definition for the current parameter. "
     "Copies are independent and carry the parameter along.",
     ["inputs"],
     "Random points at, near and away from every kink, random bounds (degenerate ones included), parameters from 1e-6 to 1e6.",
     "Tests evaluate a few points per set.",
     [I + "constraint-set.hpp", I + "constraint-set.hxx", I + "modelling/constraints/equality-constraint.hpp", I + "modelling/constraints/negative-orthant.hpp", I + "modelling/constraints/box-constraint.hpp", I + "modelling/constraints/l1-penalty.hpp"],
     [("projection / normalConeProjection / computeActiveSet / applyProjectionJacobian", I + "modelling/constraints/")],
     "property-based testing: variational characterisation of projections and numeric derivatives",
     "Exploration; derivative statements away from kinks.",
     ["ConstraintSetTpl interface"])

prop("C12", "A product set acts as its components side by side",
     "A product of constraint sets acts on every block exactly like the component acts alone - projection, normal cone, active set, Jacobian, envelope, proximal parameter - whatever the number, order "
     "and sizes of the components, nested products included. Copies are independent and keep their parameter, and mismatched block counts are rejected.",
     ["inputs", "histories"],
     "Random products of up to 4 components, possibly empty blocks and nested products, random points and parameters, copies.",
     "Tests build one product.",
     [I + "modelling/constraints/constraint-set-product.hpp", I + "constraint-set.hpp"],
     [("blockwise delegation", I + "modelling/constraints/constraint-set-product.hpp")],
     "property-based testing: differential against the components alone",
     "Exploration.",
     ["ConstraintSetProductTpl"])

prop("C13", "Every manifold satisfies the axioms of integration and difference",
     "On every space: integrating the difference reaches the target, differencing an integration returns the tangent vector, the Jacobians and transports are the derivatives of these maps in each argument, "
     "interpolation follows the geodesic, and neutral, random and integrated points lie on the manifold. In-place and allocating overloads agree and dimensions are consistent.",
     ["inputs"],
     "Vector spaces, tangent bundles, and products of all of these and of curved leaves; random points and tangents within the injectivity radius.",
     "Tests check a few random points per space.",
     [I + "manifold-base.hpp", I + "manifold-base.hxx", I + "modelling/spaces/vector-space.hpp", I + "modelling/spaces/tangent-bundle.hpp", I + "modelling/spaces/tangent-bundle.hxx", I + "modelling/spaces/cartesian-product.hxx"],
     [("integrate, difference, Jintegrate, Jdifference, JintegrateTransport, interpolate", I + "manifold-base.hxx")],
     "property-based testing of algebraic identities and numeric derivatives",
     "Exploration. Pinocchio is not installed: the curved leaves are test doubles implementing the library's manifold interface.",
     ["ManifoldAbstractTpl interface"])

prop("C14", "Products and tangent bundles are composed of their parts in order",
     "Every operation on a product of spaces or a tangent bundle equals the same operations on the parts in the declared order, whichever way the product was built (multiplication, appending, nesting, "
     "self-appending, copying); split and merge are mutually inverse, split parts are writable views, and vectors of a wrong size are rejected.",
     ["inputs", "histories"],
     "Random expressions of products and bundles over up to 5 leaves, nested.",
     "Tests build two or three products.",
     [I + "modelling/spaces/cartesian-product.hpp", I + "modelling/spaces/cartesian-product.hxx", I + "modelling/spaces/tangent-bundle.hxx", I + "manifold-base.hpp"],
     [("blockwise delegation and flattening", I + "modelling/spaces/cartesian-product.hxx")],
     "model-based property testing: random expressions against a flat reference model",
     "Exploration.",
     ["CartesianProductTpl, TangentBundleTpl"])

prop("C15", "Derivatives of costs and functions are the derivatives of their values",
     "For quadratic-residual and squared-distance costs, gradients and Hessians are those of the value at the given point (Gauss-Newton Hessians as documented), in whatever order value, gradient and Hessian are evaluated and at "
     "whatever points before; seeing a cost as a function or a scalar function as a cost preserves values and derivatives. The target of a distance cost can be read and replaced.",
     ["inputs", "histories"],
     "Random residuals and weights on flat and curved spaces, histories of evaluations at different points, casts.",
     "Tests evaluate derivatives at one point, right after the value.",
     [I + "modelling/costs/quadratic-residual.hpp", I + "modelling/costs/quadratic-residual.hxx", I + "modelling/costs/squared-distance.hpp", I + "cost-function.hpp", I + "function-base.hpp"],
     [("computeGradient / computeHessian", I + "modelling/costs/")],
     "stateful property-based testing: numeric and closed-form derivatives over evaluation histories",
     "Exploration.",
     ["CostFunctionBaseTpl"])

prop("C16", "Sums of costs form the linear algebra they denote",
     "A sum built by any sequence of additions, scalings, self-additions, copies and moves has as value, gradient and Hessian the weighted sum of those of its components, with the number of components that expression has, and "
     "operations never change unrelated sums.",
     ["histories", "inputs"],
     "Random sequences of operations over a pool of costs and sums, nested sums included.",
     "Tests add two costs once.",
     [I + "cost-sum.hpp", I + "cost-sum.hxx", I + "cost-function.hpp"],
     [("operator overloads and evaluation", I + "cost-sum.hpp")],
     "stateful model-based property testing against a symbolic linear combination",
     "Exploration.",
     ["CostSumTpl"])

prop("C17", "Residuals, compositions and finite differences evaluate what they denote",
     "Linear, state-difference and composed functions have the value, Jacobian and (on flat spaces) vector-Hessian product they denote, written only into the given output; finite-difference wrappers keep the value and converge "
     "to the true derivative for their step; mismatched compositions and targets off the manifold are rejected.",
     ["inputs"],
     "Random functions over flat and curved spaces, random outputs inside larger matrices, random steps.",
     "Tests check single instances.",
     [I + "function-base.hpp", I + "function-ops.hpp", I + "modelling/residuals/linear.hpp", I + "modelling/residuals/state-residual.hpp", I + "modelling/autodiff/finite-difference.hpp"],
     [("operator(), computeJacobian, vectorHessianProduct", I + "modelling/residuals/")],
     "property-based testing: closed forms and numeric derivatives",
     "Exploration.",
     ["BaseFunctionTpl interface"])

prop("C18", "The line search returns an evaluated, sufficiently decreasing, bounded step",
     "For every objective along the search direction - smooth or not, with values that are NaN, infinite or throw - the line search terminates, starts from the full step, contracts within its safeguards and limits, and returns the last step it evaluated together with "
     "its value; the step satisfies the sufficient-decrease condition unless the smallest step or the iteration limit was exhausted. Interpolated trial steps are the (safeguarded) minimisers of the interpolating polynomial for each strategy; "
     "flat directions take the full step, polynomials evaluate and differentiate correctly.",
     ["inputs", "configurations", "fault_sequences"],
     "Random one-dimensional functions with injected NaNs and exceptions, random options, random sample histories for the interpolation.",
     "Tests run a few functions.",
     [I + "linesearch-armijo.hpp", I + "linesearch-base.hpp"],
     [("ArmijoLinesearch::run, minimize_interpolant", I + "linesearch-armijo.hpp")],
     "property-based testing with fault injection over objective functions; closed-form minimisers",
     "Exploration. Cubic interpolation is judged with a tolerance that accounts for cancellation.",
     ["ArmijoLinesearch::run"])

prop("C19", "The quasi-Newton update keeps symmetry, definiteness and the secant equation",
     "After every update with positive curvature the matrix satisfies the documented update formula, hence stays symmetric and positive definite and satisfies the secant equation; updates without positive curvature are skipped "
     "and reported as such; along conjugate directions of a quadratic the true Hessian is recovered. Strategies which were not sized are rejected, copies are independent.",
     ["histories", "inputs"],
     "Random histories of points and gradients of convex and nonconvex functions; Hessian and inverse-Hessian variants.",
     "Tests minimise two functions.",
     [I + "bfgs-strategy.hpp"],
     [("BFGSStrategy::update", I + "bfgs-strategy.hpp")],
     "stateful property-based testing against the update formula",
     "Exploration.",
     ["BFGSStrategy"])

prop("C20", "The polymorphic value wrapper is a deep value with correct lifetimes",
     "In every history of constructions, copies, moves, assignments, swaps and destructions (with injected exceptions and with equal and unequal allocators) each wrapper holds its own object of the most-derived type it was given, "
     "copies are independent, moved-from wrappers are valueless, every object is destroyed exactly once, and memory goes back to the allocator it came from.",
     ["histories", "fault_sequences"],
     "Random histories over a pool of wrappers, tracked allocators and tracked objects, exceptions injected in copies, moves and allocations.",
     "Tests copy a handful of objects.",
     [I + "third-party/polymorphic_cxx14.hpp"],
     [("polymorphic<T, Allocator>", I + "third-party/polymorphic_cxx14.hpp")],
     "stateful model-based testing with tracked objects/allocators and injected exceptions",
     "Exploration; sanitizers in the thorough tier.",
     ["xyz::polymorphic"])

prop("C21", "Problems and workspaces lay out constraints consistently",
     "For every problem, however its constraints were added, per-constraint dimensions, indices and segments are the running sums of the constraints' sizes; a fresh workspace and fresh results are zero and sized for the problem; "
     "all per-constraint views are exactly the rows of the stacked data and no two buffers share memory. Evaluations, derivatives and Hessian products of the objective and of each constraint end up in their own slots with the constraint's own multipliers, requested second-order terms only.",
     ["inputs", "histories"],
     "Random problems with up to 7 constraints of size 0 to 4, added at construction or later.",
     "Tests build one or two layouts.",
     [I + "problem-base.hpp", I + "workspace.hpp", I + "results.hpp", I + "helpers-base.hpp"],
     [("indices and views", I + "problem-base.hpp, workspace.hpp")],
     "property-based testing of layouts against running sums",
     "Exploration.",
     ["ProblemTpl, WorkspaceTpl, ResultsTpl"])

prop("C22", "A solve depends only on its inputs and equivalent formulations agree",
     "The outcome of a solve after setup from a given start and multipliers is a function of the problem and the settings: earlier solves, callbacks, logging and history recording, stale memory and the way multipliers are passed (stacked or by constraint) do not influence it. "
     "Iterates agree up to rounding between factorisations, between a constraint and its split into blocks of a product set, between orders of the constraints, and between a constraint and its translate with a translated set.",
     ["histories", "inputs", "configurations"],
     "Random programs, random earlier histories of the same solver, random observers, pairs of equivalent formulations.",
     "Tests solve once per solver; metamorphic relations need pairs of runs.",
     [I + "prox-solver.hxx", I + "prox-solver.hpp", I + "workspace.hpp", I + "results.hpp", I + "ldlt-allocator.hpp", I + "modelling/constraints/constraint-set-product.hpp"],
     [("state carried between solves", I + "prox-solver.hxx")],
     "stateful and metamorphic property-based testing (repeat, permute, split, translate, other factorisation)",
     "Exploration; iterates of differently rounded runs are compared up to the first decision within rounding of its threshold. Explicit initial multipliers are passed (without them the solver documentedly warm-starts).",
     ["SolverTpl::solve"])

prop("C23", "Callbacks and the recorded history describe what the solver did",
     "Callbacks are called in the order of their registration, once per iteration and once at the end; each call shows an iterate on the manifold which is the previous iterate plus the reported step length times the reported step, "
     "step lengths are in (0, 1] and within a subproblem the merit value decreases sufficiently. The recorded history has one entry per call for each quantity it was asked to store, equal to the observed values, the last ones equal to the results.",
     ["histories", "configurations"],
     "Random programs, configurations and sets of callbacks, including none, several, and re-registration.",
     "Tests register one callback on one problem.",
     [I + "helpers/history-callback.hpp", I + "helpers-base.hpp", I + "prox-solver.hxx", I + "prox-solver.hpp"],
     [("callback map and invocation", I + "prox-solver.hpp, prox-solver.hxx")],
     "property-based testing: invariants over the observed history of every solve",
     "Exploration.",
     ["HistoryCallback, BaseCallback"])


prop("C24", "Progress log and printed summaries show what happened",
     "A verbose solve prints one row per iteration, numbered consecutively, whose columns are the quantities a callback observes in that iteration, under headings at the start and every 25 iterations, and a closing message exactly for the outcome it names; "
     "a quiet solve prints no rows, whatever was solved before or after with other verbosity. Printed results, blocks, vectors, enumerations and the version text state the values of the object, and stream and fmt output agree.",
     ["inputs", "histories", "configurations"],
     "Random records (including non-finite and extreme values) and column widths; random programs solved repeatedly at changing verbosity; random results and linear-algebra objects.",
     "No test reads any output; rows depend on the history of the solver object.",
     [I + "logger.hpp", I + "prox-solver.hxx", I + "results.hpp", I + "fmt-eigen.hpp", I + "version.hpp"],
     [("log rows", I + "logger.hpp, prox-solver.hxx innerLoop"), ("printed results", I + "results.hpp")],
     "property-based testing: parse the output back and compare with observed values (round-trip)",
     "Exploration; numbers are compared at the printed precision.",
     ["BaseLogger, ostream/fmt output"])

prop("C25", "Objects which share nothing do not influence each other",
     "A solve and every other computation on objects of its own yields the same numbers, bit for bit, when other work happens in the middle of it: nested in its cost, constraint or callback evaluations, "
     "or concurrently in other threads.",
     ["schedules", "inputs"],
     "Random solver jobs and jobs on factorisations, spaces, sets, finite differences, BFGS; random work nested at random evaluations or callbacks; 2 to 4 threads.",
     "Tests run one object at a time; static or shared scratch data only shows when uses overlap.",
     [I + "prox-solver.hxx", I + "linalg/block-ldlt.hpp", I + "linalg/bunchkaufman.hpp", I + "manifold-base.hpp", I + "modelling/spaces/cartesian-product.hpp", I + "modelling/autodiff/finite-difference.hpp"],
     [("no hidden shared state", "whole library")],
     "property-based testing: differential run alone versus overlapped (nested or threaded)",
     "Exploration; thread interleavings are those the scheduler produces (nested work is the deterministic counterpart).",
     ["all classes"])

prop("C26", "Numeric guards and norms classify every value, errors say what is wrong",
     "The NaN/infinity guards raise exactly for data with a non-finite entry (for scalars, vectors, matrices, columns and transposes, empty ones included) and the dimension guard exactly for a mismatch; the error states expected and actual size, the name of the value, the location and the whole message. "
     "The infinity norm, the sign and the closeness test agree with their definitions for all values.",
     ["inputs"],
     "Random matrices with special values (signed zeros, denormals, infinities, NaN), sizes including zero, random messages.",
     "Tests evaluate the norm of one vector.",
     [I + "math.hpp", I + "exceptions.hpp"],
     [("checks", I + "math.hpp check_value, infty_norm"), ("error macros", I + "exceptions.hpp")],
     "property-based testing against the definitions",
     "Exploration.",
     ["math::*, PROXSUITE_NLP_* guards"])


prop("C27", "Wrapped Lie groups, robot models and rigid motions are the wrapped operations",
     "A wrapped Pinocchio group or model, its tangent bundle or phase space, and products of these, satisfy the manifold axioms and each operation equals the group's own operation with the same arguments and argument index, written completely and only into the output. "
     "Vectors which are too short are rejected without being read; a space keeps its own model through copies, moves and assignments. The action of a rigid transformation on a point has the value R p + t and its Jacobian in the body frame, stays its derivative when the point is changed, is usable as a residual, and a solve which reports SUCCESS has moved the body to the goal at a stationary point.",
     ["inputs", "configurations"],
     "Random compositions of R^n, SO(2), SO(3), SE(2), SE(3), models of up to 4 joints, bundles and products; random points, velocities and matrices; random goals.",
     "The existing tests of these wrappers need Pinocchio and check one or two points by shape.",
     [I + "modelling/spaces/pinocchio-groups.hpp", I + "modelling/spaces/multibody.hpp", I + "modelling/residuals/rigid-transform-point.hpp", I + "modelling/spaces/tangent-bundle.hxx", "src/multibody/spaces.cpp"],
     [("delegation", I + "modelling/spaces/pinocchio-groups.hpp, multibody.hpp"), ("point action", I + "modelling/residuals/rigid-transform-point.hpp")],
     "property-based testing against a stand-in of Pinocchio written from the definitions (axioms, differential, finite differences)",
     "Exploration; Pinocchio itself is not installed: the wrapper code runs against a stand-in with the same interface.",
     ["PinocchioLieGroup, MultibodyConfiguration, MultibodyPhaseSpace, RigidTransformationPointAction"])

prop("C28", "The templates compute the same mathematics for every scalar type",
     "Instantiated with float or long double, every public template (functions and their derivatives, costs and sums, constraint sets and products, spaces, factorisations, line searches, the penalty schedule, "
     "the solver, results, history) compiles and gives the values its definition gives, with the accuracy of that scalar: no intermediate value, constant, tolerance or default passes through a narrower or a fixed type. "
     "Strictly convex programs are solved to the accuracy of the scalar.",
     ["inputs", "configurations"],
     "Random inputs which no narrower type represents (thirds), random sizes, sets, spaces and programs, for float and long double; references in long double.",
     "The library and its tests instantiate double only; a double constant or buffer in a template neither fails to compile nor fails a test.",
     [I + "linesearch-armijo.hpp", I + "function-base.hpp", I + "cost-sum.hpp", I + "constraint-set.hpp", I + "modelling/constraints.hpp", I + "linalg/blocks.hpp", I + "linalg/bunchkaufman.hpp", I + "prox-solver.hxx", I + "third-party/polymorphic_cxx14.hpp"],
     [("scalar template parameter", I + "*.hpp, *.hxx")],
     "property-based testing: the same random cases in several scalar types against references in long double",
     "Exploration; float and long double (no user-defined scalars), vector spaces only for the geometry.",
     ["all public class templates"])

prop("C29", "The Python interface computes, protects and reports as the library does",
     "From Python, each exposed function, cost, space (vector spaces, Lie groups, robot models, bundles and products of these), set, factorisation and the solver give the values of the mathematics they name, for arrays of any layout (row- and column-major, strided, read-only); output arguments are written in place. "
     "Classes derived in Python are called with their overrides, work below every C++ object that takes them, and are stored by value or by reference without losing their Python half; a missing override and every exception of Python code come back as the same Python exception, after which the objects are usable. "
     "Nothing that a live object needs is destroyed when Python names go away; copies and pickles, where the class offers them, are equal to the original; an attribute which may be written takes part in everything computed afterwards. Helpers (plots, imports, DLL directories, symbolic costs) do what they state for every input.",
     ["inputs", "histories of operations", "configurations"],
     "Random compositions of exposed and Python-defined objects, random groups and models, random arrays in all layouts, random orders of releasing names, exceptions at random evaluations, random residual histories and import environments.",
     "The Python tests run one happy path per class, hold every object until the end, and need packages which are rarely all installed.",
     ["bindings/python/expose-function.cpp", "bindings/python/expose-cost.cpp", "bindings/python/expose-solver.cpp", "bindings/python/expose-constraint.cpp", "bindings/python/expose-ldlt.cpp", "bindings/python/expose-manifold.cpp", "bindings/python/expose-pinocchio-residuals.cpp", "bindings/python/include/proxsuite-nlp/python/polymorphic.hpp", "bindings/python/proxsuite_nlp/utils.py"],
     [("wrappers and call policies", "bindings/python/expose-*.cpp"), ("polymorphic converters", "bindings/python/include/proxsuite-nlp/python/polymorphic.hpp")],
     "property-based testing from Python: the compiled bindings against NumPy models, forked workers, shrinking of the choice tape",
     "Exploration; eigenpy and Pinocchio are not installed: the bindings are compiled against stand-ins with their interfaces (Boost.Python and the buffer protocol; the stand-in of C27), so conversions of arrays themselves are not judged.",
     ["proxsuite_nlp Python package"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                           observe_at=p["observe"] or [], hook_needed=None)
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=anchors)) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --build-all",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                          thorough_cmd="python3 check.py " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
             not_applicable=[],
             notes="No hooks in /repo. Replay a reported case with: python3 check.py ID --replay FILE")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

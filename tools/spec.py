"""Writes properties.jsonl and MANIFEST.json from the table below:  python3 tools/spec.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note))


FD = "Reference models are mine; double-precision tolerances (about 1e-9 to 1e-6 relative) hide smaller deviations."

prop("C01", "Hypervolume is the measure of the region dominated up to the reference point",
     "For every finite point set, every number of objectives from two up and every reference point, the reported hypervolume "
     "equals the Lebesgue measure of the region weakly dominated by the points and bounded by the reference point, with points "
     "that are not better than the reference point in all objectives contributing nothing. In particular it does not depend on "
     "the order of points, duplicates, dominated points or the order of objectives, and it is the same through every public "
     "entry point, from objective vectors or from decisions.",
     ["inputs"], "all point sets (ties, duplicates, dominated, outside the reference box), 2..6 objectives, all reference points",
     "tests compare a few fixed sets with few points; the sweep's linked lists depend on order and ties of every coordinate",
     ["hvd/hypervolume.py", "hvd/hypervolume_derivatives.py"],
     [("dimension sweep over linked lists", "hvd/hypervolume.py: HyperVolume, MultiList"),
      ("indicator value", "hvd/hypervolume_derivatives.py: compute")],
     ["hypervolume(points, ref)", "HypervolumeDerivatives.compute"],
     "differential testing against an exact inclusion of grid cells; " + FD)

prop("C02", "Hypervolume gradient is the derivative of the hypervolume",
     "Where the hypervolume is differentiable, the reported gradient with respect to objective vectors is its exact derivative: "
     "the face measure of each non-dominated point and zero for dominated points and points not better than the reference point. "
     "The gradient with respect to decisions is that derivative carried through the objective Jacobian, row i belonging to point "
     "i of the population as given.",
     ["inputs"], "all populations without ties, 2..5 objectives, nonlinear maps with random Jacobians, all dominance structures",
     "tests use a handful of non-dominated sets in 2 or 3 objectives; dominated, repeated and outside points are barely sampled",
     ["hvd/hypervolume_derivatives.py", "hvd/hypervolume.py"],
     [("face measures per coordinate", "hypervolume_derivatives.py: hypervolume_dY, _project"),
      ("chain rule", "hypervolume_derivatives.py: _compute_gradient")],
     ["compute_derivatives(...)"], "differential testing against box-decomposition derivatives and difference quotients; " + FD)

prop("C03", "Hypervolume Hessian is the derivative of the gradient",
     "Where the hypervolume is twice differentiable, the reported second-order derivatives with respect to objective vectors are "
     "the exact derivatives of its gradient, symmetric, and zero in the blocks of dominated points. With respect to decisions they "
     "follow the second-order chain rule including the curvature of the objectives, and the automatic-differentiation variant "
     "gives the same result as the analytical one.",
     ["inputs"], "populations without ties, 2..5 objectives, all dominance structures, nonlinear maps with curvature",
     "tests compare a few sets with automatic differentiation; pairwise interactions in 3+ objectives depend on the whole order",
     ["hvd/hypervolume_derivatives.py"], [("face intersections", "hypervolume_derivatives.py: _compute_hessian, _project")],
     ["compute_derivatives(...)", "compute_automatic_differentiation"],
     "differential testing against box-decomposition second derivatives, difference quotients of the gradient and AD; " + FD)

prop("C04", "Maximization mirrors minimization",
     "Under maximization, for every population and reference point, the value is the hypervolume of the mirrored problem and all "
     "derivatives are the true derivatives of that value with respect to the maximized objectives or decisions, whether objectives "
     "and Jacobians are evaluated by the indicator or supplied by the caller.",
     ["inputs", "configurations"], "all populations and maps, both directions, supplied or evaluated objective data",
     "tests cover maximization at one or two points; which of value, Jacobian and curvature are negated matters on each path",
     ["hvd/hypervolume_derivatives.py"], [("sign handling", "hypervolume_derivatives.py: objective_points, _compute_objective_derivatives")],
     ["HypervolumeDerivatives(minimization=False)"], "metamorphic testing (mirrored problem) and difference quotients; " + FD)

prop("C05", "Dominance, non-dominated sorting and filtering follow Pareto dominance",
     "For every finite set with repeated vectors and ties, non-dominated sorting splits all given points into layers, each holding "
     "exactly the points not dominated by any point outside the earlier layers, every copy listed once. Filtering keeps exactly "
     "the non-dominated vectors, one copy each, in both the returned points and the returned indices; "
     "with weakly dominated vectors excluded, it also leaves out every vector that shares an objective value with another one.",
     ["inputs"], "all finite sets, 1..6 objectives, few distinct values (ties), 0..60 points",
     "tests use short fixed lists; the divide-and-conquer sorting branches on medians, ties and sizes",
     ["hvd/utils.py"], [("divide-and-conquer sorting", "utils.py: non_domin_sort, _nd_helper_a/b, _sweep_a/b"),
                        ("filter", "utils.py: get_non_dominated"), ("comparison", "utils.py: is_dominate")],
     ["non_domin_sort", "get_non_dominated", "is_dominate"], "differential testing against brute-force layers; exact comparison.")

prop("C06", "GD and IGD values and derivatives match their definitions",
     "For every approximation set, reference set, power p and pairing, the generational and inverted generational distances equal "
     "their definitions as power means of nearest (or optimally assigned) distances. Their gradients and Hessians with respect to "
     "objectives and decisions are the exact derivatives of the p-th power of the value wherever nearest neighbours are unique. "
     "This holds at every call, also after the reference set was shifted, matched or replaced or the points changed.",
     ["inputs", "configurations"], "all sets, p in {1, 2, 3, ...}, nearest or one-to-one pairing, nonlinear maps with curvature",
     "tests use p=2 and fixed sets; normalisation, p and multiplicity of nearest neighbours are not varied",
     ["hvd/delta_p.py"], [("value", "delta_p.py: compute"), ("derivatives", "delta_p.py: compute_derivatives")],
     ["GenerationalDistance", "InvertedGenerationalDistance"], "differential testing and difference quotients; " + FD)

prop("C07", "MMD value and derivatives match the kernel definition",
     "For the rational quadratic, Gaussian and Laplace kernels with any parameters, the value equals the biased squared maximum "
     "mean discrepancy between approximation and reference set: nonnegative, zero on equal sets, invariant under reordering and "
     "joint translation. Gradient and Hessian, in objectives and through any objective map in decisions, are its exact derivatives "
     "wherever the kernel is smooth.",
     ["inputs", "configurations"], "all sets and kernels, parameters, set sizes 1..n, nonlinear maps",
     "tests compare with automatic differentiation on one random set and default parameters",
     ["hvd/mmd.py"], [("kernels", "mmd.py: rational_quadratic, rbf, laplace"), ("derivatives", "mmd.py: MMD.compute_gradient/hessian")],
     ["MMD.compute", "MMD.compute_derivatives"], "differential testing against closed-form kernels, metamorphic relations; " + FD)

prop("C08", "Matched MMD follows the current reference targets and spread weight",
     "After every history of evaluations, re-matchings, shifts of targets and changes of the spread weight, value, gradient and "
     "Hessian of the matched MMD equal those computed from scratch for the current targets and the current weight: the mean "
     "distance of every point to its own target, the spread term, and their exact derivatives.",
     ["histories", "inputs"], "histories of evaluate/match/shift/reweight operations over random sets and kernels",
     "tests evaluate a fresh object once; compiled derivative functions may keep stale data",
     ["hvd/mmd.py", "hvd/reference_set.py"], [("matched derivatives", "mmd.py: MMDMatching"), ("targets", "reference_set.py: ReferenceSet")],
     ["MMDMatching.compute", "compute_derivatives"], "model-based testing of histories against a from-scratch recomputation; " + FD)

prop("C09", "Reference points are matched one-to-one and optimally within components",
     "Matching a population to a (possibly clustered) reference set gives every point exactly one target: the population is split "
     "into as many groups as there are components or distinct clusters, groups go to components with minimal total distance, each "
     "component offers as many representatives as its group has points, and points take distinct representatives with minimal "
     "total distance. The outcome does not depend on the order of points or of reference points.",
     ["inputs"], "all populations, 1..3 reference components, group sizes, orders",
     "tests check shapes on one data set; assignment optimality and the index bookkeeping across groups are not checked",
     ["hvd/reference_set.py"], [("partition", "reference_set.py: _partition_Y"), ("component matching", "_match_components"),
                               ("medoids", "_cluster"), ("assignment", "_match")],
     ["ReferenceSet.match", "ReferenceSet.reference_set"],
     "differential testing against exhaustive assignment; the choice of medoids is verified (they are reference points, as many as asked), not predicted.")

prop("C10", "Targets move only when shifted, and by the given step in the improving direction",
     "Over every history of matchings and shifts, a shift by a step moves exactly the selected targets (all, when none are "
     "selected) along the unit improving direction of their own component times the step, leaves the others in place, and later "
     "matchings permute but never alter the moved targets. The automatically derived direction of a component is the unit normal "
     "of its extreme points pointing to better objective values.",
     ["histories", "inputs"], "histories of match and shift with all index selections, given or derived directions",
     "tests shift once; index mapping between population order and component order only shows after re-matching",
     ["hvd/reference_set.py", "hvd/utils.py"], [("shift", "reference_set.py: shift"), ("direction", "_compute_shift_direction; utils.py: compute_chim")],
     ["ReferenceSet.shift/match/eta", "compute_chim"], "model-based testing of histories; " + FD)

prop("C11", "A population state always shows the values of the current points",
     "Over every history of population updates, single-point updates, slicing, saving and loading, the state's objectives, "
     "Jacobians, constraint values, constraint Jacobians and Hessians and active sets belong to its current points, whatever form "
     "the callbacks have (batch, per point, scalar-valued). Evaluation counts grow by exactly the number of points evaluated, and "
     "slices and saved copies carry the same data without later interference.",
     ["histories", "inputs", "configurations"], "histories of update/update_one/slice/save/load, callback styles, constraint mixes",
     "tests exercise single operations with one callback style", ["hvd/base.py"],
     [("population state", "base.py: State")], ["State"], "model-based testing of histories; " + FD)

prop("C12", "Feasibility and first-order optimality are judged by the stated tolerances",
     "A point is reported feasible exactly when all its equality constraints are within 1e-4 of zero and no inequality constraint "
     "is active or violated. The stationarity test reports a residual for which nonnegative weights summing to one over the "
     "objective gradients and admissible multipliers exist, no larger than needed, and accepts points exactly by that residual.",
     ["inputs"], "all constraint values around the tolerance, gradients and multiplier structures",
     "tests check two hand-made points", ["hvd/base.py"], [("feasibility", "base.py: is_feasible"), ("KKT test", "base.py: check_KKT")],
     ["State.is_feasible", "State.check_KKT"], "boundary-value generation and an independent linear program for the least residual.")

prop("C13", "Newton building blocks keep their contracts",
     "Converting per-point primal-dual data with any active sets to a stacked vector and back loses and misplaces nothing; "
     "preconditioning returns a symmetric positive definite matrix that differs from its input by a multiple of the identity and "
     "leaves definite input alone. Bounds given in any documented form become full vectors, box reflection returns points inside "
     "the box and leaves inner points alone, and the backtracking search returns a step that meets its decrease condition or the "
     "smallest trial step.",
     ["inputs", "configurations"], "all active sets, matrices, bounds, boxes with infinite sides, merit functions",
     "tests touch each helper at one or two values", ["hvd/utils.py", "hvd/line_search.py", "hvd/mmd_newton.py"],
     [("layout", "utils.py / mmd_newton.py: Nd_vector_to_matrix, matrix_to_Nd_vector"), ("preconditioning", "utils.py: precondition_hessian"),
      ("bounds", "utils.py: set_bounds, handle_box_constraint"), ("line search", "line_search.py")],
     ["the helper functions"], "round trips, invariants and reference models over generated inputs.")

prop("C14", "Each hypervolume-Newton iteration takes the Newton step of every dominance layer",
     "Every iteration of the hypervolume Newton method drops repeated points and moves each dominance layer (infeasible points "
     "join the first) by a backtracked multiple of the solution of its primal-dual Newton system: exact hypervolume gradient and "
     "Hessian, active constraints and their curvature, optional preconditioning and step limitation; a singular "
     "system takes the least-squares step. Starting points are moved into the box (N are drawn in it if none are given), logged histories show the populations visited, the run stops after the allowed iterations, and equal starts "
     "give equal runs.",
     ["histories", "inputs", "configurations"], "quadratic problems with random constraints, populations, options and iteration counts",
     "tests run fixed problems and check that hypervolume grows", ["hvd/newton.py", "hvd/hypervolume_derivatives.py", "hvd/base.py"],
     [("iteration", "newton.py: HVN.iterate"), ("Newton system", "newton.py: _compute_netwon_step, _compute_R"),
      ("line search", "newton.py: _get_phi_func")],
     ["HVN.run", "HVN.state", "histories"],
     "lock-step comparison with a reference implementation of one iteration; iterations with ties, kinks or ill-conditioned systems are counted but not decided.")

prop("C15", "Each Delta-p Newton iteration moves every point along its own Newton direction",
     "Every iteration of the averaged-Hausdorff Newton method first matches the population to the targets, moves reached targets "
     "on, and then moves each point by a step of at most one, inside the box and accepted by sufficient decrease, along the Newton "
     "direction of the currently larger of the GD and IGD terms (or the selected one) with its active constraints. Reported GD and "
     "IGD values equal their definitions for the population and targets at the start of the iteration.",
     ["histories", "inputs", "configurations"], "quadratic problems with random constraints, one or two reference components, three indicator kinds",
     "tests run fixed problems and compare a final indicator value", ["hvd/newton.py", "hvd/delta_p.py", "hvd/reference_set.py"],
     [("iteration", "newton.py: DpN.newton_iteration"), ("shift rule", "newton.py: _shift_reference_set"),
      ("line search", "newton.py: _backtracking_line_search")],
     ["DpN.run", "DpN.state", "GD_value/IGD_value", "ref.reference_set"],
     "lock-step comparison with a reference direction and target model; undecidable iterations (ties, re-clustering) are counted.")

prop("C16", "Each MMD-Newton iteration moves along the MMD Newton direction",
     "Every iteration of the MMD Newton method moves the population inside the box by a step of at most one that satisfies the "
     "decrease condition along the Newton direction of the (matched or plain) MMD with active constraints, for every kernel. "
     "Targets move by the shift only when all conditions for it hold, starting points are moved into the box or drawn in it, and logged values "
     "equal the MMD of the logged populations.",
     ["histories", "inputs", "configurations"], "quadratic problems, kernels, matching on or off, constraints, iteration counts",
     "tests run fixed problems and compare a final value", ["hvd/mmd_newton.py", "hvd/mmd.py"],
     [("iteration", "mmd_newton.py: MMDNewton.newton_iteration"), ("line search", "_backtracking_line_search_*"), ("shift", "_shift_reference_set")],
     ["MMDNewton.run", "MMDNewton.state", "histories"], "lock-step comparison with a reference Newton direction; " + FD)

prop("C17", "Lara's method moves every point along its normalised descent direction",
     "Every iteration of the multi-gradient method removes repeated points and moves each remaining point against the sum of its "
     "normalised objective gradients, with components that leave the box through a touched side removed and one common step "
     "shortened so that no point leaves the box. Small steps never worsen both of two objectives, and histories, counters and "
     "returned values belong to the populations visited.",
     ["histories", "inputs"], "quadratic and linear problems, duplicates, points on the box, vanishing gradients",
     "no test runs it on the box or with duplicates", ["hvd/gradient_based.py"],
     [("direction", "gradient_based.py: _compute_step"), ("box", "_handle_box_constraint"), ("duplicates", "_check_points_uniqueness")],
     ["Lara.run", "Lara.state"], "lock-step comparison with a reference iteration; exact up to 1e-9.")

prop("C18", "Benchmark objectives equal their published definitions",
     "For every supported number of variables and objectives and every decision in the box, the ZDT, DTLZ, inverted DTLZ, "
     "equality-constrained DTLZ, UF, CF, WFG and analytic problems return the objective vector of their published definition, "
     "alone or within a population, over the published box.",
     ["inputs", "configurations"], "all problems, dimensions (odd and even), decisions including box ends and special values",
     "tests compare one point per problem at default dimensions", ["hvd/problems"],
     [("problem definitions", "hvd/problems/{zdt,dtlz,eqdtlz,uf,cf,wfg,misc}.py"), ("base class", "hvd/problems/base.py")],
     ["problem.objective", "objective_batch", "xl/xu"],
     "differential testing against an independent implementation of the published formulas; documented smoothing near singular points is tolerated.")

prop("C19", "Constraints equal their published definitions, with box constraints on request",
     "For every constrained benchmark, dimension and decision, equality and inequality constraint values (feasible when not "
     "positive) equal the published definitions, alone or within a population. When box constraints are requested, every problem "
     "adds lower-minus-x and x-minus-upper, in this order after its own constraints, and reports matching constraint counts.",
     ["inputs", "configurations"], "all constrained problems and user-defined problems, with and without box constraints, points in and outside the box",
     "tests compare one point per problem", ["hvd/problems"],
     [("constraints", "hvd/problems/cf.py, eqdtlz.py"), ("box constraints", "hvd/problems/base.py: add_boundary_constraints, CMOP")],
     ["eq_constraint", "ieq_constraint", "batch forms", "n_eq_constr/n_ieq_constr"], "differential testing against published formulas; " + FD)

prop("C20", "Problem Jacobians and Hessians are the derivatives of the problem's functions",
     "For every benchmark and user-defined problem, at every interior decision where the function is smooth, the Jacobians and "
     "Hessians of objectives and constraints are the derivatives of those functions, with the documented shapes. Population forms "
     "return the per-point results stacked in order.",
     ["inputs", "configurations"], "all problems, dimensions and interior decisions; populations of 1..4",
     "tests check finiteness or one point; derivatives through clipping, smoothing and branches vary over the box",
     ["hvd/problems"], [("automatic differentiation", "hvd/problems/base.py: MOP, CMOP")],
     ["objective_jacobian/hessian", "eq_/ieq_ jacobian/hessian", "batch forms"],
     "difference quotients with two step sizes of the published formulas and of the reported Jacobians; entries whose estimates disagree are not decided.")

prop("C21", "Reported Pareto fronts and sets are attainable, feasible and non-dominated",
     "Every point of a reported Pareto front is, up to sampling of the front, the objective vector of a feasible decision, no "
     "reported point dominates another, and no feasible decision found by search dominates a reported point. Reported fronts have "
     "about the requested number of points and leave no gaps, and reported Pareto sets lie in the box and map onto the reported "
     "front.",
     ["inputs", "configurations"], "all problems with an analytic front, dimensions, requested sizes; searched decisions near and away from the optimum",
     "tests check shapes only; no test evaluates the problem on its own front",
     ["hvd/problems"], [("fronts and sets", "get_pareto_front / get_pareto_set of each problem")],
     ["get_pareto_front", "get_pareto_set", "objective", "constraints"],
     "round trip through the problem's own objective and published optimal decisions, and generated attackers; fronts that need network data are out of scope.")

prop("C22", "Problem constructors honour or reject their arguments",
     "For every problem and argument combination, valid dimensions and bounds are honoured (scalars broadcast, arrays copied, "
     "callers' arrays never aliased), invalid ones (non-positive sizes, reversed or ill-shaped bounds, negative constraint "
     "counts, infeasible parameter combinations) raise ValueError and non-integer sizes ValueError or TypeError. Fixed dimensions "
     "are kept, with a warning exactly when the caller requests a value.",
     ["configurations", "inputs"], "all problem classes, sizes, bounds, types of arguments", "tests try a few invalid values on a few classes",
     ["hvd/problems"], [("validation", "hvd/problems/base.py: MOP.__init__, _validate_dimension, _broadcast_bound"),
                        ("fixed dimensions", "base.py: fixed_n_obj, fixed_n_var")],
     ["constructors"], "generated valid and invalid arguments against the documented contract.")

prop("C23", "Native and pymoo problems are interchangeable",
     "Wrapping any native problem for pymoo, or any traceable pymoo problem for this library, preserves objectives, constraint "
     "values and order, bounds, sizes and derivatives for single decisions and populations, whether the pymoo problem is "
     "elementwise or vectorised. Names are resolved irrespective of "
     "case, unknown names and unusable objects are rejected with the documented errors, and conversion leaves the original and "
     "pymoo's own configuration unchanged.",
     ["inputs", "configurations"], "all native problems, user-defined problems and named pymoo problems, single and batch evaluation",
     "tests convert two or three problems at one point", ["hvd/problems/_pymoo_wrapper.py", "hvd/problems/_pymoo_factory.py", "hvd/problems/base.py"],
     [("wrapping", "_pymoo_wrapper.py"), ("factory", "_pymoo_factory.py")],
     ["as_pymoo_problem", "MOP.from_pymoo", "get_pymoo_problem", "pymoo_problem_names"], "differential testing of both directions; " + FD)

prop("C24", "Reference set generation fills the front evenly and never leaves it",
     "Filling a two-objective front with a requested number of points interpolates along each detected component of the front in "
     "order of its first objective at equal arc-length spacing, includes every component's end points, never bridges gaps between "
     "components, and gives components the rounded share of points of their length. Cleaning a reference set keeps one "
     "representative of near-duplicates and never invents points, and bootstrapping a reference set returns points of the filled, "
     "filtered front, no more than requested.",
     ["inputs"], "two-objective fronts of one or several components, spacings, requested sizes; cleaning in any dimension",
     "tests fill one fixed front", ["hvd/rsg.py", "hvd/utils.py", "hvd/bootstrap.py"], [("components", "rsg.py: ComponentDetection"), ("interpolation", "rsg.py: interpolate_tst, RSG"),
                                                  ("cleaning", "utils.py: preprocess_reference_set"), ("bootstrapping", "bootstrap.py")],
     ["RSG", "ComponentDetection", "preprocess_reference_set"], "reference model of the arc-length interpolation, invariants; " + FD)

prop("C25", "Evolutionary algorithms keep their population and selection contracts",
     "Hypervolume contributions tracked over any sequence of insertions and deletions equal the loss of hypervolume on removing "
     "each point, exactly or, for sampled estimates, within sampling error. SMS-EMOA survival keeps feasible before infeasible "
     "points, better dominance layers whole, and drops least (for three or more objectives: estimated) contributors from the "
     "last one; tournaments prefer smaller violation, then dominance. The constraint-aware decomposition algorithm replaces exactly "
     "those neighbours for which the offspring has the smaller excess violation over a tolerance that shrinks from the mean "
     "initial violation to zero or, when both are admissible, the smaller decomposed value; one call advances one generation, and "
     "equal seeds give equal runs.",
     ["histories", "inputs"], "histories of insertions/deletions, random populations with constraints, problems, options and seeds",
     "tests do not run the algorithms", ["hvd/moea/sms_emoa.py", "hvd/moea/moead.py", "hvd/exact.py"],
     [("dynamic hypervolume", "exact.py: DynamicHypervolume; sms_emoa.py: ApproximateMonteCarloHypervolume"),
      ("survival", "sms_emoa.py: LeastHypervolumeContributionSurvival"), ("replacement", "moead.py: ConstraintAwareMOEAD._replace")],
     ["ExactHypervolume", "SMSEMOA", "ConstraintAwareMOEAD"],
     "model-based testing of histories and lock-step selection models; equal contributions are not decided, three-objective selection "
     "only where contributions differ by orders of magnitude.")

prop("C26", "Caller data stays untouched and equal inputs give equal results",
     "No indicator, reference set, state, sorting routine, problem, helper or optimizer changes arrays, lists or dictionaries handed "
     "to it by the caller or returned by the caller's functions. Repeating a call with equal inputs gives equal results, irrespective "
     "of calls in between, of random numbers drawn and of the memory layout. Results have double precision in whatever order the "
     "package, its modules and JAX are imported.",
     ["histories", "inputs", "configurations"], "random sessions of public calls on shared input data; import orders in fresh processes",
     "tests never compare inputs after a call, repeat calls, or vary the import order", ["hvd"],
     [("copies", "constructors and setters throughout hvd"), ("precision", "hvd/__init__.py")], ["all public entry points"],
     "bitwise comparison of inputs before and after, and of repeated calls (1e-9), over generated call sequences.")


def main():
    built = [p for p in P if os.path.exists(os.path.join(VERIF, "pbt", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"],
                           hook_needed=None)
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                     anchors=anchors)) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = dict(version=1, setup_cmd="true",
             checks=[dict(property=p["id"], quick_cmd=f"./run {p['id']} --tier quick", thorough_cmd=f"./run {p['id']} --tier thorough",
                          technique="property-based testing (Hypothesis) against a reference model", level="exploration",
                          level_note="Sampled, not exhaustive: " + p["note"]) for p in built],
             not_applicable=[dict(property=p["id"], reason="No check has been built yet.") for p in P if p not in built],
             notes="Pure Python; the checks import hvd from /repo's working tree (no build step, no hooks). "
                   "See DESIGN.md. `./run --replay FILE` re-runs a saved case.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()

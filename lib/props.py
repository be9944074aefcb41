"""Source of /verif/properties.jsonl (python3 lib/props.py > properties.jsonl)."""
import json
POLY = 'pympc/geometry/polyhedron.py'; GU = 'pympc/geometry/utils.py'
PN = 'pympc/optimization/solvers/pnnls.py'; GRB = 'pympc/optimization/solvers/gurobi.py'
PROG = 'pympc/optimization/programs.py'; MP = 'pympc/optimization/parametric_programs.py'
DYN = 'pympc/dynamics/discrete_time_systems.py'; DISC = 'pympc/dynamics/discretization_methods.py'; DU = 'pympc/dynamics/utils.py'
CTRL = 'pympc/control/controllers.py'; PLOT = 'pympc/plot.py'

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}

PROPS = [
P('P01', 'A polyhedron contains exactly the points its constraints allow',
  'However a polyhedron is built or extended (constraint matrices, one- or two-sided bounds on all or on any listed coordinates in any order, symbolic affine inequalities and equalities, in any sequence of additions), a point belongs to it if and only if it satisfies, to the 1e-7 tolerance, every constraint given so far, each applied to the coordinates it names.',
  ['inputs', 'histories'], 'for every history of constructions and additions, every coordinate list, every point of the space (well inside, on the boundary, outside by more than the tolerance)',
  'the tests compare stored matrices for a few hand-written calls; the guarantee quantifies over every call history, index list and point',
  [POLY], [('constructors and add_* methods', POLY + ':Polyhedron.__init__, add_inequality, add_equality, add_*_bound(s), from_*, add_symbolic_*'), ('membership', POLY + ':Polyhedron.contains'), ('coordinate selection', POLY + ':_selection_matrix'), ('symbolic expressions', POLY + ':get_matrices_affine_expression')],
  ['return value of contains', 'public arrays A, b, C, d'], [('constraints', 'inequalities A x <= b and equalities C x = d of each polyhedron', POLY)]),
P('P02', 'Cached geometric facts are never stale',
  'After any history of queries, constraint additions, normalisations, redundancy removals, copies, intersections and projections, what a polyhedron reports about itself (emptiness, boundedness, Chebyshev radius and centre, vertices) is a correct description of the set it currently denotes, the same whatever was asked before and in whatever order.',
  ['histories'], 'for every interleaving of edits and queries on a population of related polyhedra (copies, intersections and projections included)',
  'staleness needs a particular query-edit-query order; the tests query freshly built objects',
  [POLY], [('attribute caches', POLY + ':_empty, _bounded, _radius, _center, _vertices'), ('invalidation', POLY + ':_delete_attributes'), ('preset caches', POLY + ':project_to'), ('shallow copies', POLY + ':intersection')],
  ['return values of empty, bounded, radius, center, vertices'], [('caches', 'remembered emptiness, boundedness, radius, centre, vertices', POLY), ('constraints', 'A, b, C, d', POLY)]),
P('P03', 'Queries and derived objects never disturb existing ones',
  'No query, derived polyhedron, solver call, system, controller or explicit-solution operation changes the receiver\'s constraints, its operands, the arrays and lists the caller passed in, or any object created earlier, and editing a derived or copied polyhedron never changes the one it came from.',
  ['histories', 'inputs'], 'for every operation of the public interface, every operand and every later edit of a result or of an operand',
  'aliasing shows only when an operand is inspected bit by bit after an operation on a related object, which no test does',
  [POLY, GU, PN, GRB, MP, DYN, CTRL], [('array sharing between objects', POLY + ':intersection, normalize, convex_hull_method'), ('shared domains', DYN + ':mcais, PieceWiseAffineSystem'), ('lifting of the optimal value', MP + ':solve')],
  ['bitwise snapshots of all live objects and caller arrays before and after each call'], [('live objects', 'constraints of every live polyhedron, caller-owned arrays and lists', POLY)]),
P('P04', 'Emptiness, boundedness and inclusion verdicts are exact',
  'For every polyhedron, emptiness is reported exactly when no point satisfies the constraints, boundedness exactly when the set has no recession direction (an empty set counts as bounded), and inclusion of one polyhedron in another is reported exactly when every point of the first belongs to the second, for empty, lower-dimensional, unbounded and full-space operands alike.',
  ['inputs'], 'for every pair of polyhedra with inequalities and equalities whose verdict is not within tolerance of flipping',
  'the verdicts are theorems about infinitely many points; tests sample a few axis-aligned sets',
  [POLY, PN, GU], [('empty', POLY + ':empty (QP)'), ('bounded', POLY + ':bounded (kernel and Stiemke LP)'), ('inclusion', POLY + ':is_included_in (one LP per facet)')],
  ['return values of empty, bounded, is_included_in']),
P('P05', 'Chebyshev ball and vertices describe the set exactly',
  'For every non-empty bounded full-dimensional polyhedron (relative to linearly independent equalities) the reported radius and centre are those of a largest inscribed ball, and the reported vertices are exactly its extreme points; for empty sets the radius is negative or absent, for sets containing balls of every size radius and centre are absent, and empty or unbounded sets have no vertex list.',
  ['inputs'], 'for every polyhedron in any dimension, with and without equalities, redundant or duplicated rows and any row scaling',
  'optimality of a ball and completeness of a vertex list are claims about all balls and all extreme points',
  [POLY, GU], [('Chebyshev LP', POLY + ':_chebyshev, radius, center'), ('vertex enumeration', POLY + ':vertices'), ('equality elimination', POLY + ':_remove_equalities')],
  ['return values of radius, center, vertices']),
P('P06', 'Intersection, Cartesian product and convex hull are the set operations',
  'The intersection of two polyhedra contains exactly the points in both, the Cartesian product exactly the concatenations of a point of the first with a point of the second (in that order), and the convex hull of a list of points exactly the convex combinations of those points.',
  ['inputs'], 'for all operands (with or without equalities, empty, unbounded) and all affinely spanning point lists',
  'set equality quantifies over all points; tests compare matrices for one or two boxes',
  [POLY], [('intersection', POLY + ':intersection'), ('product', POLY + ':cartesian_product'), ('hull', POLY + ':from_convex_hull')],
  ['contains on the result, constraints of the result']),
P('P07', 'Projection is exactly the shadow of the set',
  'Projecting a non-empty bounded full-dimensional polytope onto any list of coordinates, in any order, gives a polytope that contains exactly the points extendable to the original set, and its listed vertices lie in it and span it; empty, unbounded or equality-constrained operands are rejected.',
  ['inputs'], 'for every such polytope and coordinate list',
  'correctness is a quantifier alternation over all points and all completions',
  [POLY, GU], [('convex hull method', POLY + ':convex_hull_method, _get_two_vertices, _get_inner_simplex, _expand_simplex'), ('supporting planes', GU + ':plane_through_points')],
  ['constraints and vertices of project_to\'s result']),
P('P08', 'Normalisation and redundancy removal keep the set; the result is minimal',
  'Normalising, computing the minimal facets and removing redundant inequalities never change the set of points; normalised rows have unit norm, the kept inequalities are a subset of the original rows from which no further row can be dropped without enlarging the set, and an empty polyhedron is reported as such (no facets, removal refused).',
  ['inputs', 'histories'], 'for every polyhedron, including duplicated, parallel, scaled and weakly redundant rows and equalities',
  'both set preservation and minimality quantify over all points and all subsets of rows',
  [POLY], [('minimal_facets', POLY + ':minimal_facets (one relaxed LP per row)'), ('removal', POLY + ':remove_redundant_inequalities'), ('scaling', POLY + ':normalize')],
  ['returned index list, constraints after the call']),
P('P09', 'Linear programs return a certified optimum, or none exists',
  'For every linear program and every bundled solver, a returned minimiser is feasible and no feasible point has lower cost, the returned minimum is its cost, the multipliers are a dual optimum of matching sign and value, and every row reported active holds with equality while every row with a positive multiplier is reported active; a result is absent exactly when the program is infeasible or unbounded below.',
  ['inputs'], 'for every cost, inequality and optional equality data, including degenerate, redundant, flat, infeasible and unbounded programs',
  'optimality quantifies over the whole feasible set; tests check a handful of programs',
  [PROG, PN, GRB], [('pnnls LP', PN + ':linear_program'), ('gurobi LP', GRB + ':linear_program'), ('dispatch', PROG + ':linear_program')],
  ['the returned dictionary']),
P('P10', 'Quadratic programs return the unique optimum with valid multipliers',
  'For every strictly convex quadratic program and every bundled solver, the returned point, value, multipliers and active set satisfy the optimality conditions (primal and dual feasibility, stationarity, complementarity; every reported active row is tight and every positive multiplier is reported active), and a result is absent exactly when the constraints are infeasible.',
  ['inputs'], 'for every positive definite Hessian, linear term and constraint data, including weakly active, redundant, degenerate and infeasible constraints',
  'optimality quantifies over the whole feasible set and over data that make individual constraints barely active',
  [PROG, PN, GRB], [('pnnls QP', PN + ':quadratic_program'), ('gurobi QP', GRB + ':quadratic_program'), ('dispatch', PROG + ':quadratic_program')],
  ['the returned dictionary']),
P('P11', 'Mixed-integer programs are optimal over all binary assignments',
  'For every mixed-integer quadratic program the returned point is feasible with binary values in the integer block, its cost is the returned minimum and no feasible assignment of the binaries with any continuous values is better (to the solver gap); no result is returned exactly when every assignment is infeasible.',
  ['inputs'], 'for every split into continuous and binary variables and every program data',
  'the minimum ranges over every assignment and the continuous set under each',
  [PROG, GRB, MP], [('MIQP', GRB + ':mixed_integer_quadratic_program'), ('parametric MIQP', MP + ':MultiParametricMixedIntegerQuadraticProgram.solve')],
  ['the returned dictionary']),
P('P12', 'Every critical region\'s control law is optimal throughout the region',
  'For every multiparametric quadratic program and every critical region it returns, at every parameter of the region the affine primal and dual laws satisfy all optimality conditions of the program at that parameter with the region\'s active set, and the quadratic value law equals the optimal cost; a region asked for at a parameter contains it, and none is returned for an infeasible parameter or a dependent active set.',
  ['inputs'], 'for every program, region and parameter in the region (infinitely many)',
  'tests compare sampled parameters; the claim is about all parameters of all regions',
  [MP], [('region from active set', MP + ':explicit_solve_given_active_set'), ('region from point', MP + ':explicit_solve_given_point'), ('laws', MP + ':CriticalRegion.u, p, V')],
  ['u, p, V, active_set and polyhedron of each region']),
P('P13', 'Explicit solution and feasible set cover exactly the feasible parameters',
  'For every non-degenerate multiparametric quadratic program the explicit solution returns a region and the optimal input and cost at every feasible parameter (the same as solving the program there) and nothing outside the feasible set, its regions do not overlap in their interiors, and the reported feasible set contains exactly the parameters for which some input satisfies the constraints.',
  ['inputs'], 'for every program whose regions are separated facet to facet, and every parameter',
  'a missed region is a hole that sampled tests rarely hit; coverage quantifies over all parameters',
  [MP, POLY], [('exploration', MP + ':explicit_solve'), ('feasible set', MP + ':get_feasible_set'), ('lookup', MP + ':ExplicitSolution.get_critical_region, u, p, V')],
  ['u, p, V and get_critical_region of the explicit solution; the feasible-set polyhedron']),
P('P14', 'Simulation and condensed prediction follow the dynamics exactly',
  'For every linear, affine or mode-switched affine system, horizon, initial state and input sequence, the simulated states obey the update equation at every step starting from the given state, closed-loop simulation applies the given feedback at every step, and the condensed matrices predict the same states for every initial state and input sequence.',
  ['inputs', 'programs'], 'for every system, mode sequence, horizon, initial state and input sequence',
  'the prediction identity is over all states and inputs and every horizon and mode order',
  [DYN], [('simulate', DYN + ':LinearSystem.simulate, AffineSystem.simulate, simulate_closed_loop'), ('condense', DYN + ':condense_pwa_system, productory')],
  ['returned trajectories and matrices']),
P('P15', 'Piecewise-affine simulation selects a valid mode at every step',
  'For every piecewise-affine system, the mode reported for a state-input pair is one whose domain contains the pair, none is reported exactly when no domain contains it, simulation applies the dynamics of the reported mode at each step and fails with an error exactly when the pair leaves all domains, and a system is declared well posed exactly when no two domains share interior points.',
  ['inputs', 'histories'], 'for every system (linear or affine modes), every pair on, inside or outside the domains, every input sequence',
  'mode boundaries, overlaps and exits occur at points that tests do not sample',
  [DYN, POLY], [('mode lookup', DYN + ':get_mode'), ('simulation', DYN + ':PieceWiseAffineSystem.simulate'), ('overlap test', DYN + ':is_well_posed')],
  ['get_mode, simulate, is_well_posed']),
P('P16', 'Discretised models follow the continuous dynamics',
  'For every continuous-time linear or affine system and time step, zero-order-hold discretisation reproduces the exact solution of the differential equation under constant input over one step, and explicit Euler reproduces the first-order step, for the state, input and offset terms alike and for singular state matrices.',
  ['inputs'], 'for all system matrices (singular, nilpotent, unstable), offsets and steps',
  'exactness is an identity over all states and inputs; tests compare a few systems numerically',
  [DISC, DYN], [('ZOH', DISC + ':zero_order_hold'), ('Euler', DISC + ':explicit_euler'), ('model constructors', DYN + ':from_continuous')],
  ['returned matrices and resulting systems']),
P('P17', 'Symbolic models and constraints mean what their expressions say',
  'A system or polyhedron built from symbolic affine expressions, in discrete or continuous time, evaluates to exactly those expressions for every state, input and point whatever the order of the symbols, and a linear model is refused when its expressions have a nonzero offset.',
  ['inputs', 'programs'], 'for every affine expression vector, symbol order and evaluation point',
  'expressions are arbitrary programs; tests use one or two',
  [DYN, POLY], [('state transition extraction', DYN + ':get_state_transition_matrices'), ('constraint extraction', POLY + ':get_matrices_affine_expression'), ('offset check', DYN + ':LinearSystem.from_symbolic')],
  ['resulting matrices, contains, simulate']),
P('P18', 'Controllability verdict and LQR solution are correct',
  'A linear system is reported controllable exactly when every state can be reached from the origin; the Riccati solution is symmetric, solves the Riccati equation, and its feedback minimises the infinite-horizon cost (it stabilises the system and no other gain or input sequence costs less), while uncontrollable systems are refused.',
  ['inputs', 'histories'], 'for every system and weighting (semidefinite state weights included), and every competing input sequence',
  'optimality ranges over all input sequences',
  [DYN], [('controllable', DYN + ':LinearSystem.controllable'), ('DARE', DYN + ':solve_dare')],
  ['controllable, solve_dare']),
P('P19', 'The maximal admissible invariant set is admissible, invariant and maximal',
  'For every strictly stable system and bounded inequality-described constraint set with the origin in its interior, the computed set contains exactly the initial states whose whole future trajectory satisfies the constraints (for controlled systems: state and input under the feedback), with no redundant inequality; unstable systems, unbounded sets and sets without the origin are refused.',
  ['inputs'], 'for every system, set and initial state, over infinitely many time steps',
  'quantifies over infinite trajectories from every state',
  [DYN, POLY], [('Gilbert-Tan iteration', DYN + ':mcais'), ('closed loop set', DYN + ':LinearSystem.mcais')],
  ['constraints of the returned polyhedron']),
P('P20', 'Linear MPC returns the constrained optimum or reports infeasibility',
  'For every linear system, horizon, weights, stage constraints and terminal set, and every state, the returned input sequence keeps the predicted trajectory inside all stage and terminal constraints (equalities included), its cost is the returned value and no admissible sequence is cheaper, the feedback is its first input, and nothing is returned exactly when no admissible sequence exists; the explicit controller, once stored, agrees and refuses to answer before that.',
  ['inputs', 'histories'], 'for every problem datum and every state, inside, on the boundary and outside the feasible set',
  'optimality quantifies over all input sequences for every state',
  [CTRL, MP, DYN], [('condensing', CTRL + ':condense_optimal_control_problem'), ('feedforward', CTRL + ':ModelPredictiveController.feedforward, feedback'), ('explicit', CTRL + ':feedforward_explicit, feedback_explicit')],
  ['feedforward, feedback and their explicit versions']),
P('P21', 'The condensed program of a mode sequence is the optimal-control problem',
  'For every piecewise-affine system, mode sequence, weights and terminal set, and every initial state, the condensed parametric program has exactly the admissible input sequences and the cost of the original optimal-control problem in which the state follows the affine dynamics of the given modes and stays in their domains, so its optimum and its absence are those of the original problem.',
  ['inputs', 'programs'], 'for all systems, mode sequences, initial states and input sequences',
  'equivalence of two optimisation problems over all states and inputs',
  [CTRL, DYN], [('condensing', CTRL + ':condense_optimal_control_problem'), ('fixed-mode program', CTRL + ':HybridModelPredictiveController.get_mpqp')],
  ['solve of the condensed program; its cost and constraints at given inputs']),
P('P22', 'Closed loop with invariant terminal set stays feasible and its cost decreases',
  'When the terminal set is the maximal admissible invariant set of the LQR feedback and the terminal weight its Riccati solution, then from every feasible state the closed loop under the MPC feedback (implicit or explicit) never violates a constraint, never becomes infeasible, and its optimal cost decreases by at least the stage cost at every step.',
  ['histories', 'inputs'], 'for every such controller, every feasible initial state, every step of the infinite closed-loop history',
  'a statement about infinite histories from infinitely many states',
  [CTRL, DYN, MP], [('controller', CTRL + ':ModelPredictiveController'), ('terminal ingredients', DYN + ':solve_dare, LinearSystem.mcais')],
  ['closed-loop traces: state, feedback, optimal cost at each step']),
P('P23', 'Hybrid MPC is optimal over all mode sequences',
  'For every piecewise-affine system with bounded domains and every state, the returned inputs, states and modes form a trajectory of the system that respects the domain of each reported mode and the terminal set, the returned value is its cost and no trajectory along any mode sequence is cheaper (to the solver gap); nothing is returned exactly when no mode sequence is feasible, and the feedback is the first input.',
  ['inputs'], 'for every system, horizon, weights, terminal set and state; every mode sequence and input sequence',
  'the minimum ranges over exponentially many mode sequences and all inputs',
  [CTRL, MP, GRB], [('big-M constants', CTRL + ':_get_bigM_dynamics, _get_bigM_domains'), ('mixed-integer encoding', CTRL + ':_build_inequalities, _bigM_matrices, _condense_inequalities, _condense_equalities'), ('solution decoding', CTRL + ':HybridModelPredictiveController.feedforward')],
  ['feedforward and feedback']),
P('P24', 'Linear-algebra helpers keep their mathematical contracts',
  'For every input: a nullspace basis is orthonormal, is annihilated by the matrix and has the full nullity; the independent-row selection is independent and spans all rows; the plane through affinely independent points has unit normal, non-negative offset and passes through all of them; row and vector comparison is true exactly when one list is a reordering of the other (up to positive row scale when asked).',
  ['inputs'], 'for all matrices (rank-deficient, wide, tall, zero), point sets and permutations with repetitions',
  'identities over all matrices',
  [GU], [('helpers', GU + ':nullspace_basis, linearly_independent_rows, plane_through_points, same_rows, same_vectors')],
  ['return values']),
P('P25', 'Malformed requests are refused and leave objects unchanged',
  'Every request that violates a documented precondition (sizes that do not match, missing halves of an equality, wrong number of domains or mismatched dimensions, unknown solver or method, negative time step, nonzero offset for a linear model, operations on empty, unbounded or uncontrollable operands that need the opposite, explicit queries before the solution is stored) raises an error instead of returning an answer, and every existing object is afterwards exactly as before and still usable.',
  ['inputs', 'fault_sequences', 'histories'], 'for every operation, every violated precondition, and every point of a history at which the bad request is made',
  'failure atomicity requires inspecting state after each possible failure at each point of a history',
  [POLY, DYN, DU, PROG, CTRL, GU], [('size checks', POLY + ':_same_number_rows; ' + DU + ':check_affine_system'), ('preconditions', DYN + ':PieceWiseAffineSystem.__init__, mcais, solve_dare; ' + CTRL + ':feedforward_explicit')],
  ['exceptions and object snapshots after them']),
P('P26', 'Plots draw the given data',
  'The polygon drawn for a bounded polyhedron is exactly its projection onto the two requested coordinates (nothing is drawn for empty or unbounded ones), the state-space partition of an explicit controller is drawn as one such polygon per critical region, the plot of the optimal value function draws its feasible set and, at every level named, the states with that optimal value (to the resolution of the grid), a state-space plot draws exactly the segments of the given trajectory in the requested coordinates, marks its start and, if asked, names its states in order, and input, state and output plots show every sample at its time together with the given bounds, one pair of axes per component; the axes are labelled with the coordinates they show.',
  ['inputs'], 'for every bounded polyhedron, coordinate pair, trajectory and bound',
  'no test inspects what is drawn',
  [POLY, PLOT, CTRL], [('polygon', POLY + ':plot; ' + CTRL + ':plot_state_space_partition, plot_optimal_value_function'), ('trajectories', PLOT + ':plot_state_space_trajectory, plot_input_sequence, plot_state_trajectory, plot_output_trajectory')],
  ['artists added to the axes']),
P('P27', 'Answers do not depend on what was asked before',
  'Every query of a program, solver, system, parametric program, explicit solution or controller and every helper function returns, for the same numbers, the answer a fresh object in a fresh process returns, whatever was asked before of it or of other objects, in whatever order, and whichever arrays carried the numbers: the caller may reuse and overwrite the arrays it passed and the answers it received, and answers it already holds never change because of later requests (the caller\'s own initial state handed back as the first state of a trajectory excepted).',
  ['histories', 'inputs'], 'for every history of requests, overwritten arguments and overwritten answers, over all objects and functions with a unique answer',
  'a dependence on the past needs a particular sequence of requests to two objects, or an array that is overwritten in between; the tests ask each question once',
  [MP, CTRL, DYN, PROG, PN, GRB, DISC, GU], [('parametric programs', MP + ':MultiParametricQuadraticProgram.solve, explicit_solve_given_point; ExplicitSolution; MultiParametricMixedIntegerQuadraticProgram.solve'), ('controllers', CTRL + ':feedforward, feedback, feedforward_explicit, feedback_explicit, get_mpqp'), ('systems', DYN + ':simulate, simulate_closed_loop, solve_dare, get_mode, condense, mcais'), ('solvers', PROG + ':linear_program, quadratic_program, mixed_integer_quadratic_program'), ('helpers', DISC + '; ' + GU)],
  ['return values of all queries, compared across histories and with a fresh process'], [('remembered results', 'whatever an object or module keeps between requests', MP + '; ' + CTRL + '; ' + DYN)]),
]
if __name__ == '__main__':
    for p in PROPS: print(json.dumps(p))

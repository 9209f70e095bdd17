"""Single source of the property list, the manifest and the check registry (tools/gen.py writes the files)."""
CLAIMED = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, run, explanation, note, technique, min_obligations=1, state=None):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, run=run, level="other",
                        explanation=explanation, note=note, technique=technique, min_obligations=min_obligations, state=state))


def NA(id, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


GVN = ("static analysis: guarded-effect dataflow summaries over the Clang AST (interprocedural value numbering with normalised algebra), ")
BASE = ("A Clang front end turns every function of the property's scope into an IR on each run; an interprocedural dataflow summariser computes, for all inputs at once, "
        "which location receives which normalised value under which path condition (helpers inlined, locals eliminated, loops summarised). ")
PYB = ("Python's own ast module turns the property's scope into an IR on each run; an interprocedural dataflow summariser computes, for all inputs at once, "
       "which location receives which normalised value under which path condition. ")

P("A01", "Every parameter has one storage place, shared by its getters and setter",
  "For every configuration parameter of the planner, the conic solver and the LQR solver, and for every optimisation-variable attribute, all read overloads return the same stored quantity and the setter "
  "stores its argument in exactly that quantity. Two differently named parameters never share storage (apart from the documented robot-weight / mass-times-gravity pair), and no declared parameter is rejected as unknown.",
  ["inputs", "configurations"], "All parameters of all families, all values, all const and mutable accessor overloads.",
  "There are several hundred (parameter, overload) pairs reached through switch statements with silent defaults; tests read only a few of them and none of the mutable overloads.",
  ["solver/src/solver/interface/SolverSetting.cpp", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp", "solver_lqr/src/solver_lqr/SolverLqrSetting.cpp", "solver/src/solver/interface/Var.cpp"],
  [("PlannerSetting::get/set", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp"), ("SolverSetting::get/set", "solver/src/solver/interface/SolverSetting.cpp")],
  "settings:accessors_check",
  BASE + "For each enumerator the accessor bodies are specialised to that constant and the addressed member is compared across overloads, setter and other enumerators.",
  "decides every (parameter, overload) pair; functions outside the accessor families are not covered", GVN + "specialised per enumerator and compared pairwise", 600)

P("A02", "Configuration keys reach the parameters they name",
  "Loading a configuration stores the value found under each documented key in the parameter of that name, derives documented combinations (e.g. total weight, results file names) from the right keys, and starts lists of via points afresh. "
  "Every shipped configuration file contains every key its planner and solver sections require.",
  ["configurations"], "All configuration files, all documented keys and all section switches; all shipped configuration files.",
  "A swapped or missing key changes a weight or limit silently; the loader of the planner is not exercised by any test, and the solver tests load one file.",
  ["momentumopt/src/momentumopt/setting/PlannerSetting.cpp", "solver/src/solver/interface/SolverSetting.cpp", "solver_lqr/src/solver_lqr/SolverLqrSetting.cpp", "momentumopt/config"],
  [("PlannerSetting::initialize", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp"), ("SolverSetting::initialize", "solver/src/solver/interface/SolverSetting.cpp")],
  "settings:config_check",
  BASE + "YAML reads are modelled as symbolic key lookups; the member behind each parameter (from its getter) must receive exactly the lookup the key table prescribes, under the prescribed section switch. The shipped YAML files are parsed and checked for the required keys.",
  "the YAML library itself is modelled (lookup by key and conversion); values in the shipped files are not judged, only presence of keys", GVN + "compared with a key table", 600)

P("A03", "State accessors agree on the quantity they name",
  "For every data object of the library (optimisation vectors, contact, terrain, dynamics and kinematics states and sequences, solver information), the read-only and mutable access to a named quantity address the same stored data, "
  "a setter stores its argument, unconditionally, where the getter of that name reads, and differently named quantities do not share storage.",
  ["inputs", "programs"], "All classes, all accessor overloads, all argument values.",
  "Which overload runs depends on the constness of the caller's object, so a wrong overload stays dormant until some other code path uses it; no test enumerates the overloads.",
  ["solver/include/solver/interface/Cone.hpp", "momentumopt/include/momentumopt/dynopt/DynamicsState.hpp", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp", "momentumopt/include/momentumopt/cntopt/ContactState.hpp"],
  [("OptimizationVector segment views", "solver/include/solver/interface/Cone.hpp"), ("DynamicsState accessors", "momentumopt/include/momentumopt/dynopt/DynamicsState.hpp")],
  "accessors:state_check",
  BASE + "Every member function that merely reads or writes one location of its object is an accessor; its canonical location is compared with those of its overloads and with those of other names.",
  "covers all accessors found in the classes of the three libraries (over 400); members whose access is not reducible to one location are outside", GVN + "canonical locations of accessors compared", 300)

P("A04", "Python bindings expose the quantity and parameter their name states",
  "Each name visible from Python (parameters, properties and methods of the planner's and solvers' objects) denotes the C++ quantity, parameter or operation assigned to that name; reading and writing a property touch the same quantity, "
  "setting a parameter from Python stores exactly that parameter, and reading back a base orientation returns the (x,y,z,w) that was written.",
  ["programs", "inputs"], "All bound names, all argument values.",
  "The planner's bindings are not even built by the test configuration, and a swapped binding type-checks.",
  ["momentumopt/srcpy/momentumopt", "solver/srcpy/solver", "solver_lqr/srcpy/solver_lqr"],
  [("init_dynamics", "momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp"), ("init_kinematics", "momentumopt/srcpy/momentumopt/kinopt/PyKinematics.cpp"), ("init_params", "momentumopt/srcpy/momentumopt/setting/PyParams.cpp")],
  "accessors:bindings_check",
  BASE + "The pybind registration calls are read from the syntax tree; the location behind each registered accessor is compared with the one behind the C++ accessor the binding table assigns to the Python name.",
  "names bound through lambdas are reported as undecided in the evidence", "static analysis: query over the pybind registration calls in the Clang AST plus canonical accessor locations", 300)

REF = "static analysis: guarded-effect dataflow summaries over the Clang AST compared with those of reference functions (normalised algebra, no execution)"

P("B01", "Cone algebra of the conic solver",
  "For every product of a linear cone and second-order cones, the solver's conic product, division, sums and shifts by multiples of the unit element, norm, residual, projection, Nesterov-Todd scaling (plain and squared/expanded form) and scaling update compute the textbook blockwise formulas, "
  "leave the cone only when a cone residual is not positive, and variable, equality, inequality and second-order-cone segments occupy disjoint consecutive ranges whose sizes add up; undoing the KKT permutation puts every entry back in its segment.",
  ["inputs"], "All cone dimensions, all vectors, all scalings.",
  "The formulas quantify over all dimensions and real vectors; the tests solve a handful of problems and would tolerate an inexact scaling that merely slows or destabilises convergence.",
  ["solver/src/solver/interface/Cone.cpp", "solver/include/solver/interface/Cone.hpp"],
  [("Cone::updateNTScalings", "solver/src/solver/interface/Cone.cpp"), ("Cone::conicNTScaling2", "solver/src/solver/interface/Cone.cpp"), ("Cone::unpermuteSolution", "solver/src/solver/interface/Cone.cpp")],
  "solver:cone_check",
  BASE + "The summary of each cone operation is compared with the summary of an independently written blockwise reference function.",
  "real arithmetic (rounding is not modelled); the reference functions are trusted", REF, 16)

P("B02", "Expression algebra of the modelling layer",
  "Every operator on decision variables, linear expressions and numbers denotes the affine expression its symbol states, merging terms of equal variables without losing or duplicating coefficients or constants; evaluation returns the constant plus the weighted variable values, "
  "and a quadratic expression evaluates to the weighted sum of its squared linear terms.",
  ["inputs", "programs"], "All operator overloads, all operand values, all term lists.",
  "There are some thirty overloads, most of which no test instantiates, and an error in one changes the modelled optimisation problem without any failure.",
  ["solver/src/solver/interface/Exprs.cpp", "solver/include/solver/interface/Exprs.hpp"],
  [("LinExpr::clean", "solver/src/solver/interface/Exprs.cpp"), ("LinExpr operators", "solver/include/solver/interface/Exprs.hpp")],
  "solver:exprs_check",
  BASE + "Derived operators are interpreted over the vector space of affine expressions and must normalise to the operand combination their symbol states; primitive operations are compared with reference functions; the call graph of the operators is acyclic.",
  "real arithmetic; coefficient and term lists are assumed to have equal length (they are private and only extended together)", REF, 55)

P("B03", "Building the conic problem from the modelling interface",
  "Adding a variable fixes its index, bounds and clamped start value and registers binaries with bounds 0 and 1; a constraint is stored with the side its sense states and an invalid sense is rejected before anything changes; setting the objective replaces the previous one; clearing leaves an empty problem. "
  "Solving runs warm start, main solve and refinements with the iteration limits of their settings, uses branch-and-bound exactly when binaries require it, and writes every variable's solution back.",
  ["inputs", "histories"], "All sequences of modelling calls, all problem sizes and settings.",
  "The effect of a call depends on what was added before it; a test samples one order of calls and mostly checks the optimal value.",
  ["solver/src/solver/interface/ConicProblem.cpp", "solver/src/solver/interface/Model.cpp"],
  [("ConicProblem::addVar", "solver/src/solver/interface/ConicProblem.cpp"), ("ConicProblem::optimize", "solver/src/solver/interface/ConicProblem.cpp"), ("Model::optimize", "solver/src/solver/interface/Model.cpp")],
  "solver:problem_api_check",
  BASE + "The summary of each interface operation is compared with that of an independently written reference function.",
  "the operations called by another check's subject (expression arithmetic, row assembly, the numerical solvers) are opaque here", REF, 8)

P("B04", "Translation of the model to standard conic form",
  "Every linear equality, inequality, binary bound, quadratic (plain, trust-region or soft) and second-order-cone constraint and every objective term contributes exactly its coefficients to the row and column that its position prescribes, "
  "with the right constant on the right-hand side and the right cost entry; rows of different constraints never overlap and the cone dimensions match the rows written, in warm-start and normal mode.",
  ["inputs", "configurations"], "All models: any numbers and sizes of constraints of every kind, any iteration, warm start or not.",
  "Row offsets are running sums over constraint lists; a wrong offset only shows for particular mixtures of constraint kinds, which tests do not enumerate.",
  ["solver/src/solver/interface/ConicProblem.cpp", "solver/src/solver/interface/Cone.cpp"],
  [("ConicProblem::buildProblem", "solver/src/solver/interface/ConicProblem.cpp"), ("SolverStorage::initialize", "solver/src/solver/interface/Cone.cpp")],
  "solver:problem_rows_check",
  BASE + "Loops over constraint lists are summarised symbolically (row index as a function of the constraint index and prefix sums), and every coefficient, right-hand side and cost entry is compared with a reference translation.",
  "variables used in a constraint are assumed to have been created by the model; coefficient and term lists have equal length", REF, 5)

P("B05", "Interior point method: statistics, termination and exits",
  "In every iteration the conic solver computes the residuals, costs, gap and infeasibility measures of the homogeneous self-dual embedding, and reports optimality or infeasibility exactly when the documented tolerances of the chosen precision mode are met. "
  "It never exceeds the iteration limit set for the solve, returns the best iterate when it stops early, and on every exit undoes the equilibration and the homogenisation of the returned solution.",
  ["inputs", "configurations"], "All problems, all iterates, all tolerances, all exits of the main loop.",
  "Most exits of the loop (numerical problems, tiny steps, infeasibility, iteration limit) are taken by no test, and a wrong statistic only changes when the solver stops.",
  ["solver/src/solver/optimizer/IPSolver.cpp", "solver/include/solver/optimizer/IPSolver.hpp"],
  [("InteriorPointSolver::optimize", "solver/src/solver/optimizer/IPSolver.cpp"), ("InteriorPointSolver::convergenceCheck", "solver/src/solver/optimizer/IPSolver.cpp"), ("InteriorPointSolver::updateStatistics", "solver/src/solver/optimizer/IPSolver.cpp")],
  "solver:ipm_check",
  BASE + "The summaries of the method's steps and of its main loop are compared with those of independently written reference functions.",
  "what is computed and when the method stops is decided, not that the iteration converges; logging is ignored; KKT solution and cone algebra are opaque here", REF, 13)

P("B06", "Equilibration of the conic problem can be undone exactly",
  "Equilibrating scales every constraint row, column, cost and right-hand-side entry by one positive factor per variable and row (one common factor per second-order cone); un-equilibrating multiplies by exactly the same factors, "
  "and the returned solution is divided by the factor of its own entry.",
  ["inputs"], "All problem data, sizes and cone structures.",
  "A factor applied to the wrong entry leaves small well-scaled test problems almost unchanged.",
  ["solver/src/solver/optimizer/EqRoutine.cpp", "solver/include/solver/optimizer/EqRoutine.hpp"],
  [("EqRoutine::ruizEquilibration", "solver/src/solver/optimizer/EqRoutine.cpp"), ("EqRoutine::unsetEquilibration", "solver/src/solver/optimizer/EqRoutine.cpp"), ("EqRoutine::scaleVariables", "solver/src/solver/optimizer/EqRoutine.cpp")],
  "solver:equil_check",
  BASE + "The summaries of the routine's operations are compared with those of reference functions in which undoing is written as the inverse of doing.",
  "real arithmetic; the estimate of row and column norms (a heuristic that only affects conditioning) is opaque", REF, 6)

P("B07", "KKT system of the interior point method",
  "The linear system solved in each step is the regularised permuted KKT matrix of the current problem and scaling: every entry of A, G and of the expanded scaling sits at the position its row and column prescribe and is refreshed at every update, "
  "its LDL' factorisation and triangular solves follow the textbook recurrences, and iterative refinement works on the true residual of the unregularised system and keeps the better solution.",
  ["inputs"], "All problem data, sizes, cone structures, permutations and scalings.",
  "An entry that is not refreshed or sits one position off degrades the search direction gradually; iterative refinement hides it in small problems.",
  ["solver/src/solver/optimizer/LinSolver.cpp", "solver/src/solver/optimizer/SparseCholesky.cpp", "solver/include/solver/optimizer/LinSolver.hpp"],
  [("LinSolver::buildProblem", "solver/src/solver/optimizer/LinSolver.cpp"), ("LinSolver::updateMatrix", "solver/src/solver/optimizer/LinSolver.cpp"), ("SparseCholesky::factorize", "solver/src/solver/optimizer/SparseCholesky.cpp")],
  "solver:linsys_check",
  BASE + "The summaries of assembly, update, refinement and factorisation (loops included) are compared with those of reference functions.",
  "real arithmetic; Eigen's fill-reducing ordering and sparse containers are modelled by their documented effect", REF, 10)

P("B08", "Branch and bound explores, prunes and keeps the right nodes",
  "For problems with binary variables (convex and non-convex variant alike), branching splits a node into the subproblems with the chosen variable fixed to zero and to one, infeasible nodes are discarded, bounds and incumbents are the true objective values of solved relaxations and roundings, "
  "the returned solution is the best integer-feasible point met, and the result is called optimal only within the gap and iteration limits of the settings.",
  ["inputs", "histories"], "All problems with binary variables, all exploration orders, all limits.",
  "Which node is explored next depends on earlier bounds; tests with a few binaries mostly end at the root.",
  ["solver/src/solver/optimizer/BnBSolver.cpp", "solver/src/solver/optimizer/NcvxBnBSolver.cpp"],
  [("BnBSolver::updateNodeBounds", "solver/src/solver/optimizer/BnBSolver.cpp"), ("NcvxBnBSolver::updateNodeBounds", "solver/src/solver/optimizer/NcvxBnBSolver.cpp")],
  "solver:bnb_check",
  BASE + "Both solvers are compared, function by function, with one reference algorithm instantiated for each.",
  "relaxations are solved by the interior point method, which is opaque here", REF, 22)

P("B09", "Blocks of decision variables map to their own index ranges and bounds",
  "A block of variables initialised with r rows and c columns occupies exactly the r*c indices from the given start index, which is advanced past them; element (i, j) inside the block has index start + j*r + i, and indices outside it are clamped to its border. "
  "Bounds and guesses are those given (one number, one value per row or one per element, the guess zero if none is given), fixing a column sets both its bounds to its guess, and the values handed out are those stored.",
  ["inputs", "histories"], "All block sizes, bounds, guesses and sequences of initialisations, including repeated ones.",
  "Every optimiser addresses its decision variables through these indices; a block that overlaps its neighbour or swaps rows and columns still yields a solvable problem, and no test uses these classes.",
  ["solver/src/solver/interface/OptVar.cpp", "solver/include/solver/interface/OptVar.hpp"],
  [("OptimizationVariable::initialize", "solver/src/solver/interface/OptVar.cpp"), ("OptimizationVariable::id", "solver/include/solver/interface/OptVar.hpp")],
  "solver:optvar_check",
  BASE + "Every overload of initialize and every accessor is compared with a reference function of its own.",
  "Eigen's blocks and broadcasts are uninterpreted; arguments fulfil the assertions; the reference functions are trusted", REF, 19)

PREF = "static analysis: guarded-effect dataflow summaries over the Python AST compared with those of reference functions (normalised algebra, no execution)"
KP = "momentumopt/python/momentumopt/kinoptpy/"

P("D01", "Centroidal model used for the feedback gains and its linearisation",
  "In all three gain computations, quaternion product, exponential, logarithm, difference and integration, rotation and skew matrices follow one convention (x,y,z,w; world frame), and the discrete dynamics add gravity and the contact forces and moments (only while a contact is active) to the momentum. "
  "The derivatives handed to the gain computation are those of exactly these dynamics: finite differences point from the nominal to the perturbed state and perturb one coordinate at a time, analytical ones differentiate the quaternion kinematics used.",
  ["inputs", "configurations"], "All states, controls, contact plans and time steps.",
  "A sign or ordering error in one Jacobian block changes gains but no tested value; the scripts are not exercised by any test.",
  [KP + "lqr_gain_manifold.py", KP + "lqr_gain_computation.py", KP + "end_eff_lqr_gain_computation.py"],
  [("CentroidalLqr.integrate_step", KP + "lqr_gain_manifold.py"), ("CentroidalLqr.dynamics_derivatives", KP + "lqr_gain_manifold.py"), ("end_effector_lqr.compute_dyn", KP + "end_eff_lqr_gain_computation.py")],
  "python:lqr_dyn_check",
  PYB + "The summary of each function is compared with that of an independently written reference function.",
  "real arithmetic; numpy operations are modelled by their documented algebra; the reference functions are trusted", PREF, 18)

P("D02", "Feedback gains come from a complete Riccati recursion of the tracking cost",
  "The cost is the quadratic tracking cost of state and control around the reference (terminal cost at the horizon), its derivatives leave the perturbed vectors restored, and the backward pass visits every time step from the last to the first, "
  "combining the cost derivatives with the value function of the following step into the action-value terms, feedforward and feedback gains. Every gain is stored under its own time step.",
  ["inputs", "histories"], "All horizons, reference trajectories, weights and contact plans.",
  "A recursion that skips a step, uses the wrong step's value or keeps a perturbation still returns gains of the right shape.",
  [KP + "lqr_gain_manifold.py", KP + "lqr_gain_computation.py", KP + "end_eff_lqr_gain_computation.py"],
  [("CentroidalLqr.compute_gains", KP + "lqr_gain_manifold.py"), ("CentroidalLqr.cost_derivatives", KP + "lqr_gain_manifold.py"), ("centroidal_lqr.lqr_backward_pass", KP + "lqr_gain_computation.py")],
  "python:lqr_gain_check",
  PYB + "The summary of each function, loops included, is compared with that of an independently written reference function.",
  "real arithmetic; that the recursion is numerically well conditioned is not decided", PREF, 15)

LQ = "solver_lqr/src/solver_lqr/"
LQT = "real arithmetic; the user's dynamics and cost are pure functions of state vector, feedforward control and time step; the linear algebra of Eigen and the reference functions are trusted"
LQB = BASE + "The summaries of the functions, loops and guards included, are compared with those of independently written reference functions."

P("D03", "Control sequences are rolled out step by step from the initial state",
  "States, controls and their sequences add, scale, assign and resize elementwise (resizing replaces what was there, a sum of controls carries the feedback of its second operand). "
  "A rollout starts from the given initial state; at every step the control is the feedforward plus the feedback times the deviation from the nominal state, clamped to the control limits if there are any, the next state is the Euler or fourth-order Runge-Kutta step of the dynamics, and the cost is recorded. "
  "The total cost is the sum of all stage costs and the final cost, and the rollout counts as diverged exactly when a state component passes the divergence limit.",
  ["inputs", "configurations", "histories"], "All dynamics, costs, horizons, control limits and nominal sequences, and any sequence of calls.",
  "The solver_lqr package has no test in this repository; a wrong sign, index or missing reset gives a plausible trajectory.",
  [LQ + "OcpDescription.cpp", LQ + "ForwardPass.cpp"],
  [("ForwardPass::applyController", LQ + "ForwardPass.cpp"), ("OcpBase::internal_dynamics", LQ + "OcpDescription.cpp")],
  "olqr:rollout_check", LQB, LQT, REF, 25)

P("D04", "The iterative LQR's control law minimises the local quadratic model",
  "From the last time step to the first, the backward recursion combines the derivatives of dynamics and cost with the value function of the next step, regularises the control Hessian, and takes as feedforward and feedback the minimiser of the resulting quadratic (the box-constrained minimiser when there are control limits, without feedback on controls held at a limit). "
  "The value function and expected improvement follow from that law, and if the regularised Hessian is not positive definite at some step the pass reports divergence at that step.",
  ["inputs", "configurations"], "All derivatives, horizons, regularisations and control limits.",
  "A wrong transpose or time index still returns gains of the right shape; the package has no test.",
  [LQ + "BackwardPass.cpp"], [("BackwardPass::optimizeController", LQ + "BackwardPass.cpp"), ("BackwardPass::findConstrainedControls", LQ + "BackwardPass.cpp")],
  "olqr:backward_check", LQB, LQT, REF, 3)

P("D05", "Finite differences are the first derivatives of dynamics and cost at every step",
  "For every time step of the current trajectory, the derivatives handed to the backward recursion are the central differences of the integrated dynamics and of the stage cost (final cost at the last state) with respect to each component of state and control at that step, with the configured step size. "
  "They are stored at that time step and in the column of the perturbed component, evaluating them leaves trajectory and controls unchanged, and initialising again adopts the new problem.",
  ["inputs", "configurations", "histories"], "All problems, trajectories and step sizes.",
  "A derivative in the wrong column or from the wrong time step degrades convergence without failing; the package has no test.",
  [LQ + "FiniteDifferences.cpp"], [("FiniteDifferences::" + n, LQ + "FiniteDifferences.cpp") for n in ("initialize", "computeDerivatives", "computeDynamicsFirstDerivatives", "computeObjectiveFirstDerivatives")],
  "olqr:derivative_check", LQB, LQT + "; second derivatives are not decided", REF, 4)

P("D06", "The iterative LQR accepts only steps that lower the cost and stops with reason",
  "After an initial rollout with the largest step that does not diverge (if none, the solver stops and reports it), trajectory, controls and cost change only to those of a rollout that lowered the cost without diverging, the first such along the line-search coefficients. "
  "A rejected step or failed backward pass raises the regularisation within its limits and an accepted one lowers it, and derivatives are recomputed exactly after an accepted change. "
  "The iteration ends on a small control gradient of a successful backward pass, a small cost change, regularisation above its maximum, or the iteration limit.",
  ["inputs", "configurations", "histories"], "All problems, settings and outcomes of the passes in any order.",
  "Which branch runs depends on the history of accepted and rejected steps; the package has no test.",
  [LQ + "SolverLqr.cpp"], [("SolverLqr::initialize", LQ + "SolverLqr.cpp"), ("SolverLqr::optimize", LQ + "SolverLqr.cpp")],
  "olqr:iteration_check", LQB, LQT + "; the three passes are D03 to D05", REF, 2)

DO = "momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp"
DOT = "the conic model, its expressions (B02) and the rigid-body states are taken as they are; values the optimiser receives from the solver are symbols; the reference function is trusted"

P("E01", "The dynamics optimiser's equality constraints are the centroidal dynamics",
  "For every time step the optimised problem constrains com, linear and angular momentum to change from the previous step (the initial state at step 0) exactly by momentum over mass, by gravity plus the forces of the active end effectors (plus the external force at step 0), and by the contact moments plus normal torques, each times the step's duration. "
  "When durations are optimised, the momentum rates equal the total force and moment and the products with the duration are their first-order expansion around the last solution; a fixed horizon fixes the sum of the durations.",
  ["inputs", "configurations"], "All horizons, contact plans, activations, initial states, settings and heuristics.",
  "A wrong sign, index, scale or condition of one row still gives a solvable problem and a plausible motion; no test of the repository builds this optimiser.",
  [DO], [("DynamicsOptimizer::internalOptimize", DO)],
  "dynopt:eq_check",
  BASE + "The constraints the optimiser adds, read as polynomials in the decision variables together with their loops and conditions, are compared with those of an independently written reference.",
  DOT, REF, 4)

P("E02", "The dynamics optimiser enforces contact and reach limits for active contacts",
  "For every time step and every active end effector the problem bounds the normal torque and the centre of pressure by the configured ranges, keeps the force of a unilateral contact in the friction cone (linear or second-order, as configured) in the contact frame, bounds the squared sums that represent the moment of the force, and bounds the distance of com plus offset to the contact by the maximal length. "
  "The com stays above the configured minimal height and optimised durations stay in their range; inactive end effectors get no limits and their contacts are not consulted.",
  ["inputs", "configurations"], "All horizons, contact plans, contact types, activations, settings and heuristics.",
  "A missing or misplaced limit is only visible in motions that come close to it; no test of the repository builds this optimiser.",
  [DO], [("DynamicsOptimizer::internalOptimize", DO), ("DynamicsOptimizer::initialize", DO), ("DynamicsOptimizer::contactType", DO)],
  "dynopt:ineq_check",
  BASE + "The constraints the optimiser adds, read as polynomials in the decision variables together with their loops and conditions, are compared with those of an independently written reference.",
  DOT, REF, 5)

P("E03", "The dynamics optimiser's cost is the configured sum of weighted squares",
  "The objective contains, each exactly once and with the configured weight of its axis, the com via points, the final com, tracking of the reference com and momenta, momentum rates, forces and force rates of active end effectors, normal torques and duration terms; nothing else. "
  "Rates are differences to the neighbouring step over the step's duration, with the initial state before step 0 and zero force where the end effector is inactive.",
  ["inputs", "configurations"], "All horizons, contact plans, references, weights and heuristics.",
  "A wrong weight, axis or neighbour changes the optimum slightly; no test of the repository builds this optimiser.",
  [DO], [("DynamicsOptimizer::internalOptimize", DO)],
  "dynopt:cost_check",
  BASE + "The squares added to the objective, read as polynomials in the decision variables together with their loops and conditions, are compared with those of an independently written reference.",
  DOT, REF, 1)

P("E04", "The dynamics optimiser stores the solution it found, without leaving the horizon",
  "Every decision variable block is registered once with its bounds, guess and type, and after solving reads back its own entries. "
  "The stored motion holds the com, momenta, forces, centres of pressure, torques and durations of the solution at their time steps for active end effectors (nothing is written past the last step), and with optimised durations the iteration repeats until the recomputed momenta agree within the tolerance, stop improving or the iteration limit is reached.",
  ["inputs", "configurations", "histories"], "All horizons, contact plans, heuristics and iteration limits.",
  "Reading a neighbouring entry or writing one step too far gives a plausible motion (or silent memory corruption); no test of the repository builds this optimiser.",
  [DO], [("DynamicsOptimizer::" + n, DO) for n in ("initialize", "initializeOptimizationVariables", "optimize", "addVariableToModel", "saveSolution", "storeSolution")],
  "dynopt:result_check",
  BASE + "The summaries of the optimiser's functions are compared with those of independently written reference functions.",
  DOT, REF, 11)

CN = "momentumopt/src/momentumopt/cntopt/"
P("E05", "The contact plan decides which end effectors are active where at every time step",
  "Contacts and via points read from file keep their order, times, poses, force flags and types per end effector. "
  "At each time step an end effector is active with its contact's placement exactly if the step's time lies within one of its contacts, each active step knowing its contact, and the initial robot state is filled for the first step. "
  "Flight phases run from the contact broken to the next one made, pass through the via points in between in order, and update each state's end effector pose and velocities.",
  ["inputs", "configurations"], "All contact plans, via points, horizons and time steps.",
  "Plans differ in where contacts start and end relative to the time grid; no test of the repository loads one in C++.",
  [CN + "ContactPlanFromFile.cpp", CN + "ContactPlanInterface.cpp", CN + "ContactState.cpp"],
  [("ContactPlanInterface::" + n, CN + "ContactPlanInterface.cpp") for n in ("fillDynamicsSequence", "updateEndeffectorTrajectories", "generateFlightPhase")] + [("ContactPlanFromFile::optimize", CN + "ContactPlanFromFile.cpp")],
  "dynopt:contact_check",
  BASE + "The summaries of the functions are compared with those of independently written reference functions.",
  "files are readable and well formed (error paths are assumed not taken); the trajectory generator is opaque here; the reference functions are trusted", REF, 17)

FBK = "momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp"
P("E06", "Momentum feedback tracks the plan with the dynamics it was planned for",
  "The feedback problem starts from the initial com and momenta with the planned forces of the active end effectors (in force units, none for inactive ones) as controls, and refuses a plan of another horizon. "
  "Its dynamics change the momenta by gravity and the forces of active end effectors over the planned step and the com by the new linear momentum; its cost weighs the deviation from the plan state of the same time and, except at the final time, the forces, without looking past the plan. "
  "Force gains asked for outside the horizon are those of the nearest time step.",
  ["inputs", "configurations"], "All plans, settings, states, controls and time indices.",
  "The states of the plan and of the feedback problem are offset by one step and activations change over time; no test builds this code.",
  [FBK], [("DynamicsFeedback::" + n, FBK) for n in ("setStatesAndControls", "objective", "dynamics", "configure")] + [("DynamicsFeedbackWrapper::forceGain", FBK)],
  "olqr:feedback_check",
  BASE + "The summaries of the functions are compared with those of independently written reference functions.",
  "real arithmetic; parameters are present in the file; the reference functions are trusted", REF, 7)

UTL = "momentumopt/src/momentumopt/utilities/"
P("E07", "Orientation utilities implement the algebra of unit quaternions",
  "Logarithmic and exponential map convert between unit quaternions and rotation vectors using the representative with non-negative real part (with first-order formulas near the identity), for inputs of any norm and sign. "
  "The orientation error is the logarithm of the rotation from current to desired; the required angular velocity is that error per time, in world or body coordinates; integrating an angular velocity from an orientation rotates it by the exponential, on the side of its coordinates. "
  "The jacobians are the derivatives of the quaternion and of the angular velocity with respect to rotation vector and its rates.",
  ["inputs"], "All quaternions, rotation vectors, angular velocities and time steps.",
  "Sign, side and normalisation errors vanish near the identity, where examples are usually taken; no test exercises these functions.",
  [UTL + "OrientationUtils.cpp"], [(n, UTL + "OrientationUtils.cpp") for n in ("logarithmicMap", "exponentialMap", "orientationError", "requiredAngularVelocity", "integrateAngularVelocity", "jacobianQuaternionWrtRotationVector")],
  "dynopt:orientation_check",
  BASE + "The summary of each function is compared with that of an independently written reference function.",
  "real arithmetic; products and inverses of Eigen's quaternions are trusted", REF, 11)

P("E08", "Swing trajectories meet their way points and report true derivatives",
  "The polynomial of an interpolation meets every given position, velocity and acceleration at its time, one coefficient per condition. "
  "Queries are clamped to the time span of the conditions and return the value and the first and second derivative of that one polynomial, also at time zero. "
  "A swing trajectory starts and ends at rest at its end positions and passes through the via position at mid time, in each of the three directions.",
  ["inputs"], "All conditions, way points and query times.",
  "Evaluation at special times (zero, the ends) and per direction mix-ups are not sampled by any test.",
  [UTL + "TrajectoryGenerator.cpp"], [(n, UTL + "TrajectoryGenerator.cpp") for n in ("Interpolator::initialize", "Interpolator::interpolate", "TrajectoryGenerator::initialize", "TrajectoryGenerator::update")],
  "dynopt:trajectory_check",
  BASE + "The summary of each function is compared with that of an independently written reference function.",
  "real arithmetic; the linear solve is trusted", REF, 4)

KO = "momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp"
P("E09", "The kinematics optimiser tracks the dynamic plan with the selected joints",
  "Every posture and motion the kinematics optimiser computes minimises the weighted deviations of com, momenta, momentum rates and end effector positions (separate weights while not in contact) from the dynamic plan at their time steps plus posture and motion regularisation, "
  "subject to the linearised kinematics of the robot model, positions, velocities and accelerations consistent over time steps and with the initial state, the floor and the joint limits, each selected dof using its own column, limit, default and reference. "
  "The solution is read back into the blocks and dofs it belongs to and integrated into the motion; iterations end by the limits and tolerances given, and each run starts with the end effector trajectories of the contact plan and the optimised initial posture.",
  ["inputs", "configurations"], "All plans, robots, dof selections, weights and iteration limits.",
  "A swapped weight, column or time index yields a plausible motion; no test of the repository builds this optimiser.",
  [KO], [("KinematicsOptimizer::" + n, KO) for n in ("initialize", "optimize", "initializeTrajectoryKinematicVariables", "initializePostureKinematicVariables", "optimizeTrajectory", "optimizePosture", "addVariableToModel", "saveSolution", "quaternionToRotationVector", "displayMotion")],
  "dynopt:kin_check",
  BASE + "The summaries of the optimiser's functions (objective and constraint rows as polynomials over the decision variables, stores, calls) are compared with those of independently written reference functions.",
  "the conic model and its expressions (B02) and the robot model behind KinematicsInterface are taken as they are; values received from the solver are symbols; the reference function is trusted", REF, 9)

P("E10", "Result files hold every stored quantity under its key and time step",
  "When saving is enabled, the dynamics result file holds the plan's parameters, the copied contact plan, the optimised com and momenta, the tracked references, velocities and accelerations of the active joints, the end time of every step, and per end effector its forces and normal torques (zero while not in contact) and centres of pressure. "
  "The kinematics result file holds, per time step, time, posture, velocity and acceleration; the LQR result file holds the copied problem parameters, dimensions, time step, all states including the final one, feedforward controls and one feedback gain per time step. "
  "Column or key t always belongs to time step t, and the file written is the configured one.",
  ["inputs", "configurations"], "All plans, horizons, selections of active joints, contact schedules and file names.",
  "Files are read by other programs much later; a value under the wrong key, column or unit is still a readable file, and no test of the repository writes one.",
  [DO, KO, LQ + "SolverLqr.cpp"], [("DynamicsOptimizer::saveToFile", DO), ("KinematicsOptimizer::storeSolution", KO), ("SolverLqr::storeSolution", LQ + "SolverLqr.cpp")],
  "dynopt:files_check",
  BASE + "Assignments to nodes of the document are read as (path of keys, value) pairs and compared, as a set with conditions and loops, with those of independently written reference functions; matrices filled column by column are normalised to the function of the column.",
  "writing and formatting of the YAML library are not analysed; the reference function is trusted", REF, 3)

P("E11", "Fresh states are at rest, inactive and correctly sized",
  "A newly constructed dynamics state has zero centre of mass, momenta, rates, forces and end-effector motion, identity orientations, no active end effector and contact index -1 for each of the four end effectors; a new contact or viapoint is unselected, free, at the origin with identity orientation and negative indices. "
  "A kinematics state for n joints has n joint positions, 6+n generalised velocities and accelerations, all zero with an identity base orientation, and the kinematics interface starts with zero Jacobians and momentum matrices over 6 + number of dofs columns, one Jacobian per end effector. "
  "Resizing a sequence discards its contents and leaves exactly the requested number of fresh states, and generalised joint positions are base position, base orientation as x y z w, then the joints.",
  ["inputs", "configurations"], "All numbers of joints and time steps, sequences resized any number of times, all postures.",
  "Planning starts from these states: a leftover or unset entry acts as a force, contact or motion nobody asked for, and only for some robots, horizons or repeated runs.",
  ["momentumopt/src/momentumopt/dynopt/DynamicsState.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsInterface.cpp", "momentumopt/src/momentumopt/cntopt/ContactState.cpp"],
  [("DynamicsState::DynamicsState", "momentumopt/src/momentumopt/dynopt/DynamicsState.cpp"), ("KinematicsState::KinematicsState", "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp"), ("KinematicsInterface::internalInitialization", "momentumopt/src/momentumopt/kinopt/KinematicsInterface.cpp"), ("RobotPosture", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp")],
  "dynopt:states_check",
  BASE + "Constructors (member initialisers and bodies), resize functions and posture conversions are reduced to the values of the members they leave; zero vectors in any notation are one value and default construction of containers is no effect.",
  "the reference functions are trusted; accessors of these classes are the subject of A03", REF, 3)

P("F01", "Reference trajectories of the end effectors respect the contact plan",
  "For every contact schedule, each maximal run of active time steps of an end effector becomes one stance phase, including one still active at the end of the horizon, during which the reference position is the contact position; "
  "consecutive stance phases are joined by minimum-jerk polynomials from the end of one to the start of the next that lift the foot by the given offset and have zero velocity and acceleration at both ends. "
  "Reported velocities are the derivative of the reported positions per second, for every time in or outside the covered intervals, and via-point trajectories of joints and base pass through their via points in order.",
  ["inputs", "configurations"], "All contact schedules, positions, horizons, via points and query times.",
  "Schedules differ in where and how often contacts change; the trajectory generator is exercised by no test.",
  [KP + "min_jerk_traj.py", KP + "momentum_kinematics_optimizer.py"],
  [("EndeffectorTrajectoryGenerator", KP + "momentum_kinematics_optimizer.py"), ("PolynominalList", KP + "min_jerk_traj.py"), ("TrajectoryInterpolator", KP + "momentum_kinematics_optimizer.py")],
  "python:reftraj_check",
  PYB + "The summary of each function, loops included, is compared with that of an independently written reference function.",
  "real arithmetic; numpy operations are modelled by their documented algebra; the reference functions are trusted", PREF, 20)

P("F02", "Inverse kinematics poses the weighted task problem of the given references",
  "At every step the stacked task Jacobian and its drift belong to the posture and velocity passed in, the desired task vector holds momentum (or com), end-effector, posture and base terms in the same order as the Jacobian rows and the weights, "
  "active contacts get the contact weight and swing feet the swing weight, and the quadratic program minimises the weighted task error. The second-order variant integrates each time step completely, evaluates its references at the integration time and stores result k under time step k.",
  ["inputs", "configurations"], "All postures, velocities, references, contact activations and time steps.",
  "Row offsets, cached kinematics and weights are tied together only by position; a mismatch gives plausible but wrong motions and no test runs the inverse kinematics.",
  [KP + "inverse_kinematics.py", KP + "second_order_ik.py", KP + "qp.py"],
  [("PointContactInverseKinematics.compute", KP + "inverse_kinematics.py"), ("SecondOrderInverseKinematics.step", KP + "second_order_ik.py"), ("QpSolver.quadprog_solve_qp", KP + "qp.py")],
  "python:ik_check",
  PYB + "The summary of each function, loops included, is compared with that of an independently written reference function.",
  "the rigid-body library and the quadratic-program solver are uninterpreted; real arithmetic; the reference functions are trusted", PREF, 12)

P("F03", "Kinematic plans record, per time step, the motion that was computed for it",
  "For every horizon, the kinematics optimiser tracks at time step k the dynamic plan's com, momenta, end-effector references and activations of step k (keeping the take-off momentum under gravity while no end effector is active), leaves the dynamic references unchanged, "
  "and stores under index k the posture, velocity, com, momenta and end-effector motions all evaluated at the same posture and velocity, split into base and joint parts. The next posture is that one integrated with the computed velocity over one time step.",
  ["inputs", "configurations", "histories"], "All dynamic plans, contact schedules, via points, horizons and initial states.",
  "Mixing quantities of neighbouring steps, or evaluating one of them with stale kinematics, leaves all shapes intact; no test runs the optimiser.",
  [KP + "momentum_kinematics_optimizer.py"],
  [("MomentumKinematicsOptimizer.optimize", KP + "momentum_kinematics_optimizer.py"), ("MomentumKinematicsOptimizer.fill_kinematic_result", KP + "momentum_kinematics_optimizer.py")],
  "python:kinopt_result_check",
  PYB + "The summary of each function, loops included, is compared with that of an independently written reference function.",
  "the rigid-body library is uninterpreted; a flight phase at the very first time step (which raises in the code) is not judged; the reference functions are trusted", PREF, 6)

# ------------------------------------------------------------------------------------------------ not applicable
NA("C01", "The real-time hierarchical QP solver returns the lexicographic optimum",
   "For every hierarchy of equality and inequality tasks, the returned point minimises each rank's violation among the minimisers of all higher ranks, and slacks of inequalities report the remaining violation.",
   ["inputs"], "All task hierarchies of bounded size.",
   "Rank-deficient and degenerate hierarchies are not sampled by the three existing tests.",
   ["solver/include/solver/rt_optimizer/RtHQPSolver.hpp", "solver/include/solver/rt_optimizer/RtQPSolver.hpp"], [("RtHQPSolver::solve", "solver/include/solver/rt_optimizer/RtHQPSolver.hpp")],
   "Optimality rests on numerical quantities: rank decisions by singular values against a threshold and the termination of an active-set iteration; no sound static argument in reach bounds them, and the result does not follow from any per-function algebraic identity.")
NA("C02", "The quasi-Newton solver converges to a stationary point of the penalised problem",
   "For every smooth problem the returned point has a gradient below the configured tolerance or the status says why it has not.",
   ["inputs"], "All smooth problems.",
   "Convergence depends on curvature met along the way.",
   ["solver/src/solver/optimizer/LbfgsSolver.cpp"], [("LbfgsSolver::optimize", "solver/src/solver/optimizer/LbfgsSolver.cpp")],
   "Convergence of the line search and of the quasi-Newton iteration quantifies over runtime values of a user function; a static analysis cannot bound them. The wrapped library's code is third-party.")
NA("G01", "Alternating dynamic and kinematic optimisation agree in the end",
   "After the configured number of alternations, the kinematic motion realises the momenta of the dynamic plan up to the solver tolerances.",
   ["inputs", "configurations"], "All plans and robots.",
   "Agreement is what the alternation exists for, but depends on feasibility of the task.",
   ["momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp"], [("KinematicsOptimizer::optimize", "momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp")],
   "Agreement is the limit of a numerical alternation between two solvers and a robot model outside the repository; statically only each side's problem (E01-E09, F01-F03) can be decided, which is what those checks do.")

TECH = {
    "gvn": "static dataflow: global value numbering over gated SSA of the type-checked program (clang AST of /repo/src), compared with the property's formulas",
    "ast": "static query over the type-checked binding sources and class hierarchy, joined with the dataflow of the accessors",
    "par": "static effect analysis of the parallel loops over gated SSA: written entries, carried reads, reductions, exits; value numbering of the multi-threaded build",
    "order": "static dataflow over gated SSA of the type-checked program: def-use provenance, guards and ordering of calls inside loops",
}
NOTES = ("All checks are static: they parse /repo's current sources with clang, build guarded dataflow graphs of the solver functions and decide the "
         "properties on them; no code of /repo is run. See DESIGN.md.")
TRUST = ("Values are exact real arithmetic (rounding, NaN propagation in comparisons and overflow are outside); crocoddyl, Eigen, proxsuite and the "
         "standard library are modelled by contracts listed in DESIGN.md; option combinations that select code are enumerated. ")
PROPS = [
dict(id="P01", title="Success is only reported for the returned point's own small residual",
  statement="In every solver, solve() returns true only when the optimality (KKT) residual that was evaluated at exactly the returned states and controls, from model data re-evaluated at that point, is at most the termination tolerance; conversely a residual within the tolerance at the start of an iteration ends the solve with true. No path changes the point between that evaluation and the successful return.",
  over=["inputs", "histories", "configurations"],
  quant="all problems, warm starts, iteration counts, accepted/rejected line-search histories, settings and option combinations",
  why="Tests solve a handful of converging problems; a stale residual or a wrong success flag only shows after particular histories of rejected steps, retries or exhausted iterations.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"],
  mech=[("iteration protocol", "Solver*::solve"), ("residual", "Solver*::checkKKTConditions"), ("model evaluation", "Solver*::computeDirection, calc, calcDiff")],
  observe=["return value of solve()", "KKT_", "xs_, us_"], tech="order",
  note=TRUST + "Decides the provenance of the residual, the flag and the point on all paths of solve(); does not bound convergence."),
dict(id="P02", title="The reported optimality residual covers every KKT condition",
  statement="In every solver, the reported optimality residual is the largest absolute entry over: the gradient of the Lagrangian with respect to the state of every node including the terminal one (dynamics multipliers entering as Fx^T lambda(t+1) - lambda(t), constraint multipliers through the constraint Jacobians, constraints at the initial node acting on controls only), the gradient with respect to every control, all shooting defects, and, for the constrained solvers, the total constraint violation. For the constrained splitting-based solver the dynamics multiplier of a node is the value-function gradient plus value-function Hessian times the QP state step. Evaluating it does not modify the iterate, and it has no further terms.",
  over=["inputs"], quant="all problem sizes, node contents, iterates and multipliers",
  why="Tests only look at the residual of converged unconstrained or small problems, where a dropped or misindexed term is also small.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"],
  mech=[("KKT residual", "SolverDDP/SolverSQP/SolverCSQP/SolverPROXQP::checkKKTConditions")], observe=["KKT_", "lag_mul_", "x_grad_norm_", "u_grad_norm_"],
  note=TRUST + "Exact symbolic equality of the residual with the KKT formula for a generic node and the end nodes, for every horizon. (PROXQP omits the initial node's state gradient, which is fixed.)"),
dict(id="P05", title="Trial and current points are measured by the same formulas",
  statement="In the SQP-type solvers, the cost, the total shooting defect (sum of 1-norms), the constraint violation (sum of 1-norms of the parts beyond the bounds, all nodes) and the merit value (cost plus penalty weights times defect and violation; the multiplier-based weight when a penalty is negative) are computed for the current point from model evaluations at that point, and for a trial step from evaluations at the point obtained by integrating exactly step length times the direction. Both are the same formulas, and evaluating a trial changes neither the current point, nor the direction, nor the current measures.",
  over=["inputs", "configurations"], quant="all iterates, directions, step lengths, problems with any number of nodes, and settings",
  why="Acceptance decisions are inequalities between these numbers, so an inconsistent measure mostly still converges on the sampled problems.",
  files=["src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"],
  mech=[("current measures", "SolverCSQP/SolverPROXQP::calc, SolverSQP::computeDirection"), ("trial measures", "Solver*::tryStep")],
  observe=["cost_, gap_norm_, constraint_norm_, merit_", "cost_try_, gap_norm_try_, constraint_norm_try_, merit_try_"],
  note=TRUST + "Exact equality of both sides with the formulas, for every horizon and node."),
dict(id="P09", title="The penalty of each constraint row follows its bounds and the adaptation rule",
  statement="In the constrained splitting-based solver, applying a penalty parameter gives unbounded rows the minimum penalty, rows whose bounds differ by at most 1e-6 (equalities) 1000 times the parameter and other rows the parameter itself, and stores exactly the reciprocal as inverse, at every node including the terminal one. The parameter is only changed at multiples of the update interval, to sqrt(primal/primal scale * dual scale/dual) times the parameter clipped to the allowed range, and only if that differs from it by more than the tolerance factor; a reset restores the base parameter and applies it.",
  over=["inputs", "histories"], quant="all bounds, residual histories and settings",
  why="The tests run one or two QPs with default settings; rows of mixed kinds, terminal constraints and penalty changes at other intervals are not sampled.",
  files=["src/csqp.cpp"], mech=[("penalty rule", "SolverCSQP::apply_rho_update, reset_rho_vec, update_rho_vec, reset_params")], observe=["rho_vec_, inv_rho_vec_, rho_sparse_"],
  note=TRUST + "Exact equality of the written values with the rule for every node and row."),
dict(id="P10", title="Each QP iteration applies the exact splitting update and its residuals",
  statement="In the constrained splitting-based solver, every QP iteration computes, per node, the relaxed constraint value alpha*(G dx~ + H du~) + (1-alpha)*z, projects it plus the scaled multiplier onto the bounds shifted by the current constraint value, updates the multiplier by the penalty times the difference, and takes the new step over. Its primal and dual residuals and their scales are the infinity norms over all constrained nodes prescribed by the chosen (exact or heuristic) criterion, computed at multiples of the update interval; a QP starts from zero splitting variables and keeps the multipliers unless a reset is requested.",
  over=["inputs", "histories"], quant="all iterates, bounds, penalties, node counts and both residual criteria",
  why="A wrong sign, index or norm still converges on the few test QPs, only more slowly or to another tolerance.",
  files=["src/csqp.cpp"], mech=[("splitting update", "SolverCSQP::update_lagrangian_parameters"), ("QP start", "SolverCSQP::reset_params")],
  observe=["z_, y_, dx_, du_", "norm_primal_, norm_dual_, norm_primal_rel_, norm_dual_rel_"], note=TRUST + "Exact equality with the formulas for every node."),
dict(id="P11", title="The QP loop runs its phases in order and stops exactly by its rule",
  statement="In the constrained splitting-based solver, each QP iteration factorises (with new penalties exactly in the iteration after a possible penalty change, reusing the factorisation otherwise), rolls out, updates the splitting variables and then adapts the penalty, in this order, starting from reset variables and from the unconstrained solution iff that option is on; the number of iterations it reports is the number it performed. It ends early only when the time budget is used up, or when at a multiple of the update interval the primal and dual residuals of this very iteration are within absolute tolerance plus relative tolerance times their scales.",
  over=["inputs", "histories", "configurations"], quant="all residual sequences, intervals, tolerances and budgets",
  why="Whether a stale factorisation or a stale residual is used depends on the interval and on the residual history; tests use the defaults.",
  files=["src/csqp.cpp"], mech=[("QP loop", "SolverCSQP::computeDirection")], observe=["qp_iters_", "converged_"], tech="order",
  note=TRUST + "Guards and order of all phases for a generic iteration, stop condition by exact equality."),
dict(id="P13", title="Backward passes compute the Riccati recursion of the regularised subproblem",
  statement="In every dynamic-programming based solver, for every node the backward pass computes the action-value terms from the node derivatives, the value function and the defect of the next node (plus, in the constrained solver, the proximal term and the penalty and multiplier terms through the constraint Jacobians, initial-node constraints acting on the controls only), adds the control regularisation to the control Hessian, solves for the gains with that matrix, and forms a symmetrised value Hessian plus state regularisation and the value gradient, shifted by the defects where the iterate is infeasible. The multi-threaded and the factorisation-reusing variants compute the same values, and an indefinite control Hessian makes the pass fail instead of producing gains.",
  over=["inputs", "schedules", "configurations"], quant="all derivatives, horizons, node dimensions, regularisation values and both threading variants",
  why="Test problems have a few fixed models and horizons; most wrong terms vanish for zero defects, zero regularisation or inactive constraints.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp"], mech=[("Riccati recursion", "Solver*::backwardPass*, computeGains")],
  observe=["Vx_, Vxx_, K_, k_, Q*_"], note=TRUST + "Exact matrix-polynomial equality for a generic node and the terminal node; failure guard by exact equality."),
dict(id="P25", title="Forward passes apply the feedback policy and the (linear) dynamics exactly",
  statement="The shooting solvers' forward pass starts at the initial state, applies at every node the nominal control minus step length times feed-forward minus feedback gain times the state deviation, continues with the model's next state (the multiple-shooting variant integrating (step length - 1) times the defect unless feasible or at full step), sums the cost of exactly these evaluations, and estimates every node's multiplier (terminal included) as the value gradient plus the value curvature along a state deviation, less the defect in partial infeasible steps. The SQP solvers' forward passes compute the control step as minus feed-forward minus gain times state step, and the next state step by the linearised dynamics plus the defect, keeping the initial step; multipliers and step sizes are those of the resulting steps.",
  over=["inputs"], quant="all gains, derivatives, defects, step lengths and horizons, nodes with and without controls",
  why="Tests check that converged problems stay converged, where the deviations are zero.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp"], mech=[("rollout", "Solver*::forwardPass*")], observe=["xs_try_, us_try_, cost_try_", "dx_, du_, lag_mul_"],
  note=TRUST + "Exact equality for a generic node; chains carried across iterations are decided by their entry value and their step."),
dict(id="P04", title="Filter and merit line searches accept exactly the non-dominated trials",
  statement="In every solver with a filter or merit line search, the step lengths are tried in order from the first; a trial becomes the new iterate exactly if its evaluation succeeded and, with the filter, no iterate among the last filter-size ones (the current one included) is at least as good in every measure, or, with the merit function, its merit is smaller than the current one. The accepted point is exactly the evaluated trial, the first accepted trial ends the search, the reported step length is the one last tried, and a search without acceptance leaves the iterate unchanged. The filter compares cost, defects and (with constraints) violation of this trial with recorded values of earlier iterates.",
  over=["inputs", "histories", "configurations"], quant="all trial measures, histories of accepted and rejected steps, filter sizes and step-length lists",
  why="Tests use default settings on converging problems, where the first trial is mostly accepted and the filter never fills.",
  files=["src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("line search", "Solver*::solve")], observe=["xs_, us_", "steplength_", "cost_list_, gap_list_, constraint_list_"],
  note=TRUST + "Acceptance guard by exact equality, at a generic iteration and trial, including provenance of the compared values."),
dict(id="P07", title="Regularisation grows on failure, shrinks on success, and ends solves at its cap",
  statement="In every solver, raising the regularisation multiplies it by the increase factor up to the maximum (from zero it becomes positive), lowering divides it down to the minimum, and the state and control parts stay equal. A failed direction raises it and is retried until it succeeds or the maximum is reached, which ends the solve with failure; after a line search it is lowered exactly for step lengths above the upper threshold and raised exactly for step lengths at or below the lower one (constrained solver: not above), giving up at the maximum. With regularisation removed none of this happens.",
  over=["inputs", "histories", "configurations", "fault_sequences"], quant="all sequences of failing and succeeding directions and step lengths, all settings",
  why="Tests hardly ever meet an indefinite subproblem, and never one that stays indefinite up to the cap.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("regularisation", "SolverDDP::increaseRegularization, decreaseRegularization"), ("retry and adaptation", "Solver*::solve")],
  observe=["preg_, dreg_"], tech="order", note=TRUST + "Update values by exact equality, retry and adaptation guards by exact equality at a generic iteration."),
dict(id="P08", title="Iterations, line searches and solve time respect their budgets",
  statement="In every solver, solve() performs at most the requested number of iterations, counted from zero and reported, with one line search per iteration that tries each configured step length at most once. In the constrained splitting-based solver the elapsed time since the start of the solve is checked at the start of every iteration, an exceeded time budget ends the iterations before any further work and is recorded, and the QP loop measures against the same start.",
  over=["inputs", "histories", "configurations"], quant="all iteration limits (including zero), time limits and histories",
  why="A loop bound or a missed time check only matters on runs that do not converge within the budget.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("iteration loop", "Solver*::solve")], observe=["iter_", "max_solve_time_reached_"], tech="order",
  note=TRUST + "Loop bounds, exits and guards of every call inside the loops; readings of the clock are distinguished by where they are taken."),
dict(id="P16", title="Callbacks run once per evaluated iterate and see its finished evaluation",
  statement="In the DDP, FDDP, SQP and constrained SQP solvers every registered callback is invoked exactly once, in order, after every evaluation of the optimality residual (SQP solvers) or of the stopping measure after a line search (DDP and FDDP, which do not call back on the pass that ends with a small residual), also if it ends the solve, and nowhere else. It sees states, controls, cost and residual of exactly that evaluation.",
  over=["histories", "configurations"], quant="all callback lists, iteration histories and exits",
  why="Tests do not observe what callbacks see, or the exits on which they could be skipped.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp"], mech=[("callback rounds", "Solver*::solve")], observe=["calls of registered callbacks"], tech="order",
  note=TRUST + "Guards of callback rounds equal the guards of the evaluations; state equality between both points."),
dict(id="P20", title="A solve starts from the caller's warm start and a fresh protocol state",
  statement="Every solve() first adapts its buffers exactly if the problem was updated, then takes over exactly the states and controls the caller passed, before any iteration; the feasibility flag is the caller's for DDP and FDDP and false otherwise. State and control regularisation start at the requested value, or at the minimum if none is given (zero if regularisation is removed), and the constrained solver resets its penalties exactly at the first iteration when that option is on, after the bounds were evaluated and before the QP.",
  over=["inputs", "histories", "configurations"], quant="all warm starts, repeated solves on one object, options",
  why="Leftovers of an earlier solve only show on repeated solves with changed settings or problems.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("start of a solve", "Solver*::solve")], observe=["xs_, us_", "preg_, dreg_", "rho_vec_"], tech="order",
  note=TRUST + "Order, guards and arguments of the starting calls by exact equality."),
dict(id="P21", title="DDP and FDDP accept steps by the expected-improvement rule of their model",
  statement="DDP and FDDP accept a trial exactly if its evaluation succeeded and its actual cost decrease satisfies the sufficient-decrease rule against the predicted decrease step*(d0 + step*d1/2) of the quadratic model of this iteration's direction (gradient below threshold or, for DDP, an infeasible iterate also suffice; FDDP bounds an increase when the model predicts ascent). The model terms are the sums over nodes of the control gradient along the feed-forward step and its curvature, for FDDP plus the defect terms through the value function at the trial; the stopping measure is the summed squared control gradient. An accepted step records its cost and feasibility.",
  over=["inputs", "histories"], quant="all gains, gradients, value functions, defects, thresholds and step lengths",
  why="Tests accept the full step on almost every iteration, so a wrong prediction hardly changes the outcome.",
  files=["src/ddp.cpp", "src/fddp.cpp"], mech=[("acceptance", "SolverDDP/SolverFDDP::solve"), ("model", "expectedImprovement, updateExpectedImprovement, stoppingCriteria")], observe=["d_, dV_", "stop_", "is_feasible_"],
  note=TRUST + "Acceptance guard and model sums by exact equality for every horizon."),
dict(id="P03", title="Every iterate keeps the problem's initial state",
  statement="At every moment of a solve after its warm start has been taken over, the first state of the iterate is the problem's initial state, in every solver. In the SQP-type solvers every trial is the iterate integrated by a direction whose first state step is zero (after construction and after every function that writes it), in the shooting solvers every trial starts with the problem's initial state, and iterates are only ever replaced by such trials.",
  over=["inputs", "histories", "configurations"], quant="all warm starts (also ones with another first state), problems, iteration histories and step lengths",
  why="Tests warm start with the initial state itself, so an iterate that drifts from it, or is never put there, is not seen.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("warm start", "Solver*::solve"), ("initial step", "forwardPass*, computeDirection, tryStep")],
  observe=["xs_[0], xs_try_[0], dx_[0]"], note=TRUST + "Inductive: entry value, every writer of the first step, every replacement of the iterate."),
dict(id="P06", title="Failed evaluations are detected, contained and leave the iterate alone",
  statement="Trial evaluations and shooting forward passes refuse step lengths outside [0,1] and fail exactly if the summed trial cost is not finite (in DDP and FDDP also if any next state is not finite), and the DDP backward pass fails exactly if a control Hessian is not positive definite or a value-function derivative is not finite. No such failure escapes solve() (constrained solver with removed regularisation excepted): a failed direction goes to the regularisation retry and a failed trial to the next step length, never being accepted. A trial, failed or not, leaves iterate, gains, value function, current measures, regularisation and penalties untouched.",
  over=["inputs", "histories", "fault_sequences"], quant="all nodes and moments at which an evaluation fails, and all histories of failures",
  why="Tests have no model that returns non-finite values, and failure paths are rarely taken on well-posed problems.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("failure detection", "Solver*::forwardPass, tryStep, backwardPass*"), ("containment", "Solver*::solve")],
  observe=["exceptions", "xs_, us_ after a failed trial"], note=TRUST + "Throw guards by exact equality, handlers by the exceptional control flow graph, frame by the written locations."),
dict(id="P19", title="The dense QP of the ProxQP-based solver is the SQP subproblem",
  statement="In the ProxQP-based solver, the QP handed to the backend has, at the positions of each node's state step and control step, exactly that node's cost Hessian and gradient blocks, the linearised dynamics with the current defects as equality constraints, and the linearised path and terminal constraints between their bounds shifted by the current value as inequalities; everything else is zero, and sizes fit problems with varying control, constraint and manifold state dimensions. Tolerances, iteration limit and verbosity passed on are the configured ones, and steps, dynamics multipliers and constraint multipliers are read back from the same positions.",
  over=["inputs", "configurations"], quant="all horizons, node dimensions (also varying), derivative values, bounds and settings",
  why="Tests use constant dimensions in vector spaces, where several wrong offsets coincide with the right ones.",
  files=["src/csqp_proxqp.cpp"], mech=[("assembly", "SolverPROXQP constructor, computeDirection")], observe=["P_, A_, C_, q_, b_, l_, u_", "dx_, du_, lag_mul_, y_"],
  note=TRUST + "Every block write is compared by position, guard and value for a generic node; non-overlap is decided from the offsets."),
dict(id="P15", title="Settings are stored exactly, rejected exactly out of range, and read back",
  statement="Every setter of the solvers stores exactly the value it is given, changes nothing else, and refuses (before storing anything) exactly the values outside its range: factors at most one, negative regularisations and gradient thresholds, step thresholds outside (0,1], a zero penalty update interval, and step-length lists that are empty, contain a non-positive value or do not strictly decrease. The matching getter returns that value, and every result getter returns the quantity it is named after, unchanged and without side effects. Setting a filter size makes every filter memory hold exactly that many iterates, also when it shrinks.",
  over=["inputs", "configurations"], quant="all values, also fractional, boundary and out-of-range ones, and lists of any length",
  why="Tests set one ordinary value per setting and read it back.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp", "include/mim_solvers/ddp.hpp", "include/mim_solvers/fddp.hpp", "include/mim_solvers/sqp.hpp", "include/mim_solvers/csqp.hpp", "include/mim_solvers/csqp_proxqp.hpp"],
  mech=[("setters", "Solver*::set_*"), ("getters", "Solver*::get_*")], observe=["set_*, get_*"],
  note=TRUST + "Stored values, written members and rejection guards by exact equality; for NaN nothing is claimed."),
dict(id="P14", title="Python and base-class interfaces show the solver's own live state",
  statement="Every Python property of a solver shows (and, where it is writable, assigns exactly) the C++ member it is named after, and every Python method calls the C++ method of its name with its keyword arguments in the declared order; Python callbacks receive the solver and its type. No solver class hides a member on which an accessor or a Python property inherited from its base classes works, so these always show and change what the solver really uses. Every solver is exposed with its C++ base class and after it, and called through a base class it runs its own operations.",
  over=["configurations", "histories"], quant="all exposed names of all solver classes and all accessors inherited from base classes",
  why="Tests read a handful of properties of some classes, mostly on the class that declares them; a swapped or shadowed member shows plausible numbers.",
  files=["bindings/main.cpp", "bindings/ddp.cpp", "bindings/fddp.cpp", "bindings/sqp.cpp", "bindings/csqp.cpp", "bindings/csqp_proxqp.cpp", "bindings/utils/callbacks.cpp", "bindings/utils/callback-base.hpp",
         "include/mim_solvers/ddp.hpp", "include/mim_solvers/fddp.hpp", "include/mim_solvers/sqp.hpp", "include/mim_solvers/csqp.hpp", "include/mim_solvers/csqp_proxqp.hpp"],
  mech=[("registrations", "bindings: exposeSolver*"), ("members and accessors", "class definitions in include/mim_solvers")], observe=["Python attributes and methods", "get_*, set_*"],
  tech="ast", note=TRUST + "Registrations are read from the type-checked binding sources, accessors from the dataflow of their bodies; what crocoddyl's own accessors show is listed."),
dict(id="P12", title="Parallel loops are free of races and give the sequential results",
  statement="In the multi-threaded build, no iteration of a parallel loop writes anything shared except its own node's entries and declared reductions combined by the declared operation, reads an entry another iteration writes, or leaves the loop by break, return or exception. So the number of threads and the schedule do not change results (up to rounding of sums), and trial measures, splitting updates, backward passes and the QP loop satisfy the same rules as in the single-threaded build.",
  over=["schedules", "inputs", "configurations"], quant="all schedules and numbers of threads, all inputs",
  why="The tests are built without multi-threading; a race shows rarely even with it.",
  files=["src/csqp.cpp"], mech=[("parallel loops", "SolverCSQP::backwardPass_mt, backwardPass_without_rho_update_mt, update_lagrangian_parameters, tryStep"), ("dispatch", "SolverCSQP::computeDirection")],
  observe=["results for different numbers of threads"], tech="par", note=TRUST + "The sources are analysed a second time with multi-threading compiled in; model evaluations of different nodes are assumed independent of each other, profiling off."),
dict(id="P26", title="Printed and logged convergence data are the solver's own quantities",
  statement="Every column the verbose callback prints, and the table and trace of the ProxQP-based and constrained solvers, shows the quantity its title names, taken from the solver at that moment; step-related columns are blank for a converged point, and nothing is printed when the option is off. Callbacks receive the solver itself and its type, and never treat a solver as a class it is not. The Python logger appends, per call, exactly one entry per key, which is the quantity named, and snapshots (not references to) the trajectories.",
  over=["inputs", "configurations", "histories"], quant="all solver classes, types passed to callbacks, iterates and numbers of calls",
  why="No test looks at what is printed or compares the logged values with the solver.",
  files=["src/utils/callbacks.cpp", "src/csqp_proxqp.cpp", "src/csqp.cpp", "bindings/mim_solvers/__init__.py"], mech=[("printing", "CallbackVerbose::operator(), SolverPROXQP::printCallbacks, SolverCSQP::printQPCallbacks"), ("logging", "CallbackLogger.__call__")],
  observe=["standard output", "CallbackLogger.convergence_data"], note=TRUST + "The sequence of printed values is derived per type and case; the Python logger is interpreted abstractly from its syntax tree."),
dict(id="P17", title="Equality constraints of Crocoddyl's own interface are refused",
  statement="Constructing the constrained solvers (ADMM- and ProxQP-based) fails with an exception exactly when some running model or the terminal model declares equality constraints (nh != 0), which these solvers would otherwise silently leave out. No other condition makes any solver's constructor fail, and no equality-constraint data enter a solve.",
  over=["inputs", "configurations"], quant="all problems: horizons and numbers of constraints of every node",
  why="A test builds one problem with equality constraints; which nodes count (only the last, only the terminal) needs all combinations.",
  files=["src/csqp.cpp", "src/csqp_proxqp.cpp", "src/sqp.cpp", "src/ddp.cpp", "src/fddp.cpp"], mech=[("refusal", "SolverCSQP::SolverCSQP, SolverPROXQP::SolverPROXQP")], observe=["exceptions of the constructors"],
  note=TRUST + "The condition of every exception is derived with closed forms of the loops over the nodes and compared with 'some node has nh != 0'."),
dict(id="P18", title="Accesses stay in range and matrix sizes fit for every problem",
  statement="For every horizon and every choice of control and constraint dimensions per node, each element access in solver code stays inside its container, every product, sum and block operation combines matrices of fitting sizes, and state points (nx) and displacements (ndx) are never mixed up. Every buffer has one entry per node it is used for and, unless it is scratch space, keeps its node's size.",
  over=["inputs", "configurations"], quant="all horizons T >= 1 and all dimensions nu, ng of every node, all paths of every method of the solver classes",
  why="Release builds check neither indices nor sizes, and the tested problems have the same dimensions at every node (and mostly nx = ndx): overruns and swapped sizes stay invisible.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp", "src/kkt.cpp"], mech=[("sizes", "constructors, allocateData, resizeData"), ("accesses", "every method of SolverDDP, SolverFDDP, SolverSQP, SolverCSQP, SolverPROXQP, SolverKKT")],
  observe=["memory errors", "wrong results with node-dependent dimensions"], note=TRUST + "Crocoddyl's data and model vectors are taken to have the sizes of their node, warm starts passed by callers the sizes Crocoddyl checks; the state dimension is the same at all nodes (Crocoddyl enforces it)."),
dict(id="P22", title="SolverKKT builds and solves exactly the KKT system of its current iterate",
  statement="SolverKKT assembles the KKT matrix and right-hand side of the quadratic subproblem at its current iterate: cost Hessians, identity and negative dynamics Jacobians at their nodes' positions, the transposed dynamics rows, gradients, defects of the dynamics and of the initial state, zero elsewhere. Its state and control steps and multipliers are the parts of that system's solution that belong to each node, and its optimality residual, stopping measure and expected improvement are those of the same system and solution (zero residual exactly at a KKT point, defects included). Trial points are the iterate moved by the step length along these steps, their improvement is the decrease of the cost, and a trial replaces the iterate, together with its cost, exactly under the expected-improvement condition.",
  over=["inputs", "configurations"], quant="all problems: horizons, control dimensions of every node, states on manifolds (nx != ndx), all derivatives and iterates",
  why="No test runs SolverKKT on nodes of different dimensions or compares its residual with the multipliers it computes.",
  files=["src/kkt.cpp"], mech=[("assembly", "SolverKKT::calcDiff"), ("solution", "SolverKKT::computePrimalDual, computeDirection"), ("measures", "SolverKKT::checkKKTConditions, stoppingCriteria, expectedImprovement"), ("steps", "SolverKKT::tryStep, solve")],
  observe=["get_kkt, get_kktref, get_primaldual", "get_dxs, get_dus, get_lambdas", "get_KKT, stop, d"],
  note=TRUST + "Every block write is compared by position, guard and value for a generic node. Exceptions of the models during a solve of SolverKKT are outside of the claim."),
dict(id="P23", title="Printing, logging and callbacks observe a solve without changing it",
  statement="Whether and how a solve is watched (callbacks attached, verbose output of the QP loop or of the ProxQP-based solver switched on) never changes what any solver computes: no iterate, measure, penalty, tolerance, iteration count, decision or result depends on it. The printing functions and the loops that invoke callbacks modify no solver state, and the callbacks shipped with the solvers (C++ and Python) only read the solver they are called with.",
  over=["inputs", "configurations", "histories"], quant="all solver classes and their methods, all settings of the observers and numbers of callbacks",
  why="Tests never compare a watched solve with an unwatched one.",
  files=["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp", "src/utils/callbacks.cpp", "bindings/mim_solvers/__init__.py"],
  mech=[("printing", "printQPCallbacks, printCallbacks, CallbackVerbose::operator()"), ("callback rounds", "Solver*::solve"), ("QP loop", "SolverCSQP::computeDirection")],
  observe=["results of solves with and without observers"], tech="gvn",
  note=TRUST + "Non-interference: the observer settings are the members written by set*Callbacks; guards, loop bounds and stored values of everything that is not output must not contain them. What a user's own callback does to the solver is his."),
dict(id="P90", title="Solves of well-posed problems converge to a solution",
  statement="From a reasonable warm start, solves of problems that satisfy the usual regularity and second-order conditions converge to a local optimum, locally at the rate of the method (superlinear for exact Hessians).",
  over=["inputs"], quant="all well-posed problems and starts in a neighbourhood of a solution", why="Tests solve a handful of problems.", files=["src/sqp.cpp", "src/csqp.cpp", "src/ddp.cpp", "src/fddp.cpp", "src/csqp_proxqp.cpp"],
  mech=[("iterations", "Solver*::solve")], observe=["results of solves"],
  na="A statement about limits of real sequences whose truth depends on conditioning and curvature of the problem; no static argument over the source bounds them. The parts of it that the source decides (formulas, acceptance, protocol) are P01-P13, P19-P22 and P25."),
dict(id="P91", title="QP solutions are as accurate as requested and agree across backends",
  statement="For a feasible convex subproblem, the splitting method reaches the requested tolerances, and its solution agrees with that of other QP solvers within them.",
  over=["inputs"], quant="all feasible convex subproblems", why="Tests compare a few problems.", files=["src/csqp.cpp", "src/csqp_proxqp.cpp"], mech=[("QP", "SolverCSQP::computeDirection, SolverPROXQP::computeDirection")], observe=["qp_iters", "norm_primal, norm_dual"],
  na="How fast the splitting contracts depends on runtime data (penalties, conditioning), and agreement is between floating-point limits; static analysis can show that each iteration applies the right formulas and that the loop stops by its rule (P09, P10, P11), not that it converges."),
dict(id="P92", title="Solve times are bounded and results are stable under rounding",
  statement="A solve respects real-time limits of single operations and its results are insensitive to rounding errors.",
  over=["inputs", "configurations"], quant="all problems and machines", why="Machine dependent.", files=["src/csqp.cpp"], mech=[("time", "SolverCSQP::solve")], observe=["time, results"],
  na="Running times depend on the machine and on model code outside the repository, rounding on data; the algebra used here is over the reals. Budgets that the source decides (iterations, clock checks between phases) are P08."),
dict(id="P24", title="A fresh solver is initialised, neutral, valid and as documented",
  statement="Every number and flag a solver reads was set by its constructor, or is computed first in every case in which it is read. The defaults the documentation states, for settings and for arguments, are those a new solver really has, and its own setters accept them. Its step lengths are 1, 1/2, ..., 1/512 with a threshold that notices the last one; its multipliers and steps are zero at every node, the terminal one included, and its residual is not below any tolerance.",
  over=["inputs", "configurations"], quant="all solver classes, all scalar members and all problems",
  why="Uninitialised memory is mostly zero in a short test, and tests set the settings they depend on instead of comparing defaults with the documentation.",
  files=["include/mim_solvers/ddp.hpp", "include/mim_solvers/fddp.hpp", "include/mim_solvers/sqp.hpp", "include/mim_solvers/csqp.hpp", "include/mim_solvers/csqp_proxqp.hpp", "include/mim_solvers/kkt.hpp",
         "src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp", "src/kkt.cpp", "bindings/ddp.cpp", "bindings/fddp.cpp", "bindings/sqp.cpp", "bindings/csqp.cpp", "bindings/csqp_proxqp.cpp"],
  mech=[("construction", "constructors and in-class initialisers of Solver*"), ("documented defaults", "bindings/*.cpp docstrings"), ("default arguments", "declarations of solve, computeDirection, tryStep, calc")],
  observe=["get_*", "alphas_, lag_mul_, y_, z_, dx_, du_", "Python docstrings"],
  tech="gvn", note=TRUST + "Constructors are evaluated in full; initialisation of buffers that are only workspace is covered by the properties that fix what each pass computes."),
]
PROPS.sort(key=lambda p: p["id"])
NOT_APPLICABLE = []

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IL = "altro/ilqr/ilqr.hpp"; KP = "altro/ilqr/knot_point_function_type.hpp"
AL = "altro/augmented_lagrangian/al_solver.hpp"; AC = "altro/augmented_lagrangian/al_cost.hpp"
CV = "altro/constraints/constraint_values.hpp"; CO = "altro/constraints/constraint.hpp"
PR = "altro/problem/problem.hpp"

prop("C01", "A solve that reports success returns a feasible, converged solution",
 "Whenever a solve (with or without constraints) reports that it succeeded, the returned trajectory starts at the problem's initial state, satisfies the discrete dynamics at every step, and satisfies every constraint at every knot point to within the requested constraint tolerance when all of these are recomputed from the user's own functions. The violation the solver reports for that trajectory equals the recomputed one, and the cost decrease and gradient measure recorded for the last iteration are true values within the configured tolerances.",
 ["inputs", "configurations", "histories"], "every problem (dimensions, horizons, linear/nonlinear/time-varying dynamics, costs, mixes of equality and inequality constraints at any knot points), every initial guess, every option setting, every earlier history of solves on the same solver object",
 "The tests check the success flag and a handful of numbers on two vehicle problems with one fixed guess; failed line searches, active constraints that the last rejected candidate violates differently, per-knot constraints and unusual options are never reached.",
 [AL, IL, AC, CV], [("outer-loop termination test", AL+": IsDone"), ("inner termination test", IL+": IsDone"), ("violation bookkeeping", AL+": GetMaxViolation, "+CV+": MaxViolation")],
 ["status after a solve", "trajectory after a solve", "reported violation"])

prop("C02", "Convex problems are solved to the global optimum of the underlying program",
 "For a linear-quadratic problem the unconstrained solver reaches, from any initial guess, exactly the optimum of the corresponding dense quadratic program, in a single full step. For convex problems with affine equality and inequality constraints, a solve that reports success ends at a cost and a trajectory that agree with the constrained optimum found by an independent method, with multipliers that satisfy the optimality conditions, to the accuracy the tolerances imply.",
 ["inputs", "configurations"], "every controllable or uncontrollable linear time-varying system with offsets, every strictly convex quadratic cost with cross terms, every set of affine constraints at any knot points that admits a feasible point, every initial guess",
 "Existing tests compare a few iteration counts and costs for the triple integrator and unicycle; none compares against an independently computed optimum or varies the data.",
 [IL, KP, AL, AC, CV], [("Riccati recursion", KP+": CalcActionValueExpansion, CalcGains, CalcCostToGo"), ("augmented Lagrangian outer loop", AL+": Solve")],
 ["trajectory, cost and multipliers after a solve"])

prop("C03", "Every solve ends in a true rollout that is no worse than the initial guess",
 "However a solve ends (success, any limit, any failure), the returned trajectory starts at the problem's initial state and every state is exactly what the user's dynamics produce from the previous state, the returned control, and the trajectory's own time and step at that index. For an unconstrained solve the cost never increases from one iteration to the next, the final cost equals the cost of the returned trajectory, and it is never above the cost of rolling out the initial controls; times and steps of the user's trajectory are left as they were.",
 ["inputs", "configurations", "histories"], "every problem, initial guess (including bad states, unstable and stiff dynamics), non-uniform time steps, every limit and option, every termination cause",
 "Tests only look at well-behaved solves that succeed; abnormal terminations, non-uniform steps and cost monotonicity per iteration are not checked.",
 [IL, "altro/common/trajectory.hpp"], [("initial rollout", IL+": Rollout"), ("closed-loop rollout and acceptance", IL+": RolloutClosedLoop, ForwardPass"), ("time copying", IL+": SolveSetup")],
 ["trajectory, cost history and status after a solve"])

prop("C04", "The backward pass yields the exact regularised optimal feedback policy",
 "Given the cost and dynamics expansions held at the knot points, the backward pass produces feedback gains, feedforward gains and a quadratic cost-to-go that equal an independently computed Riccati recursion with the regularisation actually used, and an expected cost change that equals the sum over knot points for that final recursion only. When a control Hessian is not positive definite the regularisation is raised as configured and the whole pass is redone; the result never mixes data from an abandoned attempt, and if the regularisation limit is exhausted the solve ends reporting exactly that.",
 ["inputs", "configurations", "histories"], "every set of expansions including indefinite and near-singular control Hessians and cross terms, every regularisation setting, any number of repeated attempts at any knot point, any state left by earlier passes",
 "Tests evaluate a few gains for convex costs without regularisation retries; the code itself notes the retry path has no test.",
 [IL, KP], [("retry loop", IL+": BackwardPass, IncreaseRegularization, DecreaseRegularization"), ("gains and cost-to-go", KP+": CalcGains, CalcCostToGo, RegularizeActionValue")],
 ["gains, cost-to-go and expected-decrease terms at each knot point", "regularisation value", "status"])

prop("C05", "The augmented-Lagrangian cost and its derivatives match their definition",
 "At every point, multiplier and penalty, the augmented cost equals the nominal cost plus, per constraint, half the inverse penalty times the squared norm of the dual-cone projection of (multiplier minus penalty times constraint value) minus the squared multiplier norm. Its gradient is the derivative of that value wherever it is differentiable, its Hessian is the Gauss-Newton Hessian of that value, and evaluation order, repetition or interleaving of value, gradient and Hessian calls never changes any of them.",
 ["inputs", "histories"], "every nominal cost, every number and mix of equality and inequality constraints of any lengths, every multiplier vector, penalty, point, and sequence of evaluation calls",
 "Tests evaluate a single goal constraint and a single bound at one point with zero multipliers or one fixed multiplier, each in isolation.",
 [AC, CV, CO], [("value", CV+": AugLag"), ("derivatives", CV+": AugLagGradient, AugLagHessian"), ("accumulation", AC+": Evaluate, Gradient, Hessian")],
 ["returned cost, gradient blocks and Hessian blocks"])

prop("C06", "Multipliers and penalties follow the method of multipliers exactly",
 "After each multiplier update every multiplier equals the dual-cone projection of (previous multiplier minus penalty times the constraint value at the current trajectory), so inequality multipliers always stay in the dual cone and equality multipliers are unrestricted. After each penalty update every penalty equals the previous one times its own scaling factor; setting, resetting and initialising penalties, scalings and multipliers affects exactly the constraints, knot points and elements addressed, and a new solve resets multipliers and penalties exactly when the options ask for it.",
 ["histories", "inputs", "configurations"], "every sequence of set-penalty, set-scaling, evaluate, multiplier-update, penalty-update, reset and solve calls over any mix of constraints at any knot points",
 "Tests apply one update to one constraint; histories, per-constraint settings, multi-element constraints and resets between solves are untested.",
 [CV, AC, AL], [("dual update", CV+": UpdateDuals"), ("penalty update", CV+": UpdatePenalties, SetPenalty, SetPenaltyScaling"), ("per-solve initialisation", AL+": Init")],
 ["multipliers, penalties and penalty scalings of every constraint"])

prop("C07", "Cone projections satisfy the laws of projections and of cone duality",
 "For each supported constraint cone, the projection is the nearest point of the cone: it lands in the cone, is idempotent and non-expansive, leaves members fixed, and together with the dual-cone projection satisfies the Moreau decomposition used by the solver. Its Jacobian is the derivative of the projection wherever that exists and maps within the cone's generalised derivative elsewhere, fully defining every entry of the output it is given; the dual of the dual is the original cone.",
 ["inputs"], "every vector of every length including zeros, signed zeros, tiny, huge and infinite entries, every prior content of the output arguments, aliasing of input and output",
 "Tests evaluate two or three fixed vectors per cone.",
 [CO], [("projection operators", CO+": ZeroCone, IdentityCone, NegativeOrthant")], ["projection, Jacobian and Hessian outputs"])

prop("C08", "Discretised dynamics and their Jacobians are the exact integrator formulas",
 "The explicit Euler and fourth-order Runge-Kutta discretisations of any continuous model return the textbook step of that model evaluated at the textbook stage states and stage times, with the expected order of accuracy. The discrete Jacobian with respect to state and control is the exact derivative of that same step, for autonomous and time-varying models alike, and evaluating a model never depends on earlier evaluations at other points.",
 ["inputs", "histories"], "every smooth autonomous or time-dependent model of any dimensions, fixed or run-time sized, every state, control, time and step, every order of evaluation calls",
 "Tests check the integrators on one or two autonomous models at one point, with zero start time.",
 ["altro/problem/integration.hpp", "altro/problem/discretized_model.hpp", "altro/problem/dynamics.hpp"], [("stage evaluations", "altro/problem/integration.hpp: RungeKutta4, ExplicitEuler"), ("adapter", "altro/problem/discretized_model.hpp")],
 ["discrete next state and Jacobian"])

prop("C09", "Multi-threaded expansion work gives the same result as serial work",
 "For any number of threads, tasks per thread or custom division of the trajectory into tasks, the divisions handed to the workers cover every knot point exactly once in strictly increasing index order, every worker finishes before results are used, and all expansions, costs, statuses, statistics and trajectories equal those of a single-threaded solve. Changing the thread or task settings between solves takes effect without changing any result.",
 ["schedules", "configurations", "inputs"], "every horizon length, thread count (including more threads than knot points and the automatic setting), tasks-per-thread setting, valid custom division, order in which the workers run, and history of re-configurations",
 "Tests run a few fixed horizon/thread combinations where the division is even and compare one final cost.",
 [IL, "altro/common/threadpool.hpp", "altro/common/threadpool.cpp"], [("work division", IL+": DefaultTaskAssignment, SetTaskAssignment, ShouldRedoTaskAssignment, LaunchThreads"), ("parallel expansion", IL+": UpdateExpansions, UpdateExpansionsBlock")],
 ["expansions, trajectories, statistics, reported task division"])

prop("C10", "The thread pool and its queue run every task exactly once and lose nothing",
 "Under any interleaving of producers, consumers and workers, each task submitted to the pool is executed exactly once, waiting returns only after all tasks submitted so far have finished and made their effects visible (unless the configured timeout is exceeded), and stopping, relaunching or moving an idle pool loses no queued task. The queue hands out elements in first-in first-out order per producer, reports its size and emptiness correctly whenever it is quiescent, and clearing or moving it behaves like the same operation on a plain sequence.",
 ["schedules", "histories"], "every sequence of push, pop, clear, size, move, add-task, launch, wait, stop and relaunch operations with any number of threads and tasks of any duration, including tasks that throw",
 "Tests run a few fixed task sets once; clearing, move-assignment, relaunching, several waits and concurrent producers are not exercised.",
 ["altro/common/threadpool.hpp", "altro/common/threadpool.cpp", "altro/common/threadsafe_queue.hpp"], [("two-lock queue", "altro/common/threadsafe_queue.hpp: Push, TryPop, Clear, operator="), ("worker loop and futures", "altro/common/threadpool.cpp: WorkerThread, Wait, StopThreads")],
 ["task side effects", "queue contents, size, emptiness"])

prop("C11", "Solving again depends only on the problem, guess and options, not on history",
 "Solving twice from the same initial guess on one solver gives the same status, iteration counts, statistics and trajectory as on a freshly built solver, whatever solves (successful or not) came before and whatever trajectories they used. Changing the problem's initial state through the problem is picked up by the next solve of every solver built from it, and when keeping multipliers is requested the next solve starts from exactly the multipliers the previous one left.",
 ["histories", "configurations", "inputs"], "every sequence of option changes, trajectory replacements, initial-state changes and solves on the same solver, compared with fresh solvers",
 "One test solves one problem twice and compares a cost; histories with failed solves, changed initial states, trajectories or multiplier retention are not covered.",
 [IL, AL, PR, "altro/common/solver_stats.cpp"], [("per-solve reset", IL+": SolveSetup, ResetInternalVariables; "+AL+": Init"), ("shared initial state", PR+": GetInitialStatePointer; "+IL+": CopyFromProblem")],
 ["status, statistics, trajectory after each solve"])

prop("C12", "Fixed-size and run-time-size solvers agree",
 "Solving the same problem with compile-time sizes, with run-time sizes, or with one of the two dimensions fixed gives the same statuses, iteration counts, expansions, gains, costs and trajectories up to floating-point rounding. Trajectories, knot points and expansions of either kind hold the same data.",
 ["inputs", "configurations"], "every problem and dimension pair in the supported range, every option setting",
 "Tests use compile-time sizes throughout the solvers, with only isolated run-time-size containers.",
 [IL, KP, AL, "altro/ilqr/cost_expansion.hpp", "altro/ilqr/dynamics_expansion.hpp", "altro/common/state_control_sized.hpp"], [("size-generic expansions", "altro/ilqr/cost_expansion.hpp, altro/ilqr/dynamics_expansion.hpp"), ("size-generic storage", "altro/common/state_control_sized.hpp")],
 ["solver outputs for each size instantiation"])

prop("C13", "A problem definition stores and reports exactly what was put into it",
 "After any sequence of assignments, a problem returns at each knot point exactly the dynamics, cost and constraints (in the order added) last assigned there, counts constraint lengths per knot point and in total correctly, and declares itself fully defined exactly when every knot point has a cost, every step has dynamics and an initial state of matching size is set. Copies and moves of a problem are equivalent to the original in every such query and afterwards independent of it except for shared function objects, and the constrained problem handed to the inner solver has the same dynamics, horizon, initial state and, per knot point, the same cost plus that knot point's constraints.",
 ["histories", "inputs"], "every sequence of set-dynamics, set-cost, add-constraint, set-initial-state, copy, move and assign operations over any horizon, in any order including incomplete definitions",
 "Tests build one complete problem; partial definitions, copies, moves, overwrites and re-assignment are not covered.",
 [PR, "altro/problem/problem.cpp", "altro/augmented_lagrangian/al_problem.hpp"], [("definition storage", PR+": SetDynamics, SetCostFunction, SetConstraint, copy/move members"), ("completeness check", "altro/problem/problem.cpp: IsFullyDefined"), ("constrained-to-unconstrained translation", "altro/augmented_lagrangian/al_problem.hpp: BuildAugLagProblem")],
 ["problem queries", "constraint counts", "completeness answer"])

prop("C14", "Solver limits are honoured and the final status names the true reason",
 "No solve performs more inner, outer or total iterations than the configured limits, accepts a step that takes a state or control past its configured limit, or continues after a terminating condition (converged, penalty limit exceeded, inner failure). The final status is success only if the convergence conditions on the recorded quantities hold, and otherwise names the limit or failure that actually ended the solve.",
 ["configurations", "inputs", "histories"], "every combination of iteration limits, tolerances, state/control limits, penalty limits, line-search and regularisation settings, on well- and ill-posed problems",
 "Tests trigger two or three limits one at a time on one problem; combinations, their precedence and counts are not explored.",
 [AL, IL, "altro/common/solver_options.hpp"], [("inner termination", IL+": Solve, IsDone"), ("outer termination", AL+": Solve, IsDone"), ("rollout limits", IL+": RolloutClosedLoop")],
 ["status", "iteration counters", "number of user-function evaluations"])

prop("C15", "Recorded statistics describe the iterations that actually happened",
 "For every iteration the recorded cost, cost change, gradient measure, regularisation, constraint violation and penalty (and, for accepted steps, step length and improvement ratio) equal the values recomputed independently for that iteration's trajectory and policy; an iteration whose line search failed is recorded as leaving the cost unchanged. The counters equal the number of iterations performed, each history has one settled entry per iteration, and resetting leaves no trace of earlier solves.",
 ["inputs", "configurations", "histories"], "every problem, option setting and solve history, and every sequence of log, advance and reset operations on the statistics store itself",
 "Tests compare a few final numbers of one solve; the per-iteration history and failed iterations are unchecked.",
 ["altro/common/solver_stats.hpp", "altro/common/solver_stats.cpp", IL, AL], [("history vectors", "altro/common/solver_stats.cpp: NewIteration, Reset; altro/common/solver_stats.hpp: SetData"), ("recording sites", IL+": ForwardPass, UpdateConvergenceStatistics, BackwardPass; "+AL+": Init, UpdateConvergenceStatistics")],
 ["statistics histories and counters"])

prop("C16", "Trajectories and knot points store, copy and time-stamp their data faithfully",
 "A trajectory returns at each index exactly the state, control, time and step last stored there, reports its true number of segments and dimensions, and building it from states, controls and times yields steps that are the time differences with a terminal last point. Copies, moves and conversions between fixed-size and run-time-size forms preserve every field and share nothing, zeroing clears all states and controls but no times, and the time-consistency check accepts a trajectory exactly when every step matches its time difference to the given tolerance.",
 ["histories", "inputs"], "every sequence of construction, element writes, time/step writes, uniform-step setting, zeroing, copying, moving, iteration and consistency checks for any sizes and horizons",
 "Tests exercise each accessor once on one trajectory.",
 ["altro/common/trajectory.hpp", "altro/common/knotpoint.hpp", "altro/common/state_control_sized.hpp"], [("storage", "altro/common/trajectory.hpp"), ("copy/move/convert", "altro/common/knotpoint.hpp")],
 ["accessors of trajectories and knot points"])

prop("C17", "Derivative checks accept right derivatives and reject wrong ones",
 "Finite-difference Jacobians, gradients and Hessians converge to the true derivatives of any smooth function with the expected error, for forward and central differences. The built-in derivative checks accept a function whose derivatives are right at the tested point and reject one with any noticeably wrong entry, and every way of calling a scalar or cost function (value, gradient, stacked or blocked Hessian, generic vector interface) returns mutually consistent results that completely define the outputs, whatever memory layout the caller passes.",
 ["inputs", "programs"], "every smooth function of any input/output sizes, every evaluation point and step size, every pattern of wrong derivative entries (one, several, cancelling, exchanged or missing columns), every way of invoking the interfaces",
 "Tests check a few fixed functions, mostly with correct derivatives, so missed errors and incomplete outputs are invisible.",
 ["altro/utils/derivative_checker.hpp", "altro/common/functionbase.cpp", "altro/common/functionbase.hpp", "altro/problem/costfunction.hpp", "altro/problem/dynamics.hpp"], [("difference quotients", "altro/utils/derivative_checker.hpp"), ("checks", "altro/common/functionbase.cpp: CheckJacobian, CheckHessian, CheckGradient"), ("interface adapters", "altro/common/functionbase.hpp, altro/problem/costfunction.hpp")],
 ["returned derivatives", "accept/reject answer of the checks"])

prop("C18", "Reported constraint violations and constraint summaries are exact",
 "For any trajectory, the maximum violation reported for a knot point or the whole trajectory equals the chosen norm of the distances of the user's constraint values from their cones, and is zero exactly when everything is satisfied. The constraint summary lists every constraint once with its own label, type, knot-point index and element-wise violation, sorted (when asked) from most to least violated, and constraint counts agree with the problem's.",
 ["inputs", "histories"], "every mix of constraints (including several per knot point and knot points without any), every trajectory, every norm, evaluated in any order relative to solves and updates",
 "Tests read the summary of one solved problem and compare the infinity norm once.",
 [AL, AC, CV, "altro/constraints/constraint.cpp"], [("norms", AC+": MaxViolation; "+AL+": GetMaxViolation, MaxViolation; "+CV+": MaxViolation, GetViolation"), ("summary", AL+": GetConstraintInfo; "+AC+": GetConstraintInfo")],
 ["reported violation", "summary entries"])

prop("C19", "The tabular logger prints exactly what was logged, where and when it should",
 "At every verbosity level the printed table contains exactly the columns active at that level in the order they were inserted, each value being the last one logged for that column while active, formatted and padded as configured and coloured by its bounds. Headers appear exactly at the configured frequency, nothing at all is printed when silent, clearing blanks all values, and logging never alters other columns.",
 ["histories", "configurations"], "every sequence of add-column (at front, middle or back), set-level, set-width, set-bound, set-frequency, log, print and clear operations",
 "Tests print a few tables without checking the output.",
 ["altro/common/solver_logger.hpp", "altro/common/solver_logger.cpp", "altro/common/log_entry.hpp", "altro/common/log_entry.cpp"], [("column order", "altro/common/solver_logger.hpp: AddEntry"), ("printing", "altro/common/solver_logger.cpp: Print, PrintHeader, PrintData; altro/common/log_entry.hpp: Print, Log")],
 ["bytes written to standard output"])

prop("C20", "The profiler accounts time to the right call stacks and reports it faithfully",
 "For any properly nested use of stopwatches, the profile contains exactly one row per distinct call stack entered while active, each with the accumulated time of all its visits, nested under its true parent, with percentages of parent and total that follow from the times. Nothing is recorded while inactive, the summary is printed once to the currently selected destination (files it opened are completed and closed, user-provided ones are left open), and parents never report less time than their recorded children spent within them.",
 ["histories", "inputs"], "every nesting of named scopes with any names, repeated and recursive visits, activation changes between top-level scopes, destinations and recorded durations of any size",
 "The timer tests are excluded as unreliable; percentages, nesting, destinations and large times are not checked by any stable test.",
 ["altro/common/timer.hpp", "altro/common/timer.cpp", "altro/common/profile_entry.hpp", "altro/common/profile_entry.cpp"], [("scope stack", "altro/common/timer.cpp: Start, ~Stopwatch"), ("summary tree", "altro/common/timer.cpp: PrintSummary; altro/common/profile_entry.cpp: CalcStats"), ("output ownership", "altro/common/timer.cpp: SetOutput, ~Timer")],
 ["profile summary text", "file descriptors"])

prop("C21", "Diagnostics never change what is computed",
 "Turning verbosity, profiling, profile files, header frequency or derivative/violation queries on or off changes no status, statistic, trajectory or multiplier of any solve. With verbosity off and profiling off a solve writes nothing to standard output, and higher verbosity levels print a superset of the columns of lower ones, with one data row for each iteration of the kind being reported.",
 ["configurations", "inputs"], "every problem and solver option combined with every verbosity level, profiler setting and interleaving of read-only queries before and after the solve",
 "Tests run at one verbosity each and compare nothing across settings.",
 [IL, AL, "altro/common/solver_stats.cpp", "altro/common/timer.cpp", "altro/common/solver_logger.cpp"], [("recording vs printing", "altro/common/solver_stats.hpp: Log"), ("profiling hooks", IL+", "+AL+": Stopwatch use")],
 ["solver outputs with diagnostics on and off", "standard output"])

prop("C22", "A moved solver, pool, problem or trajectory behaves like the original",
 "Moving a solver, at any point of its life (before the first solve, between solves, after one, with or without threads and custom task divisions), yields an object whose later solves, options, statistics, reported violations and constraint updates are the same as the original's would have been. The moved-from object can be destroyed at any time without affecting it.",
 ["histories", "configurations"], "every sequence of configure, solve, query, move and destroy-the-source operations on solvers of either kind",
 "One test moves an unused solver and reads a pointer; no test solves with a moved solver after the source is gone.",
 [IL, AL, "altro/common/solver_stats.hpp", "altro/common/threadpool.cpp"], [("move members", IL+": iLQR(iLQR&&)"), ("statistics handles", "altro/common/solver_stats.hpp: SetPtr, SetData"), ("violation callback", AL+": InitializeFromProblem")],
 ["solver outputs after a move", "memory errors"])

prop("C23", "Equivalent formulations of a problem give equivalent solutions",
 "Re-expressing a problem in an equivalent way (splitting or merging constraints at a knot point, adding constraints in another order, adding a constant to a cost, permuting state or control coordinates, shifting all times for an autonomous system, flipping the sign of an equality constraint, or sharing versus copying function objects) yields the correspondingly transformed trajectory, multipliers, cost and iteration counts up to rounding.",
 ["inputs", "configurations"], "every problem and every applicable transformation, alone or composed",
 "Tests never relate two solves of related problems.",
 [IL, KP, AL, AC, CV, PR], [("accumulation over constraints", AC+": Evaluate, Gradient, Hessian, MaxViolation"), ("recursions", KP)],
 ["solver outputs of both formulations"])

prop("C24", "Misuse is stopped by an assertion instead of corrupting memory or results",
 "Every documented precondition on indices, sizes, null pointers, bounds, ordering and lifecycle (for example out-of-range knot points, empty or unsorted task divisions, missing dynamics or cost, mismatched lengths, inverted bounds, solving without a trajectory) is enforced: violating it ends in a diagnostic assertion at the call, never in a silent wrong result, an infinite loop or a memory error. Calls that respect the preconditions never trip an assertion.",
 ["inputs", "histories"], "every argument value in and out of the valid range, at boundaries in particular, for each checked entry point, in any preceding valid state",
 "Death tests probe single bad values for some of the checks; boundary values, the remaining entry points and false rejections are not covered.",
 [IL, AL, AC, PR, "altro/common/solver_logger.hpp", "altro/common/log_entry.cpp", "altro/utils/assert.cpp", "altro/common/state_control_sized.hpp"], [("assertions", "altro/utils/assert.cpp: AssertMsg and its call sites")],
 ["process termination with the assertion message", "sanitizer reports"])

prop("C25", "The line search takes the first acceptable step and otherwise changes nothing",
 "In each iteration the step taken is the first in the configured backtracking sequence whose rollout respects the state and control limits, lowers the cost, and achieves a fraction of the predicted decrease within the configured bounds, and the new trajectory is exactly the closed-loop rollout with that step. If no step qualifies, the trajectory, its recorded cost and the constraint values and violations derived from it are those of the unchanged trajectory, and the regularisation is increased.",
 ["inputs", "configurations"], "every trajectory, policy, cost, dynamics and line-search setting, including predicted decreases that are zero or negative, non-finite rollouts and steps that only qualify after many reductions",
 "Tests reach only the full-step and early-acceptance cases of one problem.",
 [IL], [("acceptance loop", IL+": ForwardPass"), ("closed-loop rollout", IL+": RolloutClosedLoop")],
 ["trajectory, costs, statistics, regularisation and constraint values after a forward pass"])

prop("C26", "Expansions at every knot point are current and belong to that knot point",
 "After the expansion step, each knot point holds the value, gradient and Hessian of its own cost and the Jacobian of its own dynamics, evaluated at its own current state, control, time and step, with nothing left over from earlier evaluations, other knot points or entries a user function did not write. The terminal knot point contributes only its cost, and the total cost is the sum over all knot points.",
 ["inputs", "histories"], "every assignment of distinct costs and models to knot points, every trajectory with non-uniform times, every sequence of trajectory changes and repeated expansions, functions that only write their non-zero entries",
 "Tests use the same cost and model at all interior knot points and a uniform step, so index or time mix-ups are invisible.",
 [IL, KP, "altro/ilqr/cost_expansion.hpp", "altro/ilqr/dynamics_expansion.hpp"], [("expansion block", IL+": UpdateExpansionsBlock"), ("zero-then-evaluate", KP+": CalcCostExpansion, CalcDynamicsExpansion; altro/ilqr/cost_expansion.hpp; altro/ilqr/dynamics_expansion.hpp")],
 ["expansion blocks and per-knot costs"])

prop("C27", "The supplied models, costs and constraints are self-consistent",
 "Each shipped building block (quadratic and tracking costs, goal, control-bound and circular-obstacle constraints, point-mass and vehicle models) computes its documented formula, and its derivatives equal the derivatives of its own value for every parameterisation. A constraint value lies in its cone exactly when the documented condition holds, bounds given as infinite impose nothing, and the example problems assembled from these blocks are fully defined and independent of uninitialised data.",
 ["inputs", "configurations"], "every parameter setting (dimensions, bounds with any pattern of infinities, obstacle sets, coordinate indices, degrees of freedom) and every evaluation point",
 "Tests check single parameterisations, mostly the defaults.",
 ["examples/quadratic_cost.hpp", "examples/quadratic_cost.cpp", "examples/basic_constraints.hpp", "examples/obstacle_constraints.hpp", "examples/triple_integrator.cpp", "examples/unicycle.cpp", "examples/problems/triple_integrator.hpp", "examples/problems/unicycle.hpp"], [("formulas and derivatives", "examples/*.hpp, examples/*.cpp")],
 ["values and derivatives of the building blocks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

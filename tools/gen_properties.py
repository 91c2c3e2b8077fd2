#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
NL = ["include/mpc/NLMPC.hpp", "include/mpc/NLMPC/NLOptimizer.hpp"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "NLMPC result and optimal sequence describe one coherent trajectory",
  "After every optimize call whose solver run succeeded, the optimal sequence has prediction-horizon+1 rows, its first state row is the given initial state, its input rows are constant from the last control-horizon step onwards, and each output row is the user's output function of that row's state, input and step index (zero when there is no output function). "
  "The returned command is the first input row and the returned cost is the user's objective evaluated on exactly that sequence (and the optimal slack). "
  "getLastResult and getOptimalSequence keep reporting exactly the data of the latest optimize call until the next one.",
  ["inputs", "configurations", "histories"],
  "All dimensions (including control horizon 1, control horizon < prediction horizon, no outputs), both time models, all scalings, any user functions, any final point of the solver, and any sequence of optimize calls.",
  "The tests look at the command and one cost value of two systems; no test ever reads the NLMPC optimal sequence, uses an output function with a feedthrough or a step-dependent output, or lets the solver finish anywhere but at its own optimum.",
  NL + ["include/mpc/IMPC.hpp", "include/mpc/NLMPC/Mapping.hpp", "include/mpc/NLMPC/Model.hpp"],
  [("decoding of the optimum into the sequence", "NLOptimizer::run"), ("Mapping::unwrapVector", "include/mpc/NLMPC/Mapping.hpp"), ("Model::getOutput", "include/mpc/NLMPC/Model.hpp")],
  ["Result returned by optimize", "getLastResult", "getOptimalSequence", "arguments of the user callbacks"])

p("C02", "NLMPC enforces exactly the user's discrete or trapezoidal dynamics",
  "The equality constraints handed to the solver vanish on a trajectory that starts in the given initial state if and only if every step satisfies x[k+1] = f(x[k],u[k],k) in discrete time, or the trapezoidal rule x[k+1] = x[k] + Ts/2*(f(x[k],u[k],k) + f(x[k+1],u[k],k)) once a sampling time Ts was set, and otherwise measure the defect of each state at each step (in units of the state scale). "
  "On a problem with a solution, a successful optimize with a converged status returns a sequence that satisfies these dynamics within the requested tolerance.",
  ["inputs", "configurations"],
  "Every state function (nonlinear, step dependent, coupled), sampling time, initial state, scaling, horizon pair and every point of the decision space, not only the optimum.",
  "test_constraints.cpp compares the constraint values of one fixed 2-state system with zero sampling time at one point; discrete time, step-dependent models, real sampling times and control horizon < prediction horizon are never evaluated.",
  ["include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/Model.hpp", "include/mpc/NLMPC/Mapping.hpp", "include/mpc/NLMPC.hpp"],
  [("getStateEqConstraints", "include/mpc/NLMPC/Constraints.hpp"), ("setContinuous", "include/mpc/NLMPC/Model.hpp")],
  ["nlopt equality constraints (wrapped C API)", "getOptimalSequence"])

p("C03", "Gradients given to the NLMPC solver match the problem's true derivatives",
  "At every point the solver may ask about, the gradients it receives of the objective, of the dynamics constraints and of the user inequality and equality constraints are the derivatives of the corresponding values with respect to every decision variable (predicted states, free inputs, slack), up to finite-difference accuracy. "
  "This includes that an input held over several steps collects the sensitivity of all of them up to the last row of the input sequence, that scalings are accounted for, and that asking for a gradient does not change the value.",
  ["inputs", "configurations"],
  "Every smooth user function, evaluation point (also with states of very different magnitude), horizon pair, scaling, slack value and time model.",
  "Existing tests compare gradients of a constant or trivially linear user function at a single point with unit scaling; held inputs, scaling and the slack derivative are not covered, and a wrong gradient merely slows the solver on the two end-to-end cases.",
  ["include/mpc/NLMPC/Objective.hpp", "include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/NLOptimizer.hpp"],
  [("computeJacobian", "include/mpc/NLMPC/Objective.hpp"), ("computeIneqJacobian/computeEqJacobian/computeStateEqJacobian/glueJacobian", "include/mpc/NLMPC/Constraints.hpp")],
  ["values and gradients returned through the nlopt callbacks"])

p("C04", "NLMPC state and input bounds hold on exactly the horizon steps they name",
  "Setting state or input bounds on the whole horizon, on a slice {start,end} with 0 <= start < end <= horizon, or step by step through matrices constrains exactly those steps (step i bounds the predicted state i+1, respectively input i) to exactly those values, the last setting of a step wins, everything never set stays unbounded, and the call returns true. "
  "Any other slice is refused with false and leaves every bound unchanged, and output bounds are refused with an exception. "
  "Every successful optimize returns a sequence inside the bounds, also when the initial guess derived from x0 and the last input lies outside them.",
  ["inputs", "histories", "configurations"],
  "All histories of bound settings over all slices (valid, empty, reversed, negative, beyond the horizon), all dimensions and all initial states, inside or outside the bounds.",
  "The tests set one whole-horizon box and read it back; slices are never set on the non-linear controller, no invalid slice is tried, and no optimisation runs with bounds whose box excludes the initial guess.",
  NL + ["include/mpc/IMPC.hpp"],
  [("slice validation", "include/mpc/IMPC.hpp"), ("setStateBounds/setInputBounds/updateBounds", "include/mpc/NLMPC/NLOptimizer.hpp")],
  ["bounds the solver has when optimize starts", "return values", "getOptimalSequence"])

p("C05", "User constraints reach the solver intact and alone decide is_feasible",
  "Each user inequality and equality is handed to the solver with the value the user function computes for the trajectory and slack under evaluation, and with the tolerance the user gave. "
  "After a successful solver run is_feasible is true if and only if, at the returned sequence and slack, every inequality is at most its tolerance and every equality is within its tolerance in magnitude (a value that is not a number is not feasible); without user constraints it is true. "
  "After a failed run is_feasible is false.",
  ["inputs", "configurations", "fault_sequences"],
  "All constraint functions, tolerances, dimensions and all points at which the solver may stop, including infeasible ones, points exactly around the tolerance, and constraint values that are NaN or infinite.",
  "The tests evaluate constraints that are constant in the decision variables at one point and never look at is_feasible; stopping at an infeasible or boundary point cannot be provoked from the outside without controlling the solver.",
  ["include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/NLOptimizer.hpp", "include/mpc/NLMPC.hpp"],
  [("isFeasible", "include/mpc/NLMPC/Constraints.hpp"), ("evaluateIneq/evaluateEq", "include/mpc/NLMPC/Constraints.hpp"), ("bindUserIneq/bindUserEq", "include/mpc/NLMPC/NLOptimizer.hpp")],
  ["nlopt constraints and tolerances", "Result::is_feasible"])

p("C06", "A failing NLMPC solve is contained and leaves the controller usable",
  "When the solver reports failure or a user callback throws anywhere within optimize (during the solve, the feasibility check or the evaluation of the delivered outputs), optimize returns normally with status ERROR, solver_status -1, infinite cost, is_feasible false, a non-empty message, the previously returned command (zero before the first success) and an all-zero optimal sequence of full size. "
  "Later calls behave exactly as if the failed call had not happened.",
  ["fault_sequences", "histories"],
  "Every solver failure code, every kind of exception (standard or not) thrown at any callback invocation of any callback within optimize, in any order with successful solves, with and without warm start.",
  "No test makes the solver or a callback fail; the fault has to be injected at the solver boundary or at a chosen callback invocation.",
  ["include/mpc/NLMPC/NLOptimizer.hpp", "include/mpc/IMPC.hpp"],
  [("try/catch and failure branch", "NLOptimizer::run")],
  ["Result", "getLastResult", "getOptimalSequence", "the next solve"])

p("C07", "NLMPC status faithfully reports how the solver stopped",
  "solver_status is the code the solver stopped with; status is SUCCESS for every convergence or stop-value code, MAX_ITERATION for an exhausted evaluation or time budget, ERROR for every failure code and UNKNOWN for anything else. "
  "Execution statistics count exactly one solution with that status per optimize call, and resetting them does not affect the controller.",
  ["fault_sequences", "histories", "configurations"],
  "Every return code of the solver in every order, mixed with real solves.",
  "The tests only see the status the two example systems happen to produce; most codes cannot be provoked through ordinary inputs.",
  ["include/mpc/NLMPC/NLOptimizer.hpp", "include/mpc/IMPC.hpp", "include/mpc/Profiler.hpp"],
  [("convertToResultStatus", "include/mpc/NLMPC/NLOptimizer.hpp"), ("optimize", "include/mpc/IMPC.hpp")],
  ["Result::status", "Result::solver_status", "getExecutionStats"])

p("C08", "Scaling never changes the meaning of an NLMPC problem",
  "For any positive state and input scaling, set at any time and in any order with the other settings, callbacks, bounds, initial state, initial guess, results and sequences are all in physical units, so the set of admissible trajectories and the cost of each are the same as without scaling; only the solver works on the quantities divided by their scaling. "
  "The predicted trajectory always starts in the given initial state, whatever the scaling, and a converged solve of a convex problem returns the same command with and without scaling.",
  ["configurations", "inputs", "histories"],
  "All positive scaling vectors over several orders of magnitude, all setting orders, bounds and problems.",
  "No test sets a scaling at all; only the sizes of the scaling vectors are checked.",
  ["include/mpc/NLMPC/Mapping.hpp", "include/mpc/NLMPC.hpp", "include/mpc/NLMPC/Objective.hpp", "include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/NLOptimizer.hpp"],
  [("unwrapVector/computeMapping", "include/mpc/NLMPC/Mapping.hpp"), ("setInputScale/setStateScale", "include/mpc/NLMPC.hpp")],
  ["callback arguments", "solver bounds mapped back to physical units", "getOptimalSequence"])

p("C09", "NLMPC is memoryless without warm start and shifts the solution with it",
  "With warm start disabled every optimize depends only on the configuration, the initial state and the last input: the solver starts from x0 and the last input held over the horizon with zero slack, projected into the bounds, whatever was solved, failed or configured before. "
  "With warm start enabled, once an optimisation succeeded, the solver starts from the previous optimal states and inputs shifted by one step (last entries repeated) and the previous slack (zero with hard constraints), projected into the bounds; before the first success it starts as without warm start.",
  ["histories", "configurations"],
  "All sequences of optimize calls with arbitrary initial states and inputs, interleaved with failures, parameter, bound and scaling changes, for all horizon pairs.",
  "The tests never call optimize twice on the same controller with comparable data and never look at the initial guess.",
  ["include/mpc/NLMPC/NLOptimizer.hpp"],
  [("initial guess construction", "NLOptimizer::run")],
  ["initial point received by nlopt_optimize", "Result"])

p("C10", "Independent controllers never influence each other",
  "Several controllers (linear or non-linear, static or dynamic) created, configured, solved and destroyed in any interleaving, also on threads of their own, each return exactly what they return when run alone. "
  "Only the logger is shared between them.",
  ["histories", "schedules"],
  "All interleavings and thread schedules of lifecycle steps of several controllers with different dimensions, parameters, scalings and problems, including failing solves.",
  "One upstream test creates two linear controllers with equal settings (not built here); no test interleaves steps of different controllers or compares with an isolated run.",
  NL + ["include/mpc/IMPC.hpp", "include/mpc/LMPC.hpp", "include/mpc/LMPC/LOptimizer.hpp"],
  [("per-instance state only", "all classes"), ("Logger singleton", "include/mpc/Logger.hpp")],
  ["Result", "getOptimalSequence"])

p("C11", "Static and dynamic allocation give the same controller",
  "For equal dimensions and configuration, a controller with compile-time dimensions and one with run-time dimensions hand the solver the same problem (variables, bounds, values, gradients, tolerances, parameters) and return the same results, for both the non-linear and the linear controller, and every API call that makes sense for these dimensions is usable on both.",
  ["configurations", "inputs"],
  "All dimension combinations (a selection of compile-time instantiations) and all configurations and evaluation points.",
  "Tests run in both modes but each against its own expectations on a handful of calls; several setters are never called in the dynamic mode.",
  ["include/mpc/Types.hpp", "include/mpc/Dim.hpp", "include/mpc/IDimensionable.hpp", "include/mpc/NLMPC.hpp", "include/mpc/LMPC.hpp", "include/mpc/LMPC/ProblemBuilder.hpp"],
  [("COND_RESIZE_* and Size arithmetic", "include/mpc/Types.hpp, include/mpc/Dim.hpp")],
  ["nonlinear program at the nlopt boundary", "QP at the OSQP boundary", "Result"])

p("C12", "No use of the non-linear controller corrupts or leaks memory",
  "Within the documented preconditions, no sequence of construction, configuration, optimisation, failure and destruction of non-linear controllers, for any dimensions (down to horizon 1, no outputs and no constraints), reads or writes memory it does not own, depends on uninitialised values, executes undefined behaviour, trips an internal assertion, or leaks memory.",
  ["histories", "configurations", "fault_sequences"],
  "All dimension combinations and lifecycles incl. repeated set-up, throwing callbacks and solver failures; static and dynamic.",
  "The tests run without sanitizers on a few dimension tuples and do not fail on leaks or silent out-of-bounds accesses.",
  NL + ["include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/Objective.hpp", "include/mpc/NLMPC/Mapping.hpp", "include/mpc/NLMPC/Model.hpp", "include/mpc/IMPC.hpp"],
  [("resizing of all members in onInit", "all components"), ("ownership of the solver", "NLOptimizer, NLMPC")],
  ["AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck, Eigen assertions"])

p("C13", "NLMPC user callbacks always see consistent, complete trajectories",
  "Every invocation of the objective and of the constraint functions receives state, output and input matrices with prediction-horizon+1 rows in which the first state row is the current initial state, the last input row repeats the one before, and the outputs are the output function of those very states and inputs (step index = row index). "
  "State and output functions are only called with a step index inside the horizon, and the result object passed in has the right size.",
  ["inputs", "configurations", "histories"],
  "Every callback invocation made while setting up, solving, computing finite differences and checking feasibility, for all dimensions and user functions.",
  "Test callbacks ignore most of their arguments, so inconsistent outputs or rows during finite differencing would go unnoticed.",
  ["include/mpc/NLMPC/Objective.hpp", "include/mpc/NLMPC/Constraints.hpp", "include/mpc/NLMPC/Model.hpp", "include/mpc/NLMPC/Mapping.hpp"],
  [("unwrapVector", "include/mpc/NLMPC/Mapping.hpp"), ("getOutput", "include/mpc/NLMPC/Model.hpp"), ("finite differences", "Objective/Constraints")],
  ["arguments of every user callback"])

p("C14", "NLMPC configuration is last-write-wins and independent of call order",
  "The problem a non-linear controller solves depends only on the last value given to each setting (model, output function, objective, inequality and equality constraints with their tolerances, bounds per step, scalings, sampling time, parameters), not on how often or in which order settings were made, nor on solves in between. "
  "Replacing a function replaces it: the solver sees each constraint set exactly once. Setting a function or a positive sampling time reports success.",
  ["histories", "configurations"],
  "All permutations and repetitions of configuration calls and optimisations in between.",
  "Every test configures a controller exactly once in one fixed order.",
  NL + ["include/mpc/NLMPC/Constraints.hpp"],
  [("bindObjective/bindEq/bindUserIneq/bindUserEq", "include/mpc/NLMPC/NLOptimizer.hpp"), ("setters", "include/mpc/NLMPC.hpp")],
  ["nonlinear program at the nlopt boundary"])

p("C15", "NLMPC returns the true optimum on linear-quadratic problems",
  "On strictly convex problems with linear dynamics, quadratic cost, box bounds and linear user constraints, a solve that reports SUCCESS with tight tolerances returns a feasible sequence whose cost is the global minimum (over inputs held after the control horizon), within solver tolerance. "
  "In closed loop the applied commands are those of the same receding-horizon law computed independently.",
  ["inputs", "configurations", "histories"],
  "Random stable and unstable linear systems in discrete and continuous time, horizon pairs, weights, bounds, constraints, scalings and initial states.",
  "The repository compares two systems with precomputed MATLAB values.",
  NL + ["include/mpc/NLMPC/Objective.hpp", "include/mpc/NLMPC/Constraints.hpp"],
  [("whole NLMPC pipeline", "include/mpc/NLMPC")],
  ["Result", "getOptimalSequence"])

p("C16", "NLMPC solver parameters take effect exactly as given",
  "Setting parameters puts the relative and absolute function and variable tolerances, the maximum number of evaluations and the time limit (zero or negative meaning none) into force for all following solves, replacing all earlier ones, so the number of problem evaluations of a solve never exceeds the given maximum. "
  "With hard constraints the slack is fixed to zero in every evaluation and result; without, the slack is a free variable again that the user's functions see and the solver optimises, whatever was set before. "
  "What the user leaves alone has its default: 100 evaluations, no time limit, every tolerance disabled, hard constraints, no warm start.",
  ["configurations", "histories"],
  "All parameter structures and all sequences of them, interleaved with solves.",
  "Tests set one parameter set once; no test disables hard constraints with a slack-dependent problem or changes parameters afterwards.",
  ["include/mpc/NLMPC/NLOptimizer.hpp", "include/mpc/Types.hpp"],
  [("setParameters", "include/mpc/NLMPC/NLOptimizer.hpp")],
  ["solver parameters and bounds at nlopt_optimize", "slack seen by callbacks", "number of evaluations"])

LB = ["include/mpc/LMPC/ProblemBuilder.hpp"]
LO = ["include/mpc/LMPC/LOptimizer.hpp", "include/mpc/LMPC.hpp"]
p("C20", "The linear MPC problem admits exactly the model's trajectories",
  "The equality part of the quadratic program is satisfied by a candidate solution if and only if it starts in the given initial state and last input and every step obeys x[k+1] = A x[k] + B u[k] + Bd d[k] with u[k] = u[k-1] + du[k], where d[k] is the measured disturbance given for step k. "
  "Setting the model or the disturbance matrices again replaces them, in any order with other settings.",
  ["inputs", "configurations", "histories"],
  "All matrices, disturbances per step, initial states and inputs, dimensions (including no disturbance, one step) and every candidate trajectory.",
  "The linear part is not even compiled by the available test build; upstream tests check a few constant blocks and one quadrotor command without disturbances.",
  LB, [("setStateModel/setExogenousInput/buildTimeInvariantTems/get", LB[0])],
  ["P,q,A,l,u of the built problem", "problem data passed to osqp_setup"])

p("C21", "The linear MPC cost is the documented tracking cost",
  "Over the model's trajectories the quadratic program's objective equals, up to a constant, half the sum over the horizon of weighted squared deviations of the outputs y[k+1] = C x[k+1] + Dd d[k], of the inputs u[k] and of the input increments du[k] from the references of step k, with exactly the weights set for step k. "
  "Weights and references set per step, per slice, for the whole horizon or as matrices give the same cost when they agree, later settings replacing earlier ones for the steps they name.",
  ["inputs", "configurations", "histories"],
  "All weights (including zero), references, disturbances, models, dimensions and all trajectories.",
  "Upstream checks one optimal command with constant weights; step-dependent weights or references, increments and feedthrough disturbances are never evaluated.",
  LB + LO, [("setObjective/get", LB[0]), ("setReferences", LO[0])],
  ["P,q of the built problem"])

p("C22", "Linear MPC bounds and scalar constraints restrict exactly the named steps",
  "A trajectory from an initial state and last input that satisfy the first step's limits satisfies the inequality part of the quadratic program if and only if, for every step k, x[k+1], y[k+1] = C x[k+1] + Dd d[k] and u[k] lie within the state, output and input bounds of step k (the last control-horizon input bound continuing to the end of the horizon) and the scalar form xs'x + us'u lies within its limits, paired as documented: x[k] with u[k]. "
  "Whatever was never set is unbounded.",
  ["inputs", "configurations"],
  "All bound values (finite, infinite, equal), all steps, disturbances, models, dimensions and trajectories on either side of each single limit.",
  "Upstream tests use constant bounds over the whole horizon, where any shift between steps is invisible, and are not built here.",
  LB, [("setStateBounds/setInputBounds/setOutputBounds/setScalarConstraint/buildTimeInvariantTems", LB[0])],
  ["A,l,u of the built problem", "return values"])

p("C23", "Linear MPC inputs are free up to the control horizon and held after it",
  "With control horizon ch the quadratic program leaves exactly the first ch inputs free and forces every later input of the horizon to equal input ch-1, for all 1 <= ch <= prediction horizon; with ch equal to the prediction horizon no input is held. "
  "The optimal sequence shows the same held inputs.",
  ["configurations", "inputs"],
  "All horizon pairs and dimensions and all candidate trajectories.",
  "Every upstream linear test uses equal horizons.",
  LB, [("delta-u constraint rows", LB[0])],
  ["l,u of the built problem", "getOptimalSequence"])

p("C24", "Linear MPC setters honour slices identically and refuse invalid ones",
  "Setting weights, state, input and output bounds, scalar constraints, references or measured disturbances for a slice {start,end} with 0 <= start < end <= horizon, for the whole horizon, step by step or as matrices is equivalent whenever the values agree, changes exactly the named steps and returns true. "
  "Every other slice or an index beyond the horizon is refused with false and changes nothing; scaling and sampling time are refused with an exception.",
  ["histories", "inputs", "configurations"],
  "All histories of setter calls over all slices, valid or not, of all setters and dimensions.",
  "The linear controller is not compiled by the available tests, and upstream tests only use the whole horizon or the first step.",
  LO + ["include/mpc/IMPC.hpp"] + LB, [("slice setters", "include/mpc/LMPC.hpp"), ("slice validation", "include/mpc/IMPC.hpp")],
  ["problem data passed to osqp_setup", "return values"])

p("C25", "Linear MPC results decode the solver's answer and contain its failures",
  "When the solver delivers a solution, the optimal sequence holds its states, its inputs (row k the input applied at step k, last one repeated) and the outputs of those states and disturbances, the command is the first input, cost and solver_status are the solver's, is_feasible is true only for solved or iteration-limited answers, and status is SUCCESS when solved, MAX_ITERATION when the iteration or time budget ran out, INFEASIBLE when primal or dual infeasible (also when only inaccurately so), ERROR for solver errors and UNKNOWN otherwise. "
  "When set-up fails or no finite solution exists, optimize returns normally with a non-success status, is_feasible false, the previously returned command and an all-zero sequence, and later solves and warm starts are unaffected.",
  ["fault_sequences", "histories", "inputs"],
  "Every solver return status, set-up and solve error code, infeasible problem and solution vector, in every order.",
  "Upstream tests only see solvable problems; the failure paths need fault injection at the solver boundary.",
  LO, [("run/convertToResultStatus/clearData", LO[0])],
  ["Result", "getLastResult", "getOptimalSequence"])

p("C26", "No use of the linear controller corrupts or leaks memory",
  "Within the documented preconditions no sequence of construction, configuration, optimisation (successful or not) and destruction of linear controllers, for any dimensions, reads or writes memory it does not own, uses a solver object after it was released or releases it twice, depends on uninitialised values, trips an assertion, or leaks memory or solver workspaces.",
  ["histories", "configurations", "fault_sequences"],
  "All dimension combinations and lifecycles, controllers destroyed before any solve, solver set-up failures, static and dynamic.",
  "The linear controller is not compiled by the available tests and upstream runs no sanitizer.",
  LO + LB, [("initData/clearData, destructors", LO[0])],
  ["AddressSanitizer, UBSan, LeakSanitizer, valgrind", "allocation ledger of the OSQP stand-in"])

p("C27", "Linear MPC warm start passes exactly the last solution, only when enabled",
  "With warm start enabled the solver is warm started with exactly the primal and dual solution of the last solve that produced a finite solution, or with the vectors set explicitly since, and never before one exists; with warm start disabled it never is. "
  "Reading the warm-start vectors returns what the next solve would use, and results without warm start depend only on configuration and arguments, not on earlier solves.",
  ["histories", "configurations"],
  "All sequences of solves, failures, warm-start settings, explicit warm starts and parameter changes.",
  "No test enables warm start.",
  LO, [("optimal_prev_x/optimal_prev_y", LO[0])],
  ["calls recorded by the OSQP stand-in", "getSolverWarmStartPrimal/Dual"])

p("C28", "The quadratic program and parameters reach the linear solver unaltered",
  "At every solve the solver receives well-formed column-compressed matrices (sorted row indices, matching counts, upper-triangular cost) and vectors equal to the problem defined by the current configuration and arguments, together with exactly the parameters set by the user for accuracy, iteration and time limits, step sizes, polishing, verbosity and warm start, or their defaults (alpha 1.6, rho 1e-6, relative and absolute accuracy 1e-4, infeasibility accuracies 1e-3, 100 iterations, no time limit, adaptive step size and polishing on, verbosity and warm start off). "
  "Any later parameter or data change is visible in the next solve and only there.",
  ["configurations", "histories", "inputs"],
  "All problems (including empty columns, zero weights, zero matrices), all parameter structures and sequences of changes.",
  "No available test compiles this code; upstream only sees the final command.",
  LO + LB, [("createOsqpSparseMatrix/run", LO[0]), ("getSparse", LB[0])],
  ["data and settings at osqp_setup"])

p("C29", "The linear controller solves the documented control problem optimally",
  "With an exact quadratic-programming solver, every feasible strictly convex problem yields the command and sequence that minimise the documented cost over all trajectories satisfying model, bounds, scalar constraint and control horizon, as computed by an independent condensed formulation, within solver accuracy. "
  "In closed loop with changing references, disturbances and bounds the commands remain those of the independently computed receding-horizon law.",
  ["inputs", "configurations", "histories"],
  "Random systems, horizons, weights, references, disturbances, bounds and closed-loop histories.",
  "One upstream quadrotor command is the only end-to-end value, and it is not built here.",
  LO + LB, [("whole LMPC pipeline", "include/mpc/LMPC")],
  ["Result", "getOptimalSequence"])

p("C30", "LTI discretization is the exact zero-order hold",
  "For any continuous-time matrices and sampling time, the discretized state, input and disturbance matrices equal the exact zero-order-hold discretization, so simulating one step with constant input reproduces the continuous solution; the output and feedthrough matrices are unchanged. "
  "All variants agree on the parts they share, two steps of Ts equal one step of 2 Ts, and the inputs are not modified.",
  ["inputs"],
  "All stable, unstable, singular, stiff and non-normal matrices, dimensions, and sampling times from 0 to several time constants.",
  "One nilpotent 12-state example with the two-output variant is tested.",
  ["include/mpc/Utils.hpp"], [("discretization overloads", "include/mpc/Utils.hpp")],
  ["returned matrices"])

p("C31", "The Runge-Kutta integrator is fourth order, also for time-varying systems",
  "Integrating n steps of size h from time t evaluates the dynamics at the classical Runge-Kutta stages of each consecutive step (times t+i*h, +h/2, +h), so n steps in one call equal n successive single-step calls, and the error of a smooth, possibly time-varying system shrinks with the fourth power of h. "
  "Polynomial-in-time dynamics up to third degree are integrated exactly and the initial state argument is not changed.",
  ["inputs"],
  "All smooth autonomous and time-varying systems, step sizes, start times and step counts.",
  "The integrator is used once in a closed-loop test with single autonomous steps.",
  ["include/mpc/Integrator.hpp"], [("RK4::run", "include/mpc/Integrator.hpp")],
  ["stage times and returned state"])

p("C32", "Execution statistics are exact for every sequence of solves",
  "After any number of recorded solutions the statistics report their number, total, minimum, maximum, mean and (population) standard deviation of the recorded durations, and the number of solutions per status; after a reset they are those of the solutions recorded since. "
  "Printed percentages and values are the ones of the statistics and add up.",
  ["histories"],
  "All sequences of durations (including one, equal, very different), statuses and resets.",
  "One sequence of three sleeps is tested to 10 ms, for which wrong recurrences still agree.",
  ["include/mpc/Profiler.hpp", "include/mpc/IMPC.hpp"], [("addSolutionTime", "include/mpc/Profiler.hpp")],
  ["SolutionStats", "durations returned by solutionEnd"])

p("C33", "The logger emits exactly the messages at or above the level, prefixed",
  "A message of a given type is written to the current stream, unchanged and preceded by exactly one tag with the current prefix, if and only if its type is at or above the current level; nothing is written at level NONE, nor to a stream that was replaced. "
  "Resetting restores the default level and prefix, and logging, at any level, never changes the results of a controller.",
  ["histories", "configurations"],
  "All sequences of level, prefix and stream changes, resets and messages of all types and value kinds, and complete controller runs at each level.",
  "A few level and prefix combinations are tested with single messages; controller runs at DEEP level are never compared.",
  ["include/mpc/Logger.hpp", "include/mpc/IMPC.hpp"], [("log/operator<<", "include/mpc/Logger.hpp")],
  ["characters written to the stream", "Result at different levels"])

p("C34", "Horizon and dimension arithmetic never mixes static and dynamic sizes",
  "Sums, differences and products of dimensions equal the integer result when both operands are known and are dynamic whenever one of them is dynamic, in every operand order, at compile time and at run time. "
  "Consequently every matrix of a controller has exactly the documented size in both modes.",
  ["inputs"],
  "All pairs of static and dynamic operands.",
  "Never tested directly.",
  ["include/mpc/Dim.hpp", "include/mpc/Types.hpp"], [("Size operators, make_dimension", "include/mpc/Dim.hpp")],
  ["compile-time and run-time values"])

p("C40", "The Python binding exposes the same controllers with the same semantics",
  "A controller driven through the Python module behaves as its C++ counterpart: every exported call (all overloads), given the same configuration and arguments, returns the same value or is refused alike, hands the solver the same problem, invokes the user's Python functions with the arguments the C++ functions would get, and results, sequences, statistics, warm-start vectors, parameter structures and enumerators carry the same values under the same names. "
  "Arrays are taken by value in whatever memory layout they come; results stay valid and unchanged after later calls and after the controller is gone; exceptions of Python functions are contained like C++ ones; Python functions are released with their controller.",
  ["inputs", "configurations", "histories"], "All calls exposed by the module, any array layout or numeric type, any kind of callable, exceptions of any Python type at any callback invocation, calls from any thread.",
  "The module is not built by the tests; wrong bindings show only for the overload, argument or lifetime concerned.",
  ["python/pybind_export.cpp"], [("pybind11 bindings", "python/pybind_export.cpp")],
  ["return values", "solver boundary", "callback arguments", "Result", "OptSequence", "SolutionStats"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

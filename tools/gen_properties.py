#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
SA="dess/dess-proc-macros/src/solver_attr.rs"; SO="dess/src/solver.rs"; TM="dess/src/traits_and_macros.rs"
HV="dess/dess-proc-macros/src/history_vec.rs"; HM="dess/dess-proc-macros/src/history_methods.rs"
BC="dess/dess-proc-macros/src/bare_clone.rs"; PY="dess/dess-proc-macros/src/pyo3_api.rs"; UT="dess/dess-proc-macros/src/utilities.rs"
CO="dess-examples/src/components.rs"; S3="dess-examples/src/three_thermal_mass_sys.rs"; SB="dess-examples/src/three_thrml_mass_w_bc_sys.rs"
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Walking records every requested report time exactly once, in order",
 "For every solver and every strictly increasing report schedule whose last time lies after the current time, walking a system appends exactly one record per requested report time to the system's history and to the history of every marked component, in schedule order. Each record carries the requested time (or the current time, for report times that had already passed when it was reached) to within rounding, never an earlier one, and a report counter that goes up by one per record; the last record equals the system's state when walking returns. Walking a system that has already reached its last report time changes nothing.",
 ["inputs","configurations","histories"],"all 7 solvers x step sizes x report schedules x start times x record histories before the walk",
 "The benchmark tests run one uniform schedule per solver from t=0, and compare with one recorded run; irregular, offset, already-passed and resumed schedules are never exercised.",
 [SA,HM],[("walk/solve_step loop",SA+" fn walk, fn solve_step"),("save_state propagation",HM)],
 [("state.i","index of the next report time","SystemState in dess/src/lib.rs"),("state.time","current time","SystemState in dess/src/lib.rs")],
 ["walk()","history.time / history.i and component histories"])
p("C02","Steps never exceed the step limit or run past the next report time",
 "Whatever the schedule, no integration step is longer than the configured step size (fixed-step solvers) or the configured maximum step (adaptive solvers), and no step ends beyond the next report time: the model is never evaluated at a time outside the interval between the current time and the next report time. Fixed-step solvers take full steps of the configured size and shorten only the last one before a report time.",
 ["inputs","configurations","histories"],"all 7 solvers x step limits x report schedules x start times; every evaluation of the user's model during the walk",
 "Tests compare end results for step sizes dividing or exceeding one uniform report interval; they never look at where the model is evaluated and no test uses a step limit that binds an adaptive solver.",
 [SA,SO],[("dt.min(dt_fixed) / remaining time",SA+" fn solve_step"),("state.dt.min(dt_max)",SO+" fn rk23_bogacki_shampine, fn rk45_cash_karp")],None,
 ["times at which the user's update_derivs is called","history.time"])
p("C03","Each fixed-step solver computes its named Runge-Kutta method",
 "For every smooth system, linear or not, autonomous or explicitly time dependent, one step of the Euler, Heun, midpoint, Ralston and classic RK4 solvers produces the result of the Runge-Kutta method of that name (orders 1, 2, 2, 2 and 4), up to floating-point rounding, in every state variable. After the step the system's time has advanced by exactly the step.",
 ["inputs","programs"],"all systems: it suffices to check every rooted tree (elementary differential) up to the stage count, every placement of explicit time in it, every order of the state variables, plus multi-step runs on a family of nonlinear systems",
 "Tests compare with recorded output for one linear, autonomous 3-state system; a linear system cannot distinguish methods with the same stability polynomial, and the accuracy tests only print their result.",
 [SO,SA,TM],[("stage evaluations of euler/heun/midpoint/ralston/rk4fixed",SO),("step_states_by_dt / step_states / set_derivs",SA+", "+TM)],None,
 ["states() and state.time after a walk of one or more steps"])
p("C04","Adaptive solvers advance with their named embedded pair",
 "For every smooth system, autonomous or explicitly time dependent, an accepted Bogacki-Shampine step advances the state by that method's 3rd-order formula and an accepted Cash-Karp step by its 5th-order formula, in every state variable. The absolute error the solver reports for the step is the Euclidean norm of the difference between the two embedded solutions, and the relative error is that norm divided by the norm of the state increment, absent when the increment is zero.",
 ["inputs","programs"],"as C03, over all rooted trees up to six nodes with every placement of explicit time, for both embedded pairs",
 "The only benchmark is one linear autonomous run for Cash-Karp (the Bogacki-Shampine benchmark test is not among the reliable ones); error estimates are compared nowhere except through that run.",
 [SO],[("rk23_bogacki_shampine_step, rk45_cash_karp_step",SO),("norm_err / norm_err_rel",SO)],
 [("solver state","dt, n_iter, norm_err, norm_err_rel of the last step","SolverState in "+SO)],["states() and the solver state after a step"])
p("C05","Adaptive step control accepts, retries and resizes steps as specified",
 "An adaptive step is accepted as soon as its relative error is within the relative tolerance, or its absolute error is within the absolute tolerance, or the permitted number of iterations is used up; otherwise it is retried at a quarter of the step size (when there is no relative error: scaled by the fourth root of absolute tolerance over absolute error, or a quarter if that tolerance is zero), except that a step too small to be told from the current time is accepted as it is. Each step starts from the step size left by the previous one, cut to the maximum step and the remaining time; after a step within a tolerance the next step size is the used one scaled by the fifth root of tolerance over error (the relative tolerance having priority) and after one accepted because iterations ran out it is scaled as for a retry, in both cases never above the maximum. The reported iteration count is the number of attempts, between 1 and the limit.",
 ["inputs","configurations","histories"],"all sequences of step outcomes a system can provoke (error zero, below, above tolerance; zero increment) x tolerances x iteration limits 0..255 x initial and maximum step sizes x both adaptive solvers",
 "Tests run both controllers with default settings on one smooth system where almost every attempt is accepted at once; rejections, exhausted iterations, zero errors and the absolute-tolerance branch are not reached.",
 [SO],[("accept/retry loop and dt_coeff",SO+" fn rk23_bogacki_shampine, fn rk45_cash_karp")],
 [("sc.state","controller state carried between steps",SO)],["solver history (save=true) and solver state"])
p("C06","The adaptive step log is a complete, faithful account of the run",
 "With step saving on, an adaptive run logs exactly one entry per accepted step, in order: each entry's start time is the previous entry's start time plus its step size, the step sizes add up to the time covered, and with state saving on the entry holds the state reached by integrating that step. With saving off nothing is logged, with state saving off the entries hold no states, and neither flag ever changes the trajectory. The mean step size is the arithmetic mean of the logged steps and is absent when nothing was logged.",
 ["configurations","inputs","histories"],"all combinations of the two flags x both adaptive solvers x tolerances x schedules x systems",
 "No test turns saving on; the log is used only by plotting scripts.",
 [SO],[("history.push / states / save flags",SO),("dt_mean",SO+" fn dt_mean")],[("sc.history","logged solver states",SO)],
 ["sc().history, dt_mean()"])
p("C07","Fixed-step results do not depend on which aligned report times are asked for",
 "With a fixed-step solver, adding or removing report times that fall on the solver's own step boundaries does not change the computed solution: at every time reported by two such schedules the states agree up to rounding.",
 ["histories","inputs","configurations"],"all pairs of schedules drawn from the subsets of the solver's step grid x the 5 fixed-step solvers x step sizes x systems",
 "Each test uses one schedule per solver; only one pair of large-step runs is ever compared.",
 [SA],[("solve_step restarts at each report time",SA)],None,["component histories at common times"])
p("C08","A run can be stopped, checkpointed and resumed anywhere without a trace",
 "Stopping a run at any report time, copying the system or saving and reloading it through YAML or binary form, and then continuing (with the remaining report times, or with the schedule extended) gives exactly the histories and final state of the uninterrupted run, for every solver including the adaptive controllers' memory. Going through JSON gives the same up to the rounding of JSON numbers. Driving a run report by report gives the same result as walking it in one go.",
 ["histories","crash_points","configurations"],"every sequence of checkpoint actions at every report boundary x 7 solvers x systems x schedules",
 "No test stops or resumes a run; serialization is only used to load benchmark files for comparison.",
 [SA,TM,SO],[("walk resumes from state.i and state.time",SA),("SerdeAPI",TM)],None,["systems after resumed and uninterrupted walks"])
p("C09","Serialization round-trips every value in every format",
 "Every serializable library or example value (states, histories, components, solver settings, whole systems, including any system reached by walking) with finite numbers comes back equal, bit for bit, after being written and read as YAML, JSON or binary. Nothing is lost, defaulted or reordered, and solver descriptions use the documented external form (variant name with its parameters).",
 ["inputs","histories"],"all public serializable types x every field x a number alphabet (zeros, subnormals, extremes, long mantissas) x option/vector shapes x 3 formats x systems reached by all solvers",
 "Benchmarks read 8 YAML files; JSON and binary forms are never read back and no unusual numbers or optional fields occur.",
 [TM,SO,CO,"dess/dess-proc-macros/src/lib.rs"],[("SerdeAPI to_/from_ methods",TM),("common_derives",'dess/dess-proc-macros/src/lib.rs')],None,
 ["to_json/from_json, to_yaml/from_yaml, to_bincode/from_bincode"])
p("C10","Saving to a file is complete or reported, and torn files are refused",
 "Saving to a .json or .yaml file reports success only if the whole value is in the file, replacing any previous content, so that loading it gives the saved value; a write that fails at any point is reported as an error. Other extensions and unusable paths are refused with an error on saving and loading, without touching an existing file of that name. A JSON file or binary image cut off at any point is refused with an error rather than loaded as something else.",
 ["fault_sequences","inputs","crash_points"],"write failure injected at every byte offset; every truncation point; extensions, path shapes and previous file contents",
 "Tests only load existing well-formed fixtures; nothing saves a file, and no fault is injected.",
 [TM],[("to_file/from_file",TM+" trait SerdeAPI"),("from_bincode",TM)],None,["return values of to_file/from_file and file contents"])
p("C11","History containers behave as a sequence of records",
 "For every history container, any sequence of push, pop, clear and length queries behaves as on a plain list of records: pop returns the last pushed record that is still there with all its fields (or nothing when empty), clear empties it, length and emptiness agree, and the per-field columns always have that length and hold the fields in push order.",
 ["histories","programs"],"all operation sequences up to the stated depth and all container states up to the stated length, for containers of one to six fields of scalar, optional, vector and nested types",
 "No test pops or clears a history; pushes are seen only through whole-run benchmarks.",
 [HV],[("generated push/pop/clear/len/is_empty",HV)],None,["container methods and public columns"])
p("C12","A bare copy has the same dynamics, no histories, and shares nothing",
 "A bare copy of a system or component has the same states, derivatives, parameters, solver settings, schedule, report position and time as the original, and no history in itself or in any marked component. It continues exactly as the original would, and changing either one never affects the other.",
 ["programs","histories","configurations"],"all placements of component markers (see C13) x systems at every stage of a run x 7 solvers x operation sequences on either copy",
 "One test checks that three histories are empty after one save; equality of the rest and independence are unchecked.",
 [BC],[("generated bare_clone",BC)],None,["bare_clone() of systems and components"])
p("C13","Saving state records the system and every marked component, and nothing else",
 "For every system definition, saving the state appends exactly the current state to the system's own history and to that of every component marked as contributing or saved, wherever it is declared, and touches no unmarked component and no state. A definition with markers but no state of its own records just its marked components, at any depth of nesting.",
 ["programs","histories"],"all definitions with up to three components with every combination of markers (use / save / none) and field orders, and selected larger and nested ones x sequences of state changes and saves",
 "Two fixed example systems are compiled; no other placement of markers is.",
 [HM],[("generated save_state",HM)],None,["save_state() and the histories"])
p("C14","System-level state access addresses the contributing components in order",
 "For every system definition, reading or setting states and derivatives, stepping them by given amounts or by derivative times step, resetting derivatives and reading storages act on exactly the components marked as contributing, in declaration order, each through that component's own behaviour, and leave everything else unchanged. Stepping time advances only the time, stepping states by a step size advances both, and the adaptive configuration is visible exactly when the solver is adaptive.",
 ["programs","histories","inputs"],"all definitions with up to three components with every combination of markers and field orders, and selected larger ones x all operation sequences to the stated depth",
 "Tests use these operations only indirectly through solver runs on two fixed systems.",
 [SA,TM],[("generated HasStates/SolverBase impls",SA),("HasState default methods",TM)],None,["HasStates and SolverBase methods"])
p("C15","Connections give every component the net flow of its neighbours",
 "For any list of connections between components, parallel or in any order and orientation, evaluating the network sets each connection's flow from the potentials of its two ends (positive from first to second) and gives each component a derivative equal to its net inflow divided by its storage, so that storage-weighted derivatives sum to zero. A reservoir has infinite storage and gets none.",
 ["programs","inputs"],"all connection lists of up to three connections over four components (masses and a reservoir), with repetition and orientation x potentials, conductances and storages",
 "Two chain-shaped example networks are compiled; their derivatives are observed only through recorded runs.",
 [TM,CO],[("connect_states!, update_derivs!",TM),("Conductance::set_flow, ThermalMass, ThermalReservoir",CO)],None,["flow(), deriv() after update"])
p("C16","A closed thermal system conserves energy and relaxes towards equilibrium",
 "For the three-mass example system with any capacitances, conductances, starting temperatures, solver, step size and schedule, total energy (capacitance times temperature) is the same at every record, up to rounding. A system that starts at equal temperatures stays there exactly as it is, and with steps small against the time constants temperatures never leave their initial range.",
 ["inputs","configurations","histories"],"7 solvers x parameter and temperature alphabets x step sizes x schedules",
 "Benchmarks fix one parameter set; conservation is never asserted.",
 [S3,CO,SO],[("update_derivs of the example system",S3),("all solver stage combinations are linear-invariant preserving",SO)],None,["component histories"])
p("C17","Reservoirs and prescribed boundaries are never disturbed by the system",
 "A thermal reservoir's temperature is unaffected by any heat flow to or from it under every solver, and where a system prescribes a boundary temperature as a function of time every record shows the prescribed value at the record's time. Components connected to it are driven as if by that exact boundary: their temperatures are those of the chosen method applied to the time-dependent problem.",
 ["inputs","configurations","histories"],"7 solvers x parameter alphabets x step sizes x schedules, with constant and prescribed boundaries",
 "The boundary-condition example is run by the accuracy tests, which print their result and assert nothing.",
 [SB,CO,SO],[("ThermalReservoir HasState impl",CO),("update_derivs of the boundary example",SB),("stage times",SO)],None,["component histories"])
p("C18","Recorded rates and flows match the temperatures recorded with them",
 "In every record made after at least one step, for every solver, each component's recorded derivative and each connection's recorded flow are those that the model assigns to the states and time of that same record.",
 ["inputs","configurations","histories"],"7 solvers x systems (example, boundary-driven, and nonlinear ones) x step sizes x schedules; every record",
 "Benchmarks pin one run per solver of a single system; the relation itself is not checked, and not for the other systems.",
 [SO,SA],[("closing update_derivs of each step",SO)],None,["rows of the histories"])
p("C19","Independent systems never influence each other, under any interleaving",
 "Walking a system gives the same result, bit for bit, every time and no matter what other systems are doing: interleaved step by step on one thread, running inside another system's model evaluation, or walking concurrently on other threads under any interleaving.",
 ["schedules","histories"],"all interleavings at model-evaluation granularity of two concurrent walks with up to the stated number of preemptions, all operation-level interleavings of two systems on one thread, nesting at every evaluation x 7 solvers",
 "Tests run systems one at a time; a shared buffer or cached value would not show.",
 [SO,SA,TM],[("all solver scratch data is local",SO)],None,["final systems and histories"])
p("C20","Numeric helpers meet their definitions",
 "For arguments and differences within the number format, an evenly spaced vector of n points starts exactly at the start, ends exactly at the stop, has n elements evenly spaced in between up to rounding (a single point being the start), in either direction. Differences of a vector of n elements are its n-1 successive differences, and none for empty or single-element vectors. Approximate equality of finite numbers holds exactly when their difference is below epsilon, absolutely or relative to their sum, is symmetric, and holds between a number and itself.",
 ["inputs"],"start/stop/count alphabets including all counts up to the bound; all short vectors over a value alphabet; all pairs from a number alphabet x epsilons",
 "Linspace is used by the tests with four argument triples; the other helpers are not called at all.",
 [TM,"dess/src/utilities.rs"],[("Linspace::linspace, Diff::diff",TM),("almost_eq","dess/src/utilities.rs")],None,["return values"])
p("C21","The Python module mirrors the Rust library",
 "Building, walking, inspecting, copying, saving and loading any exposed class from Python gives the same values as the Rust library does for the same arguments, with every constructor argument and attribute meaning what its name says. Copies (including through the copy module) are independent of their original, and bad input (unparsable text, unknown solver, unsupported file) raises an ordinary Python exception.",
 ["inputs","histories","configurations"],"all exposed classes, constructors, attributes and methods x argument alphabets x 7 solvers x operation sequences",
 "The Python module is built but no test imports it.",
 [PY,S3,SB,CO,SO,"dess-examples-pyo3/src/lib.rs"],[("generated pymethods",PY),("#[new] functions and class registration","dess-examples, dess-examples-pyo3")],None,["the dess_pyo3 module"])
p("C22","Ill-formed macro arguments fail to compile, well-formed ones are accepted",
 "A solver definition compiles only if its arguments define the derivative-update function, exactly that one, and nothing but functions; a Python interface definition may add functions of its own but not ones under the reserved names for the default constructor. History recording is refused for a structure with neither state nor marked components. Well-formed definitions compile.",
 ["programs"],"all macro-argument lists up to the stated length over an alphabet of item kinds and names, and structure shapes",
 "Tests compile two well-formed systems; no ill-formed program is tried.",
 [UT,SA,HM,PY],[("parse_ts_as_fn_defs",UT),("HistoryMethods abort",HM)],None,["compiler verdict"])
p("C23","Every walk makes progress and terminates",
 "For every positive step size (and maximum step) that the clock resolves, and every finite report schedule, walking terminates: every step advances time, fixed-step solvers take no more steps than the intervals divided by the step size require (plus one per report for rounding), and adaptive solvers never get stuck retrying, whatever values the model's derivatives take, including discontinuous ones, short of overflow of the number format.",
 ["inputs","configurations","histories"],"7 solvers x step sizes x schedules x tolerances and iteration limits x models with jumps, spikes, zero and huge derivatives",
 "A hang shows only for inputs that defeat the step control; tests use one smooth system.",
 [SA,SO],[("while time < t_report loop",SA),("iteration limit, dt adaptation",SO)],None,["number of model evaluations and steps until walk() returns"])
p("C24","Nothing left over from earlier work influences a walk",
 "The outcome of a walk depends only on the states, the time and report position, the parameters and settings, and the adaptive step size: derivatives, flows, records, error values and log entries left over from earlier work change nothing in the trajectory, the appended records (those made before any step apart) or the appended log entries. Walking leaves parameters, settings and schedule as they were, and evaluating the derivatives repeatedly without moving changes nothing.",
 ["histories","configurations","inputs"],"all combinations of kinds of leftovers x 7 solvers x settings x log flags x systems (closed, reservoir-driven, prescribed, nonlinear) x schedules",
 "Every test starts from a freshly built system, so accumulated or reused values never matter in them.",
 [SO,SA,TM],[("reset_derivs before every evaluation","the examples' update_derivs; "+SA+" fn reset_derivs"),("controller state overwritten in every attempt",SO)],
 [("sc.state","solver state carried over; only its dt is meant to matter",SO)],["systems after walks from clean and used starting points"])
p("C25","Results converge to the true solution at the rate of the method",
 "On problems with a smooth solution, halving the step of a fixed-step solver divides the error at every report time by two to the power of the method's order (up to the rounding floor), whatever the report schedule. With an adaptive solver that may iterate as often as needed and accepts on relative error alone, the error is bounded by the relative tolerance times the distance the states have travelled, times the problem's own error amplification.",
 ["inputs","configurations"],"7 solvers x problems with known solutions x rates x report schedules (also ones that cut steps) x a chain of step sizes or tolerances x initial and maximum steps",
 "The accuracy tests compare with a stored fine run for a single step size, print the outcome and assert nothing.",
 [SO,SA],[("all seven step functions",SO),("cut steps before a report time",SA+" fn solve_step")],None,["recorded states against the exact solution"])
p("C26","Results do not depend on units, time origin or component layout",
 "Expressing the same problem in other units of state and time (with step sizes, tolerances and report times converted), or starting the clock elsewhere, gives the same solution in those units, up to rounding, for every solver. Declaring the components in another order, or adding components that are connected to nothing and stay at rest, changes nothing in the solution of the others.",
 ["inputs","configurations","programs"],"7 solvers x settings x models x schedules x state units 2^-200..2^200 x time units 2^-300..2^40 x time origins; all orders of three components and idle components at every position",
 "All tests use one set of units, times starting at zero and one layout, so absolute thresholds and order dependence do not show.",
 [SO,SA],[("step control uses only relative error and the configured tolerance",SO),("component lists of the generated impls",SA)],None,["recorded states and times"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=True)+"\n")
print(len(P),"properties")
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))

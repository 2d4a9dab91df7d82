#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_props.py > properties.jsonl)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
T = "trunk/SUAVE/"
# ---------------------------------------------------------------- claimed
prop("C01", "Design evaluations never depend on earlier or failed evaluations",
 "Asking an optimization problem for its objective, its constraint values or its finite-difference gradients at a design vector returns what a fresh copy of the problem returns for that design vector, fidelity level and problem set-up, whatever was asked of it before. This holds after evaluations that raised, were interrupted part way or returned NaN, after changes of fidelity level and after repeated points. An evaluation that cannot be completed raises instead of returning numbers left over from another design.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of objective / constraint / gradient requests at arbitrary designs and fidelity levels with failures or interrupts injected at any step of any evaluation",
 "The regression scripts run one optimizer over one problem with no failing evaluation; the evaluation cache is only wrong after particular request/failure orders.",
 [T+"Optimization/Nexus.py", T+"Optimization/helper_functions.py"],
 [("result cache keyed on the last inputs and fidelity level", T+"Optimization/Nexus.py evaluate/_really_evaluate"),
  ("scaling, alias and wildcard resolution of design variables", T+"Optimization/helper_functions.py")],
 ["objective()", "inequality_constraint()", "equality_constraint()", "all_constraints()", "finite_difference()"],
 [("last_inputs/last_fidelity", "key of the cached results", T+"Optimization/Nexus.py")])
prop("C02", "Particle swarm search returns the best feasible design it evaluated",
 "For every random stream and every pattern of failed (NaN) evaluations, the particle swarm search evaluates only designs inside the given bounds and stops within its iteration limit. If any design it evaluated had a valid objective and satisfied the constraints, the returned design is one it evaluated that satisfies the constraints, the returned value is the objective computed at exactly that design, and no better feasible design was evaluated; otherwise no value is reported as an optimum. An evaluation that raises ends the search with that error, and the same random seed gives the same answer.",
 ["schedules", "inputs", "fault_sequences"],
 "all random streams (including extreme draws), swarm sizes, bounds, constraint forms and evaluation failures",
 "Tests run one seed on one smooth problem whose whole swarm starts feasible.",
 [T+"Optimization/Package_Setups/particle_swarm_optimization.py", T+"Optimization/Package_Setups/scipy_setup.py"],
 [("bound clamping and feasible-only best update", T+"Optimization/Package_Setups/particle_swarm_optimization.py")],
 ["returned (design, value)", "sequence of evaluated designs"])
prop("C03", "Latin hypercube samples stratify every dimension for every random stream",
 "For any number of samples and dimensions, any bounds and any random stream, a Latin hypercube design has exactly one sample in each of the equal-width strata of every dimension and all samples lie inside the bounds; the centred variant puts every sample at the centre of its stratum. Dimensions are shuffled independently.",
 ["inputs", "schedules"],
 "all sample counts, dimensions, bounds, criteria and random streams, including extreme draws",
 "No test checks stratification; regressions only consume one seeded design.",
 [T+"Methods/Utilities/latin_hypercube_sampling.py"],
 [("stratified offsets followed by per-column shuffles", T+"Methods/Utilities/latin_hypercube_sampling.py")],
 ["returned sample table"])
prop("C04", "SciPy-based optimization honours every bound and every constraint",
 "Optimizing through the SciPy driver presents to the solver exactly the declared region: a design is acceptable to the solver exactly when every declared constraint (for the particle swarm: every inequality) holds with its own value, sense, bound, units and scale, and the solver's box is each variable's own scaled bounds. The returned design lies inside the bounds, and gradient-based and particle-swarm solvers evaluate no design outside them beyond the finite-difference step. A design reported as a success satisfies all declared constraints, and an evaluation that raises stops the run with that error, whatever was solved before.",
 ["inputs", "configurations", "fault_sequences", "schedules"],
 "all constraint sets (senses, units, scales), variable scales, random seeds and evaluation failures",
 "Each regression uses a single fixed problem; constraint mix-ups show only with several active constraints.",
 [T+"Optimization/Package_Setups/scipy_setup.py", T+"Optimization/Nexus.py", T+"Optimization/helper_functions.py"],
 [("translation of the problem tables into solver bounds and constraints", T+"Optimization/Package_Setups/scipy_setup.py")],
 ["evaluated designs", "returned design", "raised error"])
prop("C05", "Multi-fidelity optimizers stay in bounds, stop, and give the console back",
 "The trust-region and additive-correction optimizers evaluate only designs inside the design bounds (up to the finite-difference step) and finish within their iteration limits for every random stream and every accuracy of the low-fidelity model. However they end - convergence, iteration limit, infeasibility, a model evaluation that raises, or an interrupt - the process's standard output stream is the one that was installed before the call, and their history files are closed.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "all two-fidelity problems, random streams, and failures or interrupts at any model evaluation",
 "The regressions run a handful of smooth problems to completion; no test makes an evaluation fail part way.",
 [T+"Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py", T+"Optimization/Package_Setups/TRMM/Trust_Region.py", T+"Optimization/Package_Setups/TRMM/TRMM_setup.py", T+"Optimization/Package_Setups/additive_setup.py"],
 [("trust-region bounds intersection and size update", T+"Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py"),
  ("console redirection while optimizing", T+"Optimization/Package_Setups/additive_setup.py")],
 ["sys.stdout", "evaluated designs", "open files"])
prop("C06", "A mission segment's convergence report is truthful",
 "After a mission is evaluated, a segment is reported as converged exactly when the nonlinear solver reported success for it in this evaluation, whatever happened in earlier evaluations or other segments; when the solver stalls, gives up or hits its iteration limit the segment is reported as not converged and the solver's message is passed on. A segment reported as converged has results whose residuals meet the solver tolerance.",
 ["histories", "fault_sequences", "configurations"],
 "all missions (segment kinds, orders), solver outcomes per segment, and repeated evaluations of the same mission",
 "Regression missions all converge on the first attempt; non-convergence and re-evaluation are never exercised.",
 [T+"Methods/Missions/Segments/converge_root.py", T+"Analyses/Mission/Segments/Segment.py", T+"Analyses/Mission/Segments/Simple.py", T+"Analyses/Mission/Segments/Aerodynamic.py"],
 [("solver status copied to the segment", T+"Methods/Missions/Segments/converge_root.py")],
 ["segment results", "solver calls", "console output"])
prop("C07", "A mission gives the same answer every time it is evaluated",
 "Evaluating a mission again - after a successful evaluation, after one that raised or was interrupted at any point, or after evaluating other missions that share the same vehicle and analyses - gives the results of a freshly built mission. Each segment starts where the previous one ended in time, position, altitude and mass, and a failed evaluation raises rather than returning results mixed from two evaluations.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of mission evaluations with failures or interrupts injected at any point of any of them",
 "Regression scripts evaluate each mission exactly once.",
 [T+"Analyses/Mission/Sequential_Segments.py", T+"Analyses/Mission/Mission.py", T+"Methods/Missions/Segments/Common/Sub_Segments.py", T+"Methods/Missions/Segments/converge_root.py", T+"Methods/Missions/Segments/expand_state.py", T+"Analyses/Mission/Segments/Conditions/State.py", T+"Analyses/Mission/Segments/Conditions/Basic.py", T+"Analyses/Process.py"],
 [("segment state expansion and reuse", T+"Methods/Missions/Segments/expand_state.py"),
  ("linking of consecutive segments", T+"Methods/Missions/Segments/Common/Sub_Segments.py")],
 ["mission results"])
prop("C08", "Saving an archive never destroys the last one; loading never invents data",
 "Saving results to an archive file either replaces the file completely with the new data or leaves the previous archive readable and unchanged, wherever the save is stopped: serialization error, disk full, I/O error, interrupt or process crash. Loading an archive that was saved completely returns the same structure, key order, numbers, strings, booleans, nulls and arrays; loading a truncated file raises and never returns partial data. A save that reports success is complete.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "all data structures and all sequences of saves and loads with a crash or disk fault at any file operation",
 "One regression saves and loads one structure on a healthy disk.",
 [T+"Input_Output/SUAVE/archive.py", T+"Input_Output/SUAVE/load.py"],
 [("serialize first, then write", T+"Input_Output/SUAVE/archive.py archive"), ("whole-document parse", T+"Input_Output/SUAVE/load.py load")],
 ["archive file contents", "loaded structure"])
prop("C09", "Saving an XML document never destroys the previous one and loads back intact",
 "Saving a document to an XML file either replaces the file completely or leaves the previous document readable and unchanged, wherever the save is stopped by a serialization error, disk fault, interrupt or crash. Loading a completely saved document returns the same tags, attributes, text and element order; loading a truncated document raises. No file stays open after a load or save, successful or not.",
 ["crash_points", "fault_sequences", "inputs"],
 "all documents and all sequences of saves and loads with a crash or disk fault at any file operation",
 "No stable test exercises XML persistence at all.",
 [T+"Input_Output/XML/save.py", T+"Input_Output/XML/load.py", T+"Input_Output/XML/Data.py"],
 [("element tree serialization", T+"Input_Output/XML/save.py"), ("SAX tree builder", T+"Input_Output/XML/load.py")],
 ["document file", "loaded document"])
prop("C10", "The optimization history log survives crashes and reads back exactly",
 "Every record appended to an optimization history whose append returned is returned by later reads, in order, with the same iteration, scaled objective, scaled design variables and scaled constraints. A record cut short by a crash or a full disk never makes complete records unreadable, is never returned with altered or missing values, and does not corrupt records appended after a restart.",
 ["crash_points", "fault_sequences", "histories"],
 "all append / read / restart histories with a crash or disk fault at any byte of any append",
 "No test appends or reads a history; crashes are never simulated.",
 [T+"Optimization/write_optimization_outputs.py", T+"Optimization/read_optimization_outputs.py"],
 [("append-only one-line records", T+"Optimization/write_optimization_outputs.py"), ("record parser", T+"Optimization/read_optimization_outputs.py")],
 ["history file", "read-back arrays"])
prop("C11", "Redirected console output is always handed back and never lost",
 "After a block that redirects standard output or standard error ends - normally, with an exception, with an interrupt, or with the disk failing while output is written or flushed - the process's two streams are exactly the ones installed before it, every log file the redirection opened is closed, and what the block printed (and nothing else) was appended to the log, in order, unless an error was raised. Redirections nest, and an exception of the block is never swallowed.",
 ["fault_sequences", "crash_points", "histories"],
 "all nestings of redirections, write sequences, block exceptions and disk faults at any file operation",
 "Tests only run the redirection on a healthy disk inside AVL regressions that skip the solver.",
 [T+"Core/redirect.py"], [("context manager saving and restoring the streams", T+"Core/redirect.py output")],
 ["sys.stdout", "sys.stderr", "log files"])
prop("C12", "Working-folder redirection always returns to the start and loses no file",
 "After a block that redirects the working folder ends - normally, with an exception or interrupt, or with a file operation failing - the process is back in the folder it started from. Files listed to be pulled are copied in before the block runs, files listed to be pushed are moved back after it, existing files are replaced only in overwrite mode, and no fault or crash makes a file that existed before disappear from both places.",
 ["fault_sequences", "crash_points", "histories"],
 "all pull/link/push lists, existing-file patterns, nestings, and faults or crashes at any file operation",
 "Tests only enter an existing folder with nothing to pull or push.",
 [T+"Core/redirect.py"], [("context manager with pull, link and push lists", T+"Core/redirect.py folder")],
 ["os.getcwd()", "folder contents"])
prop("C13", "SU2 coefficients always belong to the requested flow condition",
 "Every lift and drag coefficient that enters an SU2 aerodynamics table or is returned from an SU2 call was computed by a solver run for exactly that vehicle's angle of attack, Mach number and reference area; when the solver cannot be started, dies, or leaves a missing, empty or unreadable history, the call raises and no earlier run's values are used. A training table saved by one session and reloaded by another gives the same coefficients at the same grid points to the precision of the file.",
 ["fault_sequences", "crash_points", "histories", "configurations"],
 "all training grids and call sequences with a solver failure, partial output, stale files or a crash at any point",
 "The regressions replay stored training data; SU2 itself is never run, so its failure modes are never reached.",
 [T+"Input_Output/SU2/call_SU2_CFD.py", T+"Input_Output/SU2/write_SU2_cfg.py", T+"Analyses/Aerodynamics/SU2_inviscid.py"],
 [("configuration file and history file naming", T+"Input_Output/SU2/write_SU2_cfg.py"), ("history parsing", T+"Input_Output/SU2/call_SU2_CFD.py"), ("training table", T+"Analyses/Aerodynamics/SU2_inviscid.py sample_training")],
 ["returned CL/CD", "training table", "raised error"])
prop("C14", "AVL results always belong to the requested conditions and vehicle",
 "Every coefficient returned from an AVL evaluation, and every entry of the aerodynamic and stability training tables built from AVL, was computed by AVL for exactly that angle of attack, Mach number, sideslip and vehicle, and is stored at that grid point; results left by an earlier run are never returned. When AVL cannot be started, dies part way, or leaves missing or truncated result files, the evaluation raises.",
 ["fault_sequences", "crash_points", "histories", "configurations"],
 "all training grids, batches and call sequences with an AVL failure, partial output, stale files or interrupt at any point",
 "AVL is not installed where the tests run; they reuse one frozen set of result files.",
 [T+"Analyses/Aerodynamics/AVL_Inviscid.py", T+"Analyses/Stability/AVL.py", T+"Methods/Aerodynamics/AVL/run_analysis.py", T+"Methods/Aerodynamics/AVL/read_results.py", T+"Methods/Aerodynamics/AVL/write_run_cases.py", T+"Methods/Aerodynamics/AVL/write_input_deck.py", T+"Methods/Aerodynamics/AVL/translate_data.py", T+"Methods/Aerodynamics/AVL/purge_files.py"],
 [("case tags naming result files", T+"Analyses/Aerodynamics/AVL_Inviscid.py evaluate_conditions"), ("purge of stale results", T+"Methods/Aerodynamics/AVL/write_input_deck.py"), ("fixed-column result parser", T+"Methods/Aerodynamics/AVL/read_results.py")],
 ["returned results", "training coefficients", "raised error"])
prop("C15", "An AVL evaluation leaves the process as it found it",
 "Whether it succeeds, AVL fails, a disk fault occurs or it is interrupted, an AVL evaluation leaves the process in the same working folder with the same standard output and error streams, and leaves no child process waiting.",
 ["fault_sequences", "crash_points", "histories"],
 "all AVL evaluations with a solver failure, disk fault or interrupt at any point, with console output on or off",
 "Tests never run AVL and never make it fail.",
 [T+"Methods/Aerodynamics/AVL/run_analysis.py", T+"Analyses/Aerodynamics/AVL_Inviscid.py", T+"Analyses/Stability/AVL.py", T+"Core/redirect.py"],
 [("working-folder redirection around the solver", T+"Analyses/Stability/AVL.py evaluate_conditions"), ("console silencing", T+"Methods/Aerodynamics/AVL/run_analysis.py call_avl")],
 ["os.getcwd()", "sys.stdout", "sys.stderr", "child processes"])
prop("C16", "Saved AVL training data reproduces the model that was trained",
 "An aerodynamic or stability model built from a training file saved by an earlier session has, for every coefficient, the same training values at the same grid points (to the precision of the file) and so the same predictions as the model that saved it. A training file cut short by a crash or disk fault makes the later session raise instead of building a model from partial data, and a fault never leaves a wrong model behind silently.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "all training grids and save / restart / reload histories with a crash or disk fault at any file operation",
 "The regressions reload one stored file but never compare it with the model that wrote it.",
 [T+"Analyses/Aerodynamics/AVL_Inviscid.py", T+"Analyses/Stability/AVL.py"],
 [("training data saved as a text table", T+"Analyses/Stability/AVL.py sample_training"), ("training table", T+"Analyses/Aerodynamics/AVL_Inviscid.py sample_training")],
 ["training file", "training tables", "surrogate predictions"])
prop("C17", "Cached wave-drag data is never stale, mixed up or read half-written",
 "The volume wave drag used at a Mach number is the value computed by the external geometry tool for this vehicle at that Mach number in this analysis session, whichever Mach numbers were asked for earlier and wherever a previous session crashed or a cache write failed. When the tool fails, the analysis raises rather than using another condition's value, and flight conditions passed in are unchanged afterwards.",
 ["crash_points", "fault_sequences", "histories"],
 "all request sequences, vehicle changes and restarts with a tool failure, disk fault or crash at any point",
 "The geometry tool is not installed where tests run, so the cache code is never executed.",
 [T+"Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py", T+"Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py", T+"Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py"],
 [("on-disk cache keyed by Mach number", T+"Methods/Aerodynamics/OpenVSP_Wave_Drag"), ("cache removal at session start", T+"Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py initialize")],
 ["returned drag", "cache file"])
prop("C18", "A leftover mesh is never mistaken for a new one",
 "After a request to mesh a geometry, a mesh file exists under the vehicle's name only if this request produced it: when the mesher cannot be started or fails, no mesh from an earlier run remains under that name. If the leftover mesh cannot be removed the request raises before the mesher runs. The script handed to the mesher describes exactly the surfaces in the vehicle's current surface list; when it cannot be read or written completely the request raises.",
 ["fault_sequences", "histories"],
 "all sequences of script and meshing requests with mesher failures, stale files, disk faults, interrupts and crashes",
 "The mesher is not installed where tests run.",
 [T+"Input_Output/GMSH/mesh_geo_file.py", T+"Input_Output/GMSH/write_geo_file.py"], [("removal of the leftover mesh first", T+"Input_Output/GMSH/mesh_geo_file.py"), ("script written from the surface list", T+"Input_Output/GMSH/write_geo_file.py")],
 ["mesh file", "script file", "raised error"])
prop("C19", "Independent analyses do not influence each other, in any order or interleaving",
 "An analysis of one vehicle - atmosphere, aerodynamics, propulsion, weights, energy network or mission - gives exactly the same numbers whether it runs alone, after any sequence of other analyses (including ones that raised or were interrupted), or interleaved with analyses of other vehicles on other caller threads. Building or modifying one component, vehicle or set of conditions never changes another that was built independently or deep-copied.",
 ["schedules", "histories", "fault_sequences"],
 "all orders, thread interleavings and failure points of analyses on independent objects",
 "Each regression runs one scenario in a fresh process on one thread, so shared mutable state cannot show.",
 [T+"Core/Data.py", T+"Core/DataOrdered.py", T+"Analyses/Atmospheric/US_Standard_1976.py", T+"Analyses/Aerodynamics/Vortex_Lattice.py", T+"Methods/Aerodynamics/Common/Fidelity_Zero/Lift/VLM.py", T+"Components/Energy/Networks/Turbofan.py", T+"Analyses/Mission/Segments/Conditions/Aerodynamics.py"],
 [("per-instance defaults for every data structure", T+"Core/Data.py __new__")],
 ["analysis results"])
prop("C20", "Results do not depend on the clock, hash seed, random state or folder",
 "The numeric results of analyses and missions, and the differences reported between a configuration and its base, are identical in every process for the same inputs: they do not change with the hash seed, the system clock or its jumps, the state of the random generators, the working folder or the environment.",
 ["configurations", "schedules", "inputs"],
 "all hash seeds, clock values and jumps, random-generator states and working folders",
 "Tests run with one hash seed and compare with loose tolerances.",
 [T+"Core/Data.py", T+"Core/Diffed_Data.py", T+"Core/Container.py", T+"Components/Configs/Config.py", T+"Analyses/Process.py", T+"Methods/Aerodynamics/Common/Fidelity_Zero/Lift/VLM.py"],
 [("insertion-ordered data structures", T+"Core/Data.py")],
 ["analysis results", "configuration differences"])
prop("C21", "Containers keep every component they are given, under a unique name",
 "Appending components to a container - whatever their names, however many share one, and whatever random suffixes are drawn - either stores the component under a name no other component has or raises without changing the container; no stored component is ever replaced, dropped or reordered. Removing or interrupting an append never leaves a component half stored.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all append/extend/remove sequences, name collisions and random draws",
 "Tests append a few distinctly named components; the random rename path is never reached.",
 [T+"Core/Container.py", T+"Core/ContainerOrdered.py", T+"Core/Data.py"],
 [("renaming on duplicate tags", T+"Core/Container.py append")],
 ["container keys and values"])
prop("C22", "Unit conversions always return to the normal rules after a context ends",
 "After a block that enables one or more unit-conversion contexts ends - normally, with an exception, or with an interrupt, and in any nesting - conversions behave exactly as before the block: conversions allowed only inside the context are refused again, enclosing contexts still apply with their own parameters, and ordinary conversions give the same numbers. Enabling an unknown context changes nothing.",
 ["histories", "fault_sequences", "schedules"],
 "all nestings of contexts with parameters and block exceptions or interrupts at any point",
 "Unit tests check single enable/disable pairs with no failure inside the block.",
 [T+"Plugins/pint/unit.py", T+"Plugins/pint/context.py"],
 [("context manager over a chain of contexts", T+"Plugins/pint/unit.py context"), ("context chain", T+"Plugins/pint/context.py ContextChain")],
 ["conversion results"])
prop("C23", "Configurations follow their base and keep their own differences",
 "A configuration that has stored its differences and then pulls its base has every current value of the base, except those it had itself set to something else when it last stored; a configuration that never stored keeps its own values. Editing, storing, pulling, copying or pickling one configuration never changes the base, another configuration or a copy; pulling again changes nothing; chains of configurations follow the same rule; copies and pickles behave like the original. A pull that is interrupted or runs out of memory leaves each entry as it was, as it is in the base or as pulled, and a later pull completes it; an interrupted store leaves the old or the new differences.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of edits of vehicles and configurations (values, arrays in place, added and replaced components), stores, pulls, copies and pickles, with interrupts and memory errors at any point",
 "Scripts store and pull each configuration once, with no failure; wrong values show only after particular orders of edits and pulls, and are taken for a changed design.",
 [T+"Core/Diffed_Data.py", T+"Components/Configs/Config.py", T+"Core/Data.py", T+"Core/DataOrdered.py"],
 [("differences stored and merged over the base", T+"Core/Diffed_Data.py store_diff/pull_base"), ("configuration of a vehicle", T+"Components/Configs/Config.py"), ("recursive update", T+"Core/Data.py update"), ("copy and pickle", T+"Core/Data.py __reduce_ex__")],
 ["entries of configurations, bases and copies"],
 [("_diff/_base", "stored differences and the base of a configuration", T+"Core/Diffed_Data.py")])
# ---------------------------------------------------------------- not applicable (pure functions of their input)
NA = []
def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
    NA.append({"property": id, "reason": reason})
PURE = "A pure function of its inputs: no schedule, clock, fault, I/O or history takes part, so there is nothing for a simulator to decide; input generation alone would not be this technique."
na("N01", "Flattening a data structure to a vector and back loses nothing",
   "Packing the numeric contents of a nested structure into a vector or array and unpacking it again restores every value, shape and the order of fields.",
   "all nested structures", "Tests pack a few fixed structures.", [T+"Core/Data.py"], [("pack_array/unpack_array", T+"Core/Data.py")], PURE)
na("N02", "Standard atmosphere properties are continuous and physically consistent",
   "Pressure, density and temperature are continuous across layer boundaries, pressure and density decrease with altitude, and the ideal gas law and speed of sound relations hold at every altitude.",
   "all altitudes and temperature offsets", "Tests sample fixed altitudes.", [T+"Analyses/Atmospheric/US_Standard_1976.py"], [("layer breakpoints", T+"Analyses/Atmospheric/US_Standard_1976.py")], PURE)
na("N03", "Vortex-lattice lift is symmetric, linear and mesh consistent",
   "A symmetric vehicle at zero sideslip has no side force or rolling moment, mirrored sideslip mirrors the loads, and lift of a planar wing is odd in angle of attack.",
   "all wings and conditions", "Tests compare a few stored values.", [T+"Methods/Aerodynamics/Common/Fidelity_Zero/Lift/VLM.py"], [("vortex-lattice solve", T+"Methods/Aerodynamics/Common/Fidelity_Zero/Lift/VLM.py")], PURE)
na("N04", "Weight breakdowns add up and are positive",
   "The reported component weights are non-negative and sum to the reported empty and takeoff weights for every vehicle.",
   "all vehicles", "Tests compare a few stored vehicles.", [T+"Methods/Weights"], [("weight summation", T+"Methods/Weights/Correlations")], PURE)
na("N05", "Propulsion networks conserve mass and energy",
   "Fuel flow, thrust and power balances of turbine and electric networks are consistent, and throttle zero never yields negative fuel flow.",
   "all operating points", "Tests compare stored operating points.", [T+"Components/Energy/Networks"], [("network evaluation", T+"Components/Energy/Networks")], PURE)
na("N06", "Unit conversions are mutually inverse and consistent",
   "Converting a quantity to another unit and back returns it, and conversion through any intermediate unit gives the same factor.",
   "all units", "Unit tests sample conversions.", [T+"Plugins/pint/unit.py", T+"Core/Units.py"], [("unit registry", T+"Plugins/pint/unit.py")], PURE)
na("N07", "Differentiation and integration operators are exact for polynomials",
   "The pseudospectral differentiation and integration operators are exact for polynomials up to their order on any interval and number of points.",
   "all orders and intervals", "Tests use one grid.", [T+"Methods/Utilities/Chebyshev"], [("chebyshev_data", T+"Methods/Utilities/Chebyshev/chebyshev_data.py")], PURE)
na("N08", "Payload-range and V-n results respect the vehicle's limits",
   "Range decreases with payload along each edge of the payload-range diagram and load factors stay inside the certification envelope.",
   "all vehicles", "Tests compare one vehicle.", [T+"Methods/Performance"], [("payload_range", T+"Methods/Performance/payload_range.py")], PURE)
if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "na":
        print(json.dumps(NA, indent=1))
    else:
        for p in P: print(json.dumps(p))

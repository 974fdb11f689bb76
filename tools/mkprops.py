#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/trusspy/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

NOASSERT = "The tests run eight fixed models and assert no value at all; "

p("C01", "Element force law: axial, deformed axis, strain l/L-1, self-equilibrated",
  "For every truss element and every displacement state, the element's internal force is -N*n on its first node and +N*n on its second, n being the unit vector from the deformed first to the deformed second node. N is stress times section area, and the stress is the element's own material law, with its own parameters, at the strain l/L-1 (l deformed length, L undeformed length). The stretch, stress and force reported for that element after a residual evaluation are exactly l/L, that stress and that N.",
  ["inputs"], "every geometry, displacement state, area, material parameter set and node numbering",
  NOASSERT + "the law must hold for every geometry and state, including large rotations and compression.",
  ["elements/element_definition.py", "model.py"],
  [("truss", "elements/element_definition.py"), ("Model.equilibrium", "model.py")],
  ["Model.Results.R[i].r/stretch/element_stress/element_force", "Model.equilibrium"],
  [("Analysis.r", "internal force per node", "core/analysis.py")])
p("C02", "Residual = constant load + LPF x load - sum of all element forces, free DOF",
  "For every model and state, a residual evaluation returns, for the free degrees of freedom in ascending order, constant load + LPF x reference load - internal force, where the internal force starts from zero in each evaluation and sums every element exactly once. It is evaluated at the passed free-DOF displacements, placed on the free DOF only; the LPF is the last entry of the passed vector when that vector carries one, otherwise the analysis' current LPF.",
  ["inputs", "histories"], "every model, state and sequence of evaluations",
  NOASSERT + "a residual that forgets an element, carries over a previous evaluation or misplaces a DOF still runs.",
  ["model.py", "elements/element_definition.py"],
  [("Model.equilibrium", "model.py")], ["Model.equilibrium", "Results.R[i].g, .r, .U"],
  [("Analysis.r/g/U", "force, residual, displacement arrays", "core/analysis.py")])
p("C03", "Stiffness matrix is the exact derivative of the internal force",
  "For every state, each element contributes dsigma/dstrain*A/L n(x)n + N/l (1 - n(x)n), positively to the diagonal blocks of its two nodes and negatively to its two off-diagonal blocks, to a stiffness that starts from zero in each evaluation. The full matrix holds the block of node pair (a,b) in the rows of a and the columns of b, and the returned matrix keeps exactly the rows and columns of the free degrees of freedom, in the order used by the residual.",
  ["inputs", "histories"], "every model, displacement state and sequence of evaluations",
  NOASSERT + "a wrong tangent usually only slows convergence, so even value tests would not show it.",
  ["model.py", "elements/element_definition.py"],
  [("Model.stiffness", "model.py"), ("truss", "elements/element_definition.py")],
  ["Model.stiffness", "Results.R[i].Kred"],
  [("Analysis.K", "4d nodal stiffness blocks", "core/analysis.py")])
p("C04", "Linear-elastic law: stress = E*strain, tangent = E, no history change",
  "For every strain, Young's modulus and history, the linear-elastic material (type 1) returns stress equal to E times the total strain and the tangent E, and leaves the state variables it is given untouched.",
  ["inputs"], "every strain (tension and compression), modulus and state",
  NOASSERT + "no test compares a stress with E times strain.",
  ["materials/material_definition.py"], [("umat_el", "materials/material_definition.py")],
  ["Results.R[i].element_stress"])
p("C05", "Elastic-plastic law: exact isotropic-hardening return mapping",
  "For every strain, committed history and parameters (E, K, Sy): the trial stress is E*(strain - plastic strain) and the current yield stress is the stored one, or Sy while none is stored. If |trial| does not exceed it, the stress is the trial stress, the tangent is E and the plastic strain is unchanged; otherwise with dg = (|trial| - yield)/(E+K) the stress is (|trial| - E*dg) in the trial direction, the plastic strain moves by dg in the trial direction and the tangent is E*K/(E+K). The stored yield stress becomes yield + K*dg (dg = 0 when elastic), so the stress never lies outside the updated yield surface.",
  ["inputs", "histories"], "every strain history including load reversal, every E, K, Sy",
  NOASSERT + "two tests use plasticity and neither checks a stress, a state variable or a reversal.",
  ["materials/material_definition.py"], [("umat_elplast_iso", "materials/material_definition.py")],
  ["Results.R[i].element_stress", "Results.R[i].state_v"],
  [("state_v", "per element: yield stress, plastic strain", "core/analysis.py")])
p("C06", "Material history changes only by the commit of an accepted increment",
  "Residual and stiffness evaluations at trial states never change the stored state variables of any element. They change only through the committing evaluation, which path following performs exactly once per accepted increment, at the accepted solution, and which updates every element from the values stored at the end of the previous accepted increment. Failed or recycled attempts leave them as they were.",
  ["histories"], "every sequence of trial evaluations, recycles, failures and accepted increments",
  "The damage is history dependent (a recycle between two plastic increments); tests assert no state variable.",
  ["model.py", "elements/element_definition.py", "materials/material_definition.py", "solvers/tpsolver.py"],
  [("Model.equilibrium(statev_write)", "model.py"), ("pathfollow commit", "solvers/tpsolver.py")],
  ["Results.R[i].state_v"],
  [("Analysis.state_v", "committed state variables (element, variable)", "core/analysis.py")])
p("C07", "Newton reports success only for a returned vector that met both tolerances",
  "The Newton solver reports success if and only if, at the vector it returns, the residual norm is below ftol and the norm of the last update is below xtol; NaN never counts as success. Every iteration updates the vector by the solution of Jacobian*dx = -residual, both taken at the current vector with the caller's extra arguments, it stops at the first success and never performs more than nfev iterations. The returned norms and iteration count are those of the returned vector.",
  ["inputs", "programs"], "every function, Jacobian, start vector, tolerance and iteration limit",
  "Only a converging docstring example exists (not run by the suite); non-converging, NaN and limit cases are never exercised.",
  ["solvers/zerosearch.py"], [("newton", "solvers/zerosearch.py")], ["trusspy.solvers.newton return values"])
p("C08", "Each increment solves equilibrium plus a unit control equation, consistently",
  "Each increment solves, over free displacements and LPF together, internal minus external force on the free DOF extended by the control equation V_|j| - target = 0. The matrix used is the derivative of exactly that system at the same vector: [[stiffness, -reference load], [unit row with 1 at |j|]]. The target is the start-of-increment value of component |j| plus that component's incremental limit times the sign of j.",
  ["inputs", "histories"], "every model, control component (either sign, displacement or LPF) and increment",
  NOASSERT + "an inconsistent extended system still converges on the sample models, or follows another path.",
  ["solvers/tpsolver.py"], [("f, dfdx", "solvers/tpsolver.py"), ("pathfollow", "solvers/tpsolver.py")],
  ["trusspy.solvers.pathfollow", "Results.R[i].Kmod"])
p("C09", "Only converged increments within the incremental limits are recorded",
  "Path following records an increment only if the Newton solution of its last attempt converged and its change from the previous recorded solution stays within dxtol times the incremental limit in force for that attempt: for every component, or only for the control component when the user locked it. The recorded displacements, LPF and combined vector are exactly that solution. If no such solution is found within the allowed attempts, the step stops and nothing is recorded for that increment.",
  ["inputs", "histories"], "every model, settings and pattern of failed or recycled attempts",
  "Failures to converge are not provoked by any test and no recorded value is checked.",
  ["solvers/tpsolver.py", "model.py"], [("pathfollow", "solvers/tpsolver.py")],
  ["trusspy.solvers.pathfollow return values", "Model.Results.R"],
  [("res_x/res_a", "recorded solutions", "solvers/tpsolver.py")])
p("C10", "Every attempt restarts from the last accepted solution, right control component",
  "Every attempt of an increment starts Newton from the previous accepted solution, advanced only (in the first attempt) by the linear predictor scaled so that its largest relative component equals its limit. After a converged but inadmissible attempt the control component becomes the signed index of the largest change relative to its limit; after a failed attempt it stays; a component locked by the user never changes. Path following starts with the component the user gave, or with the LPF when none is given.",
  ["histories", "configurations"], "every pattern of recycles, failures, predictor and locked-component settings",
  "Depends on recycle patterns that the eight models reach only by chance and never verify.",
  ["solvers/tpsolver.py"], [("pathfollow recycle loop", "solvers/tpsolver.py")],
  ["trusspy.solvers.pathfollow"])
p("C11", "Adaptive step width: changes only as documented, uniformly, inside its bounds",
  "With step control, all incremental limits change together by one factor. A failed attempt divides them by the reduction factor only while the current width is above minfac times the initial one, and only if the control component did not change or recycles are exhausted; a converged attempt multiplies them by 1 + (nfev-n)/nfev*increase only when the width is below maxfac times the initial one, the attempt was not a recycle, the component did not change and more than three increments were accepted since the last reduction; a width at or above the upper bound is set to exactly maxfac times the initial width. Without step control the limits never change.",
  ["inputs", "histories"], "every history of converged and failed attempts and every parameter set",
  NOASSERT + "the controller's branches depend on counters over many increments.",
  ["solvers/tpsolver.py"], [("dxmax_control", "solvers/tpsolver.py")], ["Results.R[i].dVmax"],
  [("dxmax", "current incremental limits", "solvers/tpsolver.py")])
p("C12", "Path following always terminates and stops when it must",
  "For finite settings a step performs at most the requested number of increments, and each increment a finite number of attempts: every further attempt advances the recycle counter, which ends the step when it reaches the allowed number and is reset only together with a reduction of the step width that is still above its lower bound. The step ends right after an attempt that neither converged nor changed control component nor step width, and right after the first recorded increment whose limited component exceeds the user's limit in absolute value.",
  ["inputs", "histories"], "every model, including those where no attempt ever converges",
  "Non-termination needs an input on which attempts keep failing; no test fails an attempt on purpose.",
  ["solvers/tpsolver.py"], [("pathfollow loops", "solvers/tpsolver.py")], ["trusspy.solvers.pathfollow"])
p("C13", "Multi-step loads: earlier steps stay at their reached level, new step from zero",
  "In step s the external load is LPF times the load columns of step s plus, as constant part, the sum over all earlier steps of their load columns times the LPF reached at the end of that step. Each step starts at LPF 0 from the displacements accepted at the end of the previous step, and a single tuple entry of the increment count or limit per step applies to its own step.",
  ["inputs", "histories"], "every number of steps, load matrix and LPF reached per step",
  "Two tests run four steps and assert nothing; a wrong column or LPF only shifts values.",
  ["model.py"], [("Model.run step loop", "model.py")], ["Results.R[i].ExtForces", "Results.R[i].lpf"],
  [("step_lpf_end", "LPF reached per finished step", "handlers/handler_result.py")])
p("C14", "Results: undeformed state first, then each accepted increment once, as snapshots",
  "After a run the result list holds the undeformed zero-load state first and then every recorded increment of every step exactly once, in the order computed. Each entry is an independent snapshot: nothing that happens later (further iterations, increments, steps) changes an entry, and no two entries share data.",
  ["histories"], "every number of steps and increments, and every later computation",
  "The changelog records a past violation of this; aliasing shows only by comparing entries, which no test does.",
  ["model.py", "handlers/handler_result.py", "solvers/tpsolver.py"],
  [("Model.run", "model.py"), ("ResultHandler", "handlers/handler_result.py"), ("deepcopy in pathfollow", "solvers/tpsolver.py")],
  ["Model.Results.R"], [("Results.R", "list of analysis snapshots", "handlers/handler_result.py")])
p("C15", "Model records stay in step: add, delete, assign and get act on one label",
  "After any sequence of adding and deleting nodes, elements, boundaries or forces, the i-th entries of all arrays of a handler describe the same labelled item: adding appends one record with exactly the given data, deleting by label removes that item's entry everywhere and nothing else. Assigning materials, geometries or types changes exactly the named elements (all of them for \"all\"), shorter material parameter lists being padded with zeros; the getters return the record of the label asked for.",
  ["histories", "inputs"], "every sequence of add, delete, assign and get calls with any labels in any order",
  "Tests only add items with labels 1..n in order and never delete.",
  ["handlers/handler_node.py", "handlers/handler_element.py", "handlers/handler_boundary.py", "handlers/handler_extforce.py", "core/node.py", "core/element.py", "core/boundary.py", "core/external_force.py"],
  [("NodeHandler, ElementHandler, BoundaryHandler, ExternalForceHandler methods", "handlers/")],
  ["Model.Nodes, Model.Elements, Model.Boundaries, Model.ExtForces"])
p("C16", "Definition order is irrelevant; undefined means free and unloaded",
  "Building the model sorts nodes, boundaries and forces by node label, each label keeping its own data, so the model does not depend on the order of definition. A node without a boundary is free in all directions and a node without an external force carries zero force in every step; every node ends up with exactly one boundary and one force record, and a definition that cannot be matched to the nodes is rejected with an error.",
  ["inputs", "histories"], "every order of definition and every subset of defined boundaries and forces",
  "Tests define nodes in ascending order and hardly leave gaps.",
  ["handlers/handler_boundary.py", "handlers/handler_extforce.py", "handlers/handler_node.py", "model.py"],
  [("fix_nodes, fix_bounds_U, fix_forces", "handlers/"), ("Model.build", "model.py")],
  ["Model.build", "Model.Nodes/Boundaries/ExtForces after build"])
p("C17", "Free and locked degrees of freedom partition the system; locked ones never move",
  "Building splits the node-major degree-of-freedom numbers into free (boundary value 1) and locked (boundary value 0) in ascending order, and the analysis uses exactly these sets. No residual or stiffness evaluation, and nothing else during a run, writes the displacement of a locked degree of freedom, which therefore stays zero.",
  ["inputs", "histories"], "every boundary definition and every sequence of evaluations",
  NOASSERT + "a moved support still yields plots.",
  ["model.py", "core/analysis.py"], [("Model.build", "model.py"), ("Model.equilibrium", "model.py"), ("Analysis.build", "core/analysis.py")],
  ["Results.R[i].U", "Analysis.DOF0/DOF1"])
p("C18", "Every setting reaches the algorithm parameter of its name and takes effect there",
  "Each user setting is passed to the path-following parameter it documents: displacement and LPF limits, initial, locked and predicted control component, limits and increment counts of the step, iteration and recycle limits, tolerances as ten to the minus the setting, step control with its four factors, overshoot tolerance and verbosity. Inside path following each of them is the value used where the documentation says it acts (Newton limits and tolerances, step-width control, validity check), never swapped with another.",
  ["configurations"], "every combination of settings",
  "Tests run a few settings combinations and cannot see whether a setting is ignored or swapped.",
  ["model.py", "solvers/tpsolver.py"], [("Model.run call of pathfollow", "model.py"), ("pathfollow calls of newton and step control", "solvers/tpsolver.py")],
  ["Model.Settings", "trusspy.solvers.pathfollow"])
p("C19", "Building again starts fresh: nothing of an earlier run leaks into the next",
  "Building a model creates a new, empty result collection and a new analysis with zero displacements, forces, stiffness, stresses and state variables, whose contents depend only on the current model definition and settings. After a rebuild nothing computed by an earlier build or run is reachable through the model's results or analysis.",
  ["histories"], "every sequence of build, run, change of definition and rebuild",
  "One test rebuilds after a run but asserts nothing about the second result.",
  ["model.py", "core/analysis.py", "handlers/handler_result.py"], [("Model.build", "model.py"), ("Analysis.build", "core/analysis.py")],
  ["Model.Results", "Model.Analysis"])
p("C20", "Running or plotting never changes the model definition, results or settings",
  "A run, a residual or a stiffness evaluation changes only the analysis, the results and its own timers: nodes, elements, boundaries, external forces and settings are left exactly as they were. Plotting, movie export, history and path plots and the result getters change nothing at all in the model, its results or its settings.",
  ["histories"], "every sequence of runs, evaluations and plots",
  "Mutation is only visible by comparing the definition before and after, in sequences no test compares.",
  ["model.py", "tools/plot_utilities.py", "tools/helper_functions2.py", "solvers/tpsolver.py", "elements/element_definition.py"],
  [("Model.run/equilibrium/stiffness", "model.py"), ("p_model, p_history, p_path, p_movie", "tools/plot_utilities.py")],
  ["Model attributes before and after"])
p("C21", "Models are independent: no state is shared between model instances",
  "Two models in one process never influence each other: no operation stores data in module-level or class-level variables, in default argument values or in the caller's own sequences, and every container a model, handler or analysis mutates was created for that instance.",
  ["histories", "programs"], "every interleaving of operations on any number of models",
  "Tests build models one after another and never compare interleaved ones.",
  ["model.py", "core/", "handlers/", "solvers/", "elements/", "materials/", "tools/"],
  [("constructors", "handlers/"), ("mutable defaults", "core/element.py")], ["several Model instances in one process"])
p("C22", "Standard output is given back on every way out of a run",
  "When log-file output is on, a run gives back the standard output stream found when the model was created on every way out of the run, including errors raised while solving. Without log-file output the standard output stream is never replaced.",
  ["fault_sequences", "inputs"], "every error that can occur during a run",
  "Tests only see the normal exit; nothing provokes an error in a run with a log file.",
  ["model.py"], [("Model.__init__", "model.py"), ("Model.run", "model.py")], ["sys.stdout after Model.run"])
p("C23", "Only the documented output files are written or deleted",
  "The library deletes nothing but the movie output folder \"figures/\" and the gif folder inside its work folder, creates folders only there, and writes only the movie frames and the gif inside it and, when requested, the log file named after the given log-file name. No other operation touches the file system, starts a process, or opens the network.",
  ["programs", "configurations"], "every operation and every argument",
  "A test that runs an operation sees its own files only; it cannot see that no other path is touched for other arguments.",
  ["tools/plot_utilities.py", "tools/movie_generator.py", "model.py"],
  [("p_movie", "tools/plot_utilities.py"), ("png_to_gif", "tools/movie_generator.py"), ("Model.__init__", "model.py")],
  ["file system effects"])
p("C24", "Results are deterministic: no clock, randomness or environment enters them",
  "Everything stored in results, analysis and model definition is a function of the model definition and settings only. Time measurements are only reported; no random numbers, environment variables, object identities, hash-order iteration, uninitialised memory or earlier process state enter any computed value.",
  ["histories", "configurations"], "every environment, process history and time of execution",
  "A test run sees one environment; agreement between two runs does not exclude dependence on others.",
  ["model.py", "solvers/", "elements/", "materials/", "handlers/", "core/"],
  [("timers in Model.build and Model.run", "model.py")], ["Model.Results"])
p("C25", "Plots draw every item at its own node position in the chosen plane",
  "For every view the horizontal and vertical axes are the two named coordinates (xy, xz, yz; three axes in 3d) for nodes, elements and forces alike. Nodes are drawn at undeformed coordinates plus the displacements of the plotted increment, each element as a line between the drawn positions of exactly its two end nodes, whatever the node labels are, and each nonzero force component as an arrow from its node along its own axis, scaled by the force scale.",
  ["inputs"], "every model, label numbering, view and increment",
  "Tests only check that plotting runs, on models whose labels are 1..n.",
  ["tools/plot_utilities.py", "tools/helper_functions2.py"],
  [("p_model", "tools/plot_utilities.py"), ("plot_nodes, plot_elems, plot_force", "tools/helper_functions2.py")],
  ["Matplotlib calls of Model.plot_model"])
p("C26", "Plots show the requested quantity of the requested node and increment",
  "Model plots use the displacements, load level and contour data (stretch, force or stress, per element) of the increment asked for, negative increments counting from the end, increment 0 being undeformed with unit LPF and no contour. History plots show for every increment in order the displacement, force or LPF asked for, of the first given node on the horizontal and of the second on the vertical axis in the named direction; path plots do so for every node of the path in the given order.",
  ["inputs", "configurations"], "every quantity, direction, node, increment and contour option",
  "Tests only check that plotting runs and exercise a handful of options.",
  ["tools/plot_utilities.py", "tools/helper_functions2.py", "model.py"],
  [("p_model, p_history, p_path", "tools/plot_utilities.py"), ("Model.plot_*", "model.py")],
  ["data passed to Matplotlib"])
p("C27", "Public operations never fail on a missing name, attribute, argument or type",
  "No public operation of models, handlers, core classes, materials, elements or solvers, called with documented arguments, reaches a use of an undefined or unassigned variable, of an attribute no code ever sets, a call that does not fit the called function's parameters, or text joined with a number.",
  ["inputs", "configurations"], "every public operation with every documented option",
  "Tests call about half of the public operations, each with few options.",
  ["model.py", "core/", "handlers/", "solvers/", "tools/"], [("all public operations", "")], ["exceptions of public operations"])
p("C28", "Assigned material, section and force values are stored exactly",
  "Every material parameter, section property, coordinate and force component a user defines or later assigns is stored with its value unchanged, whatever numeric types (integer or float) were used before or elsewhere in the model.",
  ["inputs", "histories"], "every mix of integer and float values in any order of definition and assignment",
  "Depends on the numeric type of earlier values; the suite assigns integers over integers only.",
  ["handlers/handler_element.py", "core/external_force.py", "handlers/handler_node.py"],
  [("ElementHandler.add_element/assign_*", "handlers/handler_element.py"), ("ExternalForce", "core/external_force.py")],
  ["ElementHandler getters, Model.Elements arrays"])
p("C29", "Each element uses its own material type; unsupported types are rejected",
  "During every evaluation each element is evaluated with the law of its own material type (1 linear-elastic, 2 elastic-plastic), its own parameters and its own state variables; a model containing an element of the second type gets state variables. An element with any other material type makes the evaluation fail with an error instead of being evaluated with another element's law.",
  ["inputs", "histories"], "every mix of material types over elements in any order",
  "Tests use one material type for all elements.",
  ["model.py"], [("material selection in Model.equilibrium", "model.py"), ("Model.build", "model.py")],
  ["Results.R[i].element_stress"])
p("C30", "A movie has one frame per requested increment, in increment order",
  "Movie export draws and saves one frame for each requested increment (all but the undeformed one by default), each with the options given, and assembles exactly the frames of this export in the order of increments, however many there are.",
  ["inputs", "histories"], "every number of increments and every earlier content of the output folder",
  "Tests export a few hundred frames and do not look at the order or number.",
  ["tools/plot_utilities.py", "tools/movie_generator.py"], [("p_movie", "tools/plot_utilities.py"), ("png_to_gif", "tools/movie_generator.py")],
  ["frames passed to the gif writer"])
p("C31", "Path following converges past limit points for well-posed models",
  "For every stable or unstable equilibrium path reachable with the given limits, path following finds the next point on the path, including snap-through and snap-back.",
  ["inputs"], "every model and settings", "Numerical convergence over all models cannot be sampled.",
  ["solvers/tpsolver.py", "solvers/zerosearch.py"], [("pathfollow", "solvers/tpsolver.py")], ["Model.Results.R"])
p("C32", "Recorded states are in equilibrium to the accuracy asked for, in floating point",
  "For every recorded increment the residual recomputed from the stored displacements in floating point is below the tolerance, for every problem scale.",
  ["inputs"], "every model, scale and rounding", "Rounding behaviour over all scales cannot be sampled.",
  ["model.py", "solvers/zerosearch.py"], [("newton", "solvers/zerosearch.py")], ["Results.R[i].g"])
p("C33", "The exported gif plays back the drawn figures pixel by pixel",
  "Every frame of the gif shows the figure drawn for its increment.",
  ["inputs"], "every model and movie option", "Image contents over all models cannot be sampled.",
  ["tools/movie_generator.py"], [("png_to_gif", "tools/movie_generator.py")], ["movie.gif"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P))

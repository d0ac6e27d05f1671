"""Single source for properties.jsonl and MANIFEST.json:  python -m mc.catalog"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CO = "scikit-topt/sktopt/core/"
TO = "scikit-topt/sktopt/tools/"
ME = "scikit-topt/sktopt/mesh/"
FE = "scikit-topt/sktopt/fea/"
FI = "scikit-topt/sktopt/filters/"
DENS = CO + "optimizers/common_density.py"
OC = CO + "optimizers/oc.py"
MOC = CO + "optimizers/logmoc.py"

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None,
      observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, technique=technique, note=note, state=state or [],
                      observe=observe or [], na=na))


P("C01", "Splitting a run into partial runs does not change the result",
  "However a run of N iterations is divided into successive partial runs (including zero-step, oversized and "
  "post-completion calls), the design after each absolute iteration, the recorded histories, the final outputs and the "
  "optimizer's latest parameters are the same as those of one uninterrupted run. Every partial run leaves a checkpoint and "
  "a mesh file for its last iteration, and calls after completion change nothing. A call interrupted by an error can be followed by another, which goes on with the "
  "next undone iteration.",
  ["histories", "configurations"],
  "every composition of N iterations into partial-run calls, with no-op calls inserted, for both optimizers and both physics",
  "the one existing test compares two designs for a single split of a single configuration",
  [DENS, OC, MOC],
  [("partial-run loop keeps the next iteration and all work arrays between calls", DENS + ":_optimize_impl"),
   ("completion flag makes later calls no-ops", DENS + ":_finalize")],
  "exhaustive call-sequence exploration of the real optimizers with differential oracle",
  "All compositions of N (and no-op insertions) are enumerated on small meshes; equality of every checkpoint, history and final output with the single-call run.",
  state=[("next iteration", "absolute iteration the next call starts at", DENS + ":_optimize_impl")])

P("C02", "A crash at any point leaves a run that restarts from a complete checkpoint",
  "If the process dies at any file-system operation while a run is writing its outputs, a later restart with automatic "
  "checkpoint detection resumes from the newest checkpoint that was completely written, never from a partial file, and "
  "continues to the requested number of iterations. A fresh (non-restart) run in a directory holding an earlier run's "
  "files never lets a later restart pick up the earlier run's checkpoints or histories.",
  ["crash_points", "fault_sequences", "histories"],
  "every file-system operation of a bounded run as crash point, with every torn-write prefix class of the file being written, followed by restart",
  "no test interrupts a run or restarts one", [DENS, CO + "misc.py", TO + "history.py"],
  [("checkpoint file per saved iteration", DENS + ":_optimize_impl"),
   ("latest-checkpoint search", CO + "misc.py:find_latest_iter_file")],
  "crash-point and torn-write enumeration over the recorded file-operation log of the real run",
  "Every prefix of the write log (with torn last write) is materialised in a scratch directory, restarted with the real code and compared with the reference trajectory.")

P("C03", "Continuation schedules take their specified value at every iteration",
  "For every schedule kind, total number of iterations, number of steps, endpoints and curvature, the scheduled value at each "
  "1-based iteration is the documented one: constants and targets-of-one are constant, staircases hold num_steps equally long levels from "
  "start to target (linear, power-accelerated or power-decelerated), a sawtooth restarts at its start value and decays linearly in "
  "each of its cycles, and from the last iteration on the target is used. Values stay between the endpoints, do not depend on the order of "
  "queries or on other schedules, and inconsistent configurations are refused.",
  ["inputs", "configurations"],
  "all schedule kinds x all totals, step counts, curvatures, endpoints of the bound x every iteration",
  "tests sample five iterations of one ten-iteration schedule", [TO + "scheduler.py"],
  [("schedule functions", TO + "scheduler.py:schedule_step"), ("dispatch by configuration", TO + "scheduler.py:Scheduler.from_config"),
   ("end-of-run clamp", TO + "scheduler.py:Scheduler.value")],
  "exhaustive enumeration of bounded schedules against an exact rational reference model",
  "Every iteration of every bounded schedule is evaluated through functions, config API and classes and compared with exact rational arithmetic.")

P("C08", "Heaviside projection is a smooth monotone map of [0,1] onto itself",
  "For every density in [0,1], sharpness and threshold, the projection equals the normalised tanh threshold function: it maps 0 to 0 and "
  "1 to 1, stays in [0,1], never decreases and never overflows, and its derivative is the slope of that function. "
  "The buffer-writing variants give the same values as the allocating ones for any output buffer and leave their input untouched unless the buffer is the input.",
  ["inputs"], "all (density, sharpness, threshold) of a dense grid x all buffer variants",
  "no test calls the projection directly; the global flow test uses one sharpness ramp and never looks at values",
  [CO + "projection.py"], [("closed forms", CO + "projection.py:heaviside_projection")],
  "exhaustive grid enumeration against extended-precision reference",
  "Every grid point through every entry point and aliasing variant; closed form in extended precision plus finite-difference slope.")

P("C09", "Material interpolation and its sensitivities are consistent",
  "For both interpolation laws, every penalty, stiffness range and density, the interpolated stiffness is the documented law (void value at "
  "zero, solid value at one, never decreasing), the stiffness derivative is the slope of that same law, and the compliance sensitivity is the "
  "element energy times that slope relative to the stiffness and never positive. In-place variants agree with the allocating ones, inputs are not "
  "modified, and an optimizer configured for a law uses the stiffness and sensitivity of that same law.",
  ["inputs", "configurations"], "all (law, penalty, stiffness, void ratio, density, energy) of a dense grid",
  "no test evaluates an interpolation or a sensitivity value", [FE + "composer.py", CO + "derivatives.py", DENS],
  [("laws", FE + "composer.py:simp_interpolation"), ("derivatives", CO + "derivatives.py:dE_drho_ramp"),
   ("law selection", DENS + ":interpolation_funcs")],
  "exhaustive grid enumeration against extended-precision reference",
  "Every grid point of both laws; closed forms in extended precision, monotonicity and finite-difference slope.")

P("C04", "Each iteration uses the continuation values of its absolute iteration",
  "At every iteration, whichever way the run is divided or restarted, the penalty, load factor, filter radius, projection sharpness, target volume, "
  "step size, move limit, and percentile in force are the scheduled values of that absolute iteration: the analysis, filter, projection and update all receive them. "
  "No parameter lags, leads, is swapped with another, or restarts its schedule.",
  ["configurations", "schedules"], "every scheduled parameter x schedule kind x run length x step count x way of calling",
  "tests run a few fixed schedules and never look at the values the analysis or update receives",
  [DENS, TO + "scheduler.py", OC, MOC],
  [("schedule evaluation in the loop", DENS + ":_optimize_impl"), ("schedule registration", DENS + ":init_schedulers")],
  "exhaustive enumeration of schedules and call partitions on the real optimizer, monitored per iteration",
  "Every iteration's analysis, filter, projection and update inputs are compared with a reference schedule over all bounded kinds, lengths and call partitions.")

P("C05", "The optimality-criteria update respects its limits and meets its volume",
  "Whatever the sensitivities (zero, positive and widely scaled ones included), one optimality-criteria update leaves every design density finite, inside the "
  "density limits and within the move limit of its previous value, and equals the fixed-point formula for its multiplier. The multiplier found by bisection makes the "
  "filtered, projected volume meet the target to the search tolerance, or lies at the end of its bracket when no multiplier can; a scaling of sensitivities stays in its configured range.",
  ["inputs", "histories"], "every sensitivity pattern of an alphabet x every update-parameter set x iterations",
  "tests only run the update on one physical problem and check that it finishes", [OC, DENS],
  [("bisection on projected volume", OC + ":bisection_with_physical_volume"), ("update formula", OC + ":rho_update")],
  "exhaustive enumeration of scripted sensitivity patterns through the real optimizer, judged by an independent update model",
  "Every pattern, parameter set and iteration is judged: limits, move limit, formula, volume, scaling, recorded multiplier.")

P("C06", "The LogMOC update follows its configured dual and step rules",
  "For every option set, one LogMOC update computes the multiplier from the volume error (plain, moving-average or augmented, clipped to its bounds), the Lagrangian "
  "gradient from sensitivities plus multiplier times the volume gradient (with the configured centring, smoothing, normalisation and scaling), and takes the multiplicative "
  "log-space step limited by the move limit. Densities stay finite and inside the density limits.",
  ["inputs", "histories", "configurations"], "every sensitivity pattern of an alphabet x every option combination x iterations",
  "tests only check that runs with default options finish", [MOC, DENS],
  [("update", MOC + ":rho_update"), ("log-space step", MOC + ":lagrangian_log_update")],
  "exhaustive enumeration of option sets and scripted sensitivity patterns through the real optimizer, judged by an independent update model",
  "Every option combination and pattern for several consecutive iterations; multiplier, gradient, scale and step are recomputed independently.")

P("C07", "Loaded, excluded and non-design elements stay solid",
  "In every state a run exposes (densities analysed, checkpoints, exported meshes, returned results), elements outside the design domain have density one, "
  "elements carrying loads stay solid, and elements touching supports are excluded from the design exactly when the option says so. Only design elements are ever changed "
  "by the update, and requested non-design elements never appear in a checkpoint.",
  ["configurations", "inputs"], "every design subset x exclusion option x method x filter, plus option matrix",
  "tests use full design domains and never read densities element by element", [DENS, ME + "task_common.py"],
  [("solid reset after update", DENS + ":_optimize_impl"), ("initial densities", DENS + ":initialize_density"),
   ("element sets", ME + "task_common.py")],
  "exhaustive enumeration of design subsets and options on the real optimizers, every exposed state monitored",
  "All 255 subsets of an 8-element box with both exclusion options, and the option matrix; every exposed density field is inspected.")

P("C10", "The spatial filter is the normalised weighted average it documents",
  "For every mesh, radius and design mask the filtered field is the average of design neighbours within the radius with the documented Gaussian weights: constants are kept, "
  "values never leave the input's range, and non-design elements keep their value. The backward map used for sensitivities is the one belonging to the current radius, "
  "and answers never depend on earlier calls or radii.",
  ["inputs", "histories"], "every mesh, mask and radius of the bound with all unit fields; every call sequence on one filter object",
  "no test inspects a filtered field", [FI + "spacial.py", FI + "base.py"],
  [("weights", FI + "spacial.py"), ("radius update", FI + "spacial.py:update_radius")],
  "exhaustive operator determination (all unit vectors) over masks and radii, plus exhaustive call sequences against a stateless model",
  "The complete matrix of each filter is extracted and compared with an independent one for every mask; call sequences explored to a depth.")

P("C11", "The Helmholtz filter solves its screened-Poisson problem and its transpose",
  "For every mesh, radius and design mask the filtered field is the finite-element solution of the screened Poisson equation with the configured radius: constants are kept and "
  "non-design elements stay solid. The backward map is the one belonging to the same operator and current radius, and answers never depend on earlier calls or radii.",
  ["inputs", "histories"], "every mesh, mask and radius of the bound with all unit fields; every call sequence on one filter object",
  "no test inspects a filtered field", [FI + "helmholtz_filter_element.py", FI + "helmholtz_filter_nodal.py", FI + "base.py"],
  [("assembly and factorisation", FI + "helmholtz_filter_nodal.py"), ("radius update", FI + "helmholtz_filter_nodal.py:update_radius")],
  "exhaustive operator determination (all unit vectors) over masks and radii, plus exhaustive call sequences against a stateless model",
  "The affine map of each filter is determined completely and compared with independently assembled matrices for every mask and radius.")

P("C12", "Recorded histories survive export, restart and plotting unchanged",
  "Whatever sequence of recording, exporting, importing into a new process, re-registering and plotting is performed, each registered series holds exactly the values fed to it in order, "
  "with correct min/mean/max(/std) summaries of arrays. Exporting then importing reproduces every series including empty ones, and plotting or printing never alters or loses data.",
  ["histories", "inputs"], "every sequence of recorder operations of the depth; every number of series on progress pages",
  "no test reads a history back", [TO + "history.py"],
  [("series", TO + "history.py:HistorySeries"), ("export and import", TO + "history.py:HistoryCollection")],
  "exhaustive operation-sequence exploration of the real recorder against a reference model",
  "All sequences of nine operations to the depth; memory, file and page layout compared with the model after each operation.")

P("C13", "Section timing accounts for every entry, exit and exception",
  "For every nesting of timed sections, left normally or by exception, the timer records each entry once under its own (hierarchical) name with the elapsed clock time, "
  "keeps the nesting stack balanced, and its totals, averages and resets follow the records. Plotting never changes the records.",
  ["histories"], "every well-formed sequence of timer operations of the depth",
  "no test checks timer records", [TO + "timer.py"],
  [("sections", TO + "timer.py:SectionTimer")],
  "exhaustive operation-sequence exploration of the real timer on a scripted clock against a reference model",
  "All sequences of nine operations to the depth for flat and hierarchical timers.")

P("C14", "Domain construction yields exactly the specified element and node sets",
  "For every choice of support, load and convection facets, design elements and constrained components, the task's support and load nodes and degrees of freedom, "
  "touching-element sets, design, fixed and free sets are exactly those of the definition, in single and list form. Design, fixed and free sets form consistent partitions also after "
  "supports are excluded from the design, and contradictory inputs are refused.",
  ["inputs", "configurations"], "every support-facet subset x loads x design subsets x components x list form",
  "tests build a handful of tasks on one mesh", [ME + "task_common.py", ME + "task_elastic.py", ME + "task_heat.py", ME + "utils.py"],
  [("constructors", ME + "task_elastic.py:from_facets"), ("node-to-element sets", ME + "utils.py:get_elements_by_nodes")],
  "exhaustive enumeration of facet and element subsets against set-theoretic definitions",
  "All boundary-facet subsets of a small box and all design subsets, in array and list form, elastic and heat.")

P("C15", "Surface loads deliver exactly the requested resultant",
  "For every load region, direction and value, the assembled load is the uniform traction whose resultant over the region equals the requested force in the requested direction and zero in the others, "
  "consistently distributed to the region's nodes only. Lists of regions, directions and values give one such load per entry, independent of the order of facets.",
  ["inputs"], "every facet subset of small boxes x direction x value; every ordered list of regions",
  "no test inspects a load vector", [ME + "task_elastic.py", ME + "utils.py"],
  [("load assembly", ME + "task_elastic.py:assemble_surface_forces")],
  "exhaustive enumeration of load regions against an independent facet integration",
  "All facet subsets of small boxes and all short lists of regions; the full load vector is compared.")

P("C16", "Elastic analysis solves the equilibrium of the interpolated structure",
  "For every density field, interpolation law, penalty, material and load list, displacements solve the linear-elastic equilibrium with supports held at zero, compliance is the work of the "
  "(scaled) loads, and element energies are each element's share of it for each load. Results do not depend on the solver chosen, the number of workers, earlier calls or the contents of the work array.",
  ["inputs", "configurations"], "every two-valued density pattern of a box x load lists; parameter, solver and entry-point grid; call sequences",
  "tests run solvers to completion and compare no displacement", [FE + "solver_elastic.py", FE + "composer.py", FE + "solver.py"],
  [("assembly", FE + "composer.py"), ("multi-load solve", FE + "solver_elastic.py")],
  "exhaustive enumeration of density patterns and settings on the real solver against a dense independent finite-element model",
  "All 256 patterns with every load list, the parameter and solver grid, and call sequences, against dense reference matrices.")

P("C18", "Heat analysis solves the convection-conduction problem it is given",
  "For every density field, law, penalty, convection data (numbers or lists) and support temperature (number or list), temperatures solve the conduction problem with boundary convection and density-gradient "
  "convection inside the design, supports hold their temperatures, and each objective (thermal compliance, total temperature, heat exchange) and element energy is the documented functional of that solution. "
  "Results do not depend on earlier calls; inconsistent data are refused.",
  ["inputs", "configurations"], "every two-valued density pattern of a box x support forms; grid of all data forms; call sequences",
  "tests run one heat problem to completion and look at no temperature", [FE + "solver_heat.py", FE + "composer.py", ME + "task_heat.py"],
  [("multi-case solve", FE + "solver_heat.py"), ("convection assembly", FE + "composer.py"), ("convection data", ME + "task_heat.py")],
  "exhaustive enumeration of density patterns and boundary-condition forms on the real solver against a dense independent finite-element model",
  "All 256 patterns with three support forms and the full grid of data forms against dense reference matrices.")

P("C17", "The optimizer is handed the true gradient of its objective",
  "At every iteration the gradient passed to the design update equals the exact derivative of the reported objective with respect to the design densities, through filter, projection, interpolation and "
  "equilibrium, averaged over load cases, then smoothed when sensitivity filtering is on. This holds for every density field, law, penalty, sharpness, radius, load list and load factor.",
  ["inputs", "configurations"], "every two-valued density pattern of a box x law x sharpness x radius x loads, and an option grid",
  "no test compares a sensitivity with a derivative", [DENS, CO + "derivatives.py", FE + "solver_heat.py", FI + "spacial.py"],
  [("chain rule", DENS + ":_optimize_impl"), ("compliance sensitivity", CO + "derivatives.py")],
  "exhaustive enumeration of density fields and settings through the real optimizer against complex-step derivatives of an independent model",
  "Injects every density pattern through a checkpoint, records the gradient handed to the update and compares it with complex-step derivatives of a dense model.")

P("C19", "Mesh queries answer for the mesh they are asked about",
  "For every set of nodes or elements, asking a mesh which elements touch the nodes, or which elements neighbour the elements, returns exactly the set defined by that mesh's connectivity. "
  "The answer never depends on which other meshes were created, dropped or queried earlier in the process, nor on the order or repetition of the queried items.",
  ["inputs", "histories"], "every node and element subset of small meshes; every sequence of creating, dropping and querying meshes of the depth",
  "tests query one mesh once per process", [ME + "utils.py", ME + "task_common.py"],
  [("node-to-element lookup", ME + "utils.py:get_elements_by_nodes"), ("element adjacency", ME + "utils.py:get_adjacent_elements")],
  "exhaustive subset enumeration and operation-sequence exploration of mesh life cycles on the real lookup code",
  "All node and element subsets of small meshes against the definition; all sequences of replacing and querying meshes to a depth (the lookup caches across calls).",
  state=[("lookup cache", "node-to-element table kept between calls", ME + "utils.py:get_elements_by_nodes")])

P("C20", "The exported structure is exactly the elements denser than the threshold",
  "The structure file written at the end of a run, or on request, contains every element whose density exceeds the threshold, no other element, and each with its original geometry. "
  "This holds for every density pattern including none or all elements, and the rest of the run's outputs are complete in each case.",
  ["inputs", "configurations"], "every design subset x every below / at / above-threshold pattern; complete runs over methods, splits and targets",
  "tests only check that a run ends", [ME + "visualization.py", DENS],
  [("submesh export", ME + "visualization.py:export_submesh"), ("end of run", DENS + ":_finalize")],
  "exhaustive enumeration of density patterns around the threshold on the real exporter, files read back",
  "Every three-valued pattern of every design subset of small boxes, hexahedral and tetrahedral; complete runs against their last checkpoint.")

P("C21", "A stored configuration restores the run it describes",
  "Every configuration written to file and read back is equal to the original in every field, including each kind of continuation schedule, and a run started from the stored configuration repeats the original run exactly. "
  "Every run leaves the configuration it actually used.",
  ["configurations"], "every field x alternative values, every pair of fields, every schedule kind in every scheduled field",
  "no test imports a configuration", [DENS, TO + "scheduler.py"],
  [("export and import", DENS + ":import_from"), ("schedule description", TO + "scheduler.py:SchedulerConfig")],
  "exhaustive single- and pair-wise configuration enumeration through the real export/import, differential repeated runs",
  "All fields, all pairs of fields (triples in thorough), all schedule kinds; runs repeated from the stored file.")

P("C22", "A restarted run continues exactly where the checkpoint left off",
  "Restarting from any saved iteration, named explicitly or found as the newest, makes the next design update receive the same inputs as in the uninterrupted run and numbers iterations onwards; "
  "histories are continued, not replaced. Files that merely look like checkpoints are ignored, the newest is the one with the largest iteration, and a missing checkpoint is refused without touching the directory.",
  ["histories", "configurations"], "every saved iteration as restart point, every subset of look-alike files, every increasing chain of restarts",
  "one test restarts nothing; the other only ends without error", [DENS, CO + "misc.py", MOC, TO + "history.py"],
  [("restart", DENS + ":initialize_density"), ("latest-checkpoint search", CO + "misc.py:find_latest_iter_file"),
   ("history import", TO + "history.py:import_histories")],
  "exhaustive restart-point and directory-state enumeration on the real optimizers with the uninterrupted run as oracle",
  "Every saved iteration of reference runs, explicit and newest, all look-alike subsets, chains of restarts; trajectory compared for OC, first update for LogMOC.")

P("C23", "Outputs appear on disk at exactly the configured iterations",
  "For every number of iterations, number of records and sequence of partial runs, checkpoints and meshes are written at the first, each interval, the last and every partial run's last iteration and at no other, "
  "reports and images accompany them, and after completion the final files exist. Animations contain the requested frames in order.",
  ["configurations", "histories"], "every (iterations, records, partition into calls) of the bound; every frame set x skip",
  "tests use one configuration and look at no file", [DENS, CO + "visualization.py", CO + "misc.py"],
  [("saving interval", DENS + ":_optimize_impl"), ("animation", CO + "visualization.py:images2gif")],
  "exhaustive configuration and call-sequence exploration; directory inspected at every iteration boundary",
  "All N, R<=3N and compositions of the bound for both methods and physics; directory state compared with the model at each iteration boundary.",
  state=[("record interval", "iterations between saves", DENS + ":_optimize_impl")])

P("C24", "A run stops early exactly when its convergence criterion first holds",
  "With convergence checking on, a run stops at the first iteration at which the density change (and, where the method has it, the stationarity residual) lies within tolerance after the earliest allowed iteration, "
  "its iterates up to there being those of the unchecked run, and it leaves complete final outputs. With checking off no tolerance ever ends a run.",
  ["configurations", "histories"], "every distinguishable pair of tolerances of reference runs x call partitions",
  "tests never converge", [DENS], [("stop test", DENS + ":_optimize_impl")],
  "exact partition of the tolerance plane by reference series, every cell executed on the real optimizer",
  "The tolerance plane is divided into finitely many indistinguishable cells by the reference series, each of which is executed.")

P("C25", "Optimizers in one process do not disturb each other or their environment",
  "Any interleaving of building, parameterizing, stepping and finishing several optimizers, which may share a mesh or a task, gives each the outcome of running alone, also when they advance in different threads. "
  "Environment variables, the caller's open figures and the other global settings of the process are as before after every call, whether it returns or fails.",
  ["schedules", "histories"], "every interleaving of life-cycle calls of 2-3 optimizers; every preemption-bounded thread schedule",
  "tests build one optimizer at a time", [OC, DENS, ME + "task_common.py", CO + "derivatives.py"],
  [("environment switch", OC + ":_scaled_sensitivity_mode"), ("work arrays", DENS + ":DensityState")],
  "stateless exploration of all call interleavings and preemption-bounded thread schedules under a controlled scheduler",
  "All interleavings of two (three) optimizers' calls and all thread schedules with at most the stated preemptions are run on the real code.")

P("C26", "Element geometry is right for every shape and corner numbering",
  "For every element shape and every numbering of its corners, computed volumes equal the geometric volume, and orientation repair returns positively oriented elements with the same corners, leaving correct ones unchanged. "
  "Coordinate-range queries select exactly the points inside the closed range, and generated boxes have the requested size.",
  ["inputs"], "every small integer edge matrix and taper x every corner numbering; every range on a grid",
  "tests use one box mesh", [ME + "utils.py", ME + "task_common.py", ME + "toy_problem.py"],
  [("orientation repair", ME + "utils.py:fix_elements_orientation"), ("volumes", FE + "composer.py:get_elements_volume")],
  "exhaustive enumeration of integer geometries and numberings against exact references",
  "All integer edge matrices of the bound, all 48 / 24 numberings, all subsets and ranges of small meshes.")

P("C27", "The scaling option changes units, not results",
  "Scaling a task by any sequence of length and force factors yields the consistently scaled problem with every other datum unchanged, and inverse factors restore it. "
  "Optimizing with the scaling option yields the designs of the unscaled run and hands the problem back in its original units, whatever the number of partial runs.",
  ["histories", "configurations"], "every sequence of scalings to a depth; boxes x load forms x call sequences",
  "no test uses the option", [ME + "task_common.py", ME + "task_elastic.py", DENS],
  [("task scaling", ME + "task_common.py:scale"), ("run scaling", DENS + ":unscale")],
  "exhaustive operation-sequence exploration with consistency oracle and differential runs",
  "All sequences of scalings of several tasks; scaled runs under all call sequences against unscaled runs.")

P("C28", "Recorded metrics and exported fields describe the design of that iteration",
  "At every iteration each recorded series (objective, volume fraction, density change, gradient, parameters) and each exported field equals the quantity its name denotes, evaluated for the design of that iteration. "
  "The latest-parameters view shows the same values.",
  ["inputs", "histories"], "every two-valued density pattern x settings as one iteration each, and real-update runs over an option grid",
  "no test looks at a recorded value", [DENS, TO + "history.py", CO + "visualization.py"],
  [("recording", DENS + ":_optimize_impl"), ("latest view", DENS + ":params_latest")],
  "exhaustive walk of the real optimizer through all density patterns with every record recomputed by an independent model",
  "All 64 (729) patterns per setting are visited by a scripted update; series, exported fields and latest view are recomputed independently.")

P("C29", "Derived fields and mesh statistics equal their definitions",
  "Stress, equivalent stress, strain and thermal energy, temperature averages, surface flux, neighbour sets and mesh statistics equal their continuum or set definition on every element, for every field, region and material law. "
  "Energies add up to the work of the assembled system, and equivalent stress is blind to pressure and choice of axes.",
  ["inputs"], "every unit field and sum of two (which fixes a quadratic result) x mesh x quadrature x material; every small facet subset; every element subset",
  "no test calls these functions", [FE + "composer.py", FE + "solver_heat.py", ME + "utils.py", ME + "task_heat.py", ME + "task_common.py"],
  [("stress", FE + "composer.py:stress_tensor_skfem"), ("energy", FE + "composer.py:strain_energy_skfem_multi"), ("thermal energy", FE + "solver_heat.py:heat_energy_skfem_multi"),
   ("neighbours", ME + "utils.py:get_adjacent_elements")],
  "exhaustive enumeration of basis fields and their pairs on small meshes against independent quadrature",
  "A quadratic functional is determined by its values on unit fields and their pairwise sums: all are evaluated on every mesh of the bound.")

P("C30", "Tagged meshes, mesh files and built-in problems give the task they describe",
  "A problem read from boundary tags, from a mesh file or from the built-in library has exactly the supports, loads, convection, design cells, material and quadrature it describes, and equals the same problem built from facet lists. "
  "Cells stored with any corner order are reoriented without moving a node or a tag, and standalone stiffness matrices agree with the task's own.",
  ["inputs", "configurations"], "every ordered selection of tag names x look-alikes x role x mesh kind; every orientation pattern of stored cells; every built-in problem",
  "tests load one well-formed mesh and look at no region", [ME + "task_common.py", ME + "loader.py", ME + "toy_problem.py", ME + "utils.py"],
  [("tag lookup", ME + "task_common.py"), ("mesh files", ME + "loader.py:basis_from_file"), ("built-in problems", ME + "toy_problem.py")],
  "exhaustive enumeration of tag layouts and stored corner orders with an independently built reference task",
  "All selections and orientation patterns of the bound are written, read and built; every region, load vector and stiffness entry is compared.")

P("C31", "The chosen linear solver is used as configured and does not change the answer",
  "The solver that is asked for is the one that runs, with exactly the tolerance, iteration limit and backend options given, on the constrained system and every load in order; contradictory or unavailable choices are refused. "
  "State, objective and optimized design do not depend on which exact solver was chosen.",
  ["configurations", "inputs"], "every combination of backend options x the form they are given in x solver x entry point x physics x loads",
  "tests run one solver, the optional backend is not installed in them", [FE + "solver_petsc.py", FE + "_petsc_compat.py", FE + "solver_elastic.py", FE + "solver_heat.py", DENS],
  [("backend options", FE + "solver_petsc.py:petsc_options_for_solver"), ("backend calls", FE + "solver_petsc.py:solve_u_petsc_multi"),
   ("fallback", FE + "_petsc_compat.py"), ("dispatch", FE + "solver_elastic.py:solve_u")],
  "exhaustive enumeration of option sets through the real code against a recording stand-in for the PETSc backend",
  "All 288 option sets x 4 solvers x 2 forms reach the stand-in; each backend call sequence is compared with an independent model, each solution with a dense solve. "
  "petsc4py is not installed here: the stand-in records the calls and solves exactly; PETSc's own convergence is outside the check.")

P("C32", "Command-line options produce the configuration and the run they name",
  "Every option of the command-line programs, in its long and short spelling, sets the setting it names and no other, schedules follow their start, end and step options, and malformed values are refused. "
  "A program run equals the run of the same settings made through the library.",
  ["configurations", "inputs"], "every option x value x spelling, every schedule triple, pairs of options; complete runs over combinations of option groups",
  "no test runs the command line", [CO + "misc.py", CO + "optimizers/oc.py", CO + "optimizers/logmoc.py"],
  [("parser", CO + "misc.py:add_common_arguments"), ("translation", CO + "misc.py:args2OC_Config_dict"), ("programs", CO + "optimizers/oc.py")],
  "exhaustive enumeration of option spellings and combinations with complete program runs compared to library runs",
  "All options and spellings of the bound are parsed and translated; 62 (300) complete program runs are compared design by design with library runs.")

P("C34", "Exported mesh files reproduce mesh, fields and condition maps",
  "Every mesh file the library writes reads back with the same points and cells and with each named field's values in place; condition maps mark exactly the load, support, convection, design and fixed sets of the task. "
  "This holds for any number of fields, supports and loads, and for hexahedra and tetrahedra.",
  ["inputs", "configurations"], "every combination of fields x mesh; every support x load region pair with exclusion variants",
  "tests write files and read none", [CO + "visualization.py", ME + "task_common.py"],
  [("mesh export", CO + "visualization.py:export_mesh_with_info"), ("condition map", ME + "task_common.py:export_analysis_condition_on_mesh")],
  "exhaustive enumeration of field and region combinations, files read back and compared",
  "All field forms and region pairs of the bound; every written file is read back cell by cell.")

P("C35", "Charts show exactly the data they are drawn from",
  "The schedule, density, mesh and timing charts written for a run show exactly the values they are drawn from: every schedule at every iteration on exactly one panel, "
  "every density, volume and distance in its bin, every region's volume and every section's share. Rendered images show the named field of that iteration's mesh file with a colour range that covers it; an absent kind of region counts as nothing.",
  ["inputs", "configurations"], "every schedule list, density field, mesh, region layout and nesting of timed sections of the bound",
  "tests only check that chart files appear", [TO + "scheduler.py", TO + "timer.py", CO + "visualization.py", ME + "task_common.py", DENS],
  [("schedule chart", TO + "scheduler.py:Schedulers.export"), ("timing chart", TO + "timer.py:save_plot"), ("mesh chart", ME + "task_common.py:nodes_and_elements_stats")],
  "exhaustive enumeration of chart inputs; the drawn lines, bars, bins and wedges are read back and compared with the data",
  "What every chart draws is read back from the figure at the moment it is saved and compared with the data, for every input of the bound.")

P("C36", "A run does not depend on how its mesh is numbered, placed, turned or listed",
  "Turning, mirroring or moving a problem, renumbering its nodes, elements or the corners of its cells, and re-ordering its facets, loads and regions leads to the same design "
  "after every iteration and the same recorded series. This holds for every method, filter, cell shape and physics.",
  ["inputs", "configurations"], "every axis permutation and reflection, translation, renumbering and re-listing of the bound x problems",
  "tests use one mesh in one position", [DENS, OC, MOC, "scikit-topt/sktopt/filters/spacial.py", "scikit-topt/sktopt/filters/helmholtz_filter_nodal.py", FE + "composer.py", ME + "task_common.py"],
  [("iteration", DENS + ":_optimize_impl"), ("volumes", FE + "composer.py:get_elements_volume")],
  "exhaustive enumeration of the problem's symmetry group (bounded generators) through whole runs of the real optimizer, compared with the untransformed run",
  "All 48 signed axis permutations, translations, transpositions of the numbering and re-listings of 18 problems run to the end and are compared iteration by iteration.")

P("C37", "Nothing the caller hands over is changed",
  "Meshes, index arrays, lists of loads and regions, densities, fields, configurations and schedule objects passed to the library are as before after every call, apart from documented output "
  "buffers. A run changes nothing of the domain it works on but the excluded supports, also when one schedule object serves several parameters or runs.",
  ["inputs", "histories", "configurations"], "every public call x problem x argument form, every ordered pair of calls, every life-cycle call of a run, every pair of parameters sharing a schedule",
  "tests never look at their arguments again", [TO + "scheduler.py", DENS, ME + "task_common.py", FE + "composer.py", FE + "solver_elastic.py", FE + "solver_heat.py"],
  [("schedules", TO + "scheduler.py:add_object_from_config"), ("analysis", FE + "solver_elastic.py"), ("domain", ME + "task_common.py:from_nodes")],
  "exhaustive enumeration of calls and ordered pairs of calls on shared arguments, with a complete snapshot of the arguments before and after each",
  "Everything reachable from the arguments is compared before and after every call and pair of calls of the bound.")


def built(p):
    return os.path.exists(os.path.join(VERIF, "mc", "props", p["id"].lower() + ".py"))


def main():
    rows, checks, na = [], [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        rows.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}})
        if built(p):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check.sh --setup",
                   "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not applicable")


if __name__ == "__main__":
    main()

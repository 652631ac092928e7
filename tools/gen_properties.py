"""Writes /verif/properties.jsonl (kept as a script so that statements stay in one reviewable place)."""
import json, os
S = "scikit-topt/sktopt/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop("C01", "Continuation schedules follow the configured curve for every iteration",
     "For every valid schedule configuration and every iteration number, the scheduled value is exactly the one its documented curve prescribes: constant, stepped (with accelerating or decelerating curvature), or sawtooth decay; it never leaves the interval between start and target, step schedules are monotone with the configured number of equal plateaus, and the target is reached at the last iteration. The exponential slow-down and speed-up functions stay between start and target with a constant ratio between successive changes. A disabled schedule yields no value, a collection of schedules hands out each parameter's own value under its own name, and every invalid configuration is rejected when it is built.",
     ["inputs", "configurations"],
     "all schedule types x start/target (rising, falling, equal) x number of steps x curvature x horizon x every iteration, and collections of them",
     "The tests sample one horizon and a handful of configurations; off-by-one plateau boundaries, falling schedules, sawtooth cycles, horizons not divisible by the step count and collections are not reached.",
     ["tools/scheduler.py"],
     [("schedule functions and their validation", "tools/scheduler.py"), ("collection lookup by name/list", "tools/scheduler.py: Schedulers")],
     ["sktopt.tools.SchedulerConfig / Scheduler / Schedulers"])

prop("C02", "Material interpolation is bounded, monotone and has the right derivative",
     "For SIMP and RAMP, the interpolated modulus equals the documented formula: minimum modulus at density 0, solid modulus at density 1, strictly between and increasing in between, and decreasing in the penalty. The derivative and the compliance sensitivity supplied for each scheme (in allocating and in-place form) equal the analytical derivative of that scheme and never have the wrong sign.",
     ["inputs"],
     "all densities in (0,1], moduli E0 > Emin > 0, penalties p >= 1 (SIMP) / p >= 0 (RAMP), arrays of any length",
     "No test evaluates an interpolation or derivative at all; only a one-iteration run with the default scheme is executed and only finiteness is asserted.",
     ["fea/composer.py", "core/derivatives.py"],
     [("simp/ramp interpolation", "fea/composer.py"), ("dE/drho and dC/drho", "core/derivatives.py")],
     ["array results of interpolation and derivative functions"])

prop("C03", "Density projection maps [0,1] onto [0,1] monotonically with exact slope",
     "The smooth threshold projection keeps 0 at 0 and 1 at 1, is monotone, stays within [0,1], and equals the documented tanh formula for every sharpness and threshold; its derivative is the exact slope of that formula. The in-place and allocating forms agree, write only to the requested output and leave the input density unchanged when an output is given.",
     ["inputs"],
     "all densities in [0,1], sharpness in (0, 200], threshold in [0.05,0.95], with and without output buffers",
     "No test calls the projection; the run tests use one sharpness and check only finiteness.",
     ["core/projection.py"],
     [("heaviside projection and derivative", "core/projection.py")],
     ["array results and caller-owned buffers"])

prop("C04", "The spatial density filter averages correctly and back-propagates its adjoint",
     "The spatial filter replaces each designable element's density by the normalised Gaussian-weighted average over designable elements whose centres lie within the current radius; elements outside the design domain pass through unchanged, a uniform field is reproduced, and no filtered value leaves the range of its inputs. Its gradient operation is the exact transpose of the forward operation on the design domain, and changing the radius gives the same operator as building the filter anew with that radius.",
     ["inputs", "histories"],
     "all meshes (hex/tet, graded, sheared, renumbered), design masks, radii, fields, and sequences of forward/gradient/radius updates",
     "No test uses the spatial filter: neighbourhood search, weights, design mask, transpose and stale state after a radius update are only visible against an independent dense operator.",
     ["filters/spacial.py", "filters/base.py"],
     [("kernel construction over design elements", "filters/spacial.py"), ("transpose in gradient", "filters/spacial.py")],
     ["forward() / gradient() / update_radius()"])

prop("C05", "The Helmholtz density filter solves its screened-diffusion problem",
     "The Helmholtz filter returns the element averages of the nodal solution of the screened-diffusion equation with the current radius (zero-flux boundary), driven by the volume-weighted nodal average of the element densities, with nodes of non-designable elements held at solid. It reproduces a fully solid field and, where everything is designable, every uniform field, and changing the radius gives the same operator as building the filter anew with that radius. Its gradient operation applies the same zero-flux equation to the sensitivities (zero outside the design domain), scales with them, and never produces a sensitivity of ascending sign from descending ones.",
     ["inputs", "histories"],
     "all meshes, design masks, radii, density and sensitivity fields, and sequences of forward/gradient/radius updates",
     "Tests run this filter only inside a smoke run on one mesh; nothing compares it with the equation it documents or exercises a radius update.",
     ["filters/helmholtz_filter_nodal.py", "filters/base.py"],
     [("assembly and factorisation", "filters/helmholtz_filter_nodal.py"), ("element/node averaging", "filters/helmholtz_filter_nodal.py")],
     ["forward() / gradient() / update_radius()"])

prop("C06", "Element volumes and orientations are those of the actual mesh",
     "For every tetrahedral or flat-faced hexahedral mesh, the reported element volumes are the true positive volumes of the elements: they sum to the volume of the domain, scale with the cube of the coordinates, and are unaffected by renumbering. Repairing element orientation returns right-handed elements on the same node sets, leaves already right-handed elements alone, and generated box meshes fill exactly the requested box with the requested resolution.",
     ["inputs"],
     "all box, graded, sheared, tapered, rotated, jittered and renumbered hex/tet meshes, including left-handed elements",
     "No test looks at a volume; volume fractions are ratios, so a wrong volume on graded or mixed meshes silently shifts every volume constraint and filter weight.",
     ["fea/composer.py", "mesh/utils.py", "mesh/toy_problem.py"],
     [("volume by decomposition", "fea/composer.py: get_elements_volume"), ("orientation repair", "mesh/utils.py"), ("box generators", "mesh/toy_problem.py")],
     ["element volume arrays; connectivity arrays"])

prop("C07", "Node-to-element and adjacency queries always describe the queried mesh",
     "Looking up the elements that touch a set of nodes returns exactly the sorted set of elements of the mesh that was passed, whatever other meshes were queried, modified or discarded before. Element adjacency (both implementations) relates exactly the elements that share at least one node, and neighbour queries return exactly the adjacent elements outside the queried set.",
     ["inputs", "histories"],
     "all meshes, node sets (single array or list of arrays), element sets, and histories of creating, querying and discarding meshes",
     "A test uses one mesh per process; results cached per mesh go wrong only over histories of several meshes.",
     ["mesh/utils.py"],
     [("cached node-to-element map", "mesh/utils.py: get_elements_by_nodes"), ("adjacency builders", "mesh/utils.py")],
     ["returned index arrays"],
     [("per-mesh cache", "node to element map remembered between calls", "mesh/utils.py: get_elements_by_nodes")])

prop("C08", "A problem definition partitions the mesh exactly as its boundary data say",
     "For every combination of Dirichlet, load and convection regions, the constrained degrees of freedom are exactly those of the region's nodes in the requested direction(s), the free degrees of freedom are their complement (and the free elements those that have one), and the designable elements are the requested ones minus loaded elements (and minus convection or Dirichlet elements when these are not designable), with all remaining elements fixed. Defining the same problem from named mesh regions, single or numbered, gives the same problem as defining it from facet lists, and inconsistent or empty definitions are rejected.",
     ["inputs", "configurations"],
     "all meshes x sets of Dirichlet/load/convection regions (one or several, overlapping, different sizes) x directions x design subsets, elasticity and heat",
     "Tests build four fixed problems; several regions of different sizes, component-wise supports and numbered names are not reached.",
     ["mesh/task_common.py", "mesh/task_elastic.py", "mesh/task_heat.py"],
     [("region to node/dof/element resolution", "mesh/task_common.py"), ("named regions", "mesh/task_elastic.py, mesh/task_heat.py: from_mesh_tags")],
     ["attributes of LinearElasticity / LinearHeatConduction"])

prop("C09", "Applied surface loads carry exactly the requested total force",
     "For every load region, the assembled load vector acts only on nodes of that region's facets and only in the requested direction, and its components sum to the requested total force independently of mesh size, element type and region shape, distributed as a uniform traction. Several regions give one load case each, in order, and inconsistent lengths or directions are rejected. The packaged sample problems carry exactly the load, support and design domain their definitions state.",
     ["inputs", "configurations"],
     "all meshes, facet regions, directions, signed magnitudes, one or many regions",
     "Tests never look at a load vector.",
     ["mesh/task_elastic.py", "mesh/toy_problem.py"],
     [("traction assembly", "mesh/task_elastic.py: assemble_surface_forces")],
     ["load vectors of the problem"])

prop("C10", "Assembled operators match the continuum model element by element",
     "The assembled stiffness (conductivity) matrix is symmetric positive semi-definite, annihilates exactly the rigid motions (constants), equals the sum of element matrices of the isotropic linear-elastic (Fourier) model with each element's own interpolated modulus, and reproduces the exact energy of any linear field. The stiffness matrix read directly from a mesh file is that of the same model. It is therefore unaffected by renumbering the mesh apart from the permutation.",
     ["inputs"],
     "all meshes, density fields, moduli, Poisson ratios, penalties, SIMP and RAMP",
     "Tests never inspect a matrix; a wrong Lame constant, a swapped element index or quadrature error leaves everything finite.",
     ["fea/composer.py"],
     [("matrix assembly", "fea/composer.py")],
     ["sparse matrices returned by assembly"])

prop("C11", "Elastic solves satisfy equilibrium for every solver and load set",
     "For every density field, the displacement of each load case satisfies the assembled equilibrium equations on free degrees of freedom and is zero on constrained ones, and the reported compliance of each case is the work of that case's own load. All available linear solvers agree to solver tolerance, solving several load cases together equals solving each alone, results scale linearly (displacement) and quadratically (compliance) with the load factor, and stiffer designs are never more compliant.",
     ["inputs", "configurations"],
     "all meshes, supports, load sets, densities, penalties, interpolation schemes, solver selections and load factors",
     "Tests use one direct solver and one density; residuals, solver agreement and load-case mixing are never checked.",
     ["fea/solver_elastic.py", "fea/solver.py", "fea/composer.py"],
     [("solve and enforcement", "fea/solver_elastic.py"), ("multi-load solve", "fea/solver_elastic.py"), ("convenience wrappers", "fea/solver.py")],
     ["displacements and compliances"])

prop("C12", "Element energies and stresses are consistent with the displacement",
     "Element strain energies are non-negative, equal the documented quadratic form of each element's own strain and modulus, vanish for rigid motions, and sum to half the compliance of each load case; heat energies likewise. Reported element stress (integrated over the element) follows Hooke's law for linear displacement fields, and von Mises stress is the standard invariant: non-negative, unchanged by hydrostatic stress and by rotation of the axes.",
     ["inputs"],
     "all meshes, displacement/temperature fields, densities, moduli, one or several load cases",
     "No test reads an energy or stress value.",
     ["fea/composer.py", "fea/solver_heat.py"],
     [("energy and stress functionals", "fea/composer.py"), ("heat energy", "fea/solver_heat.py")],
     ["element arrays"])

prop("C13", "Steady temperature fields satisfy conduction, Dirichlet and convection data",
     "For every density field, each load case's temperature equals its own prescribed value on its own Dirichlet region and balances conduction plus convection elsewhere, including the density-dependent interface convection. Temperatures stay between the smallest and largest prescribed and ambient temperatures (up to discretisation effects absent on box meshes), and load cases solved together equal the cases solved alone.",
     ["inputs", "configurations"],
     "all meshes, Dirichlet regions and values (one or several, different sizes), convection regions with common or individual coefficients, densities, penalties",
     "Tests run a single heat case and check only that a number is finite.",
     ["fea/solver_heat.py", "mesh/task_heat.py"],
     [("state solve", "fea/solver_heat.py"), ("convection assembly", "mesh/task_heat.py"), ("interface convection", "fea/solver_heat.py")],
     ["temperature arrays; convection matrices and vectors"])

prop("C14", "Thermal objectives and sensitivities match their definitions",
     "The reported thermal objective of each load case is the defined functional of that case's temperature field: thermal compliance, summed temperature, or interface-averaged heat exchange with optional temperature weighting. The sensitivity used for the update is, for every interpolation scheme, the derivative of the thermal potential at fixed temperature with respect to each element's density, including the interface-convection part for the compliance objective.",
     ["inputs", "configurations"],
     "all meshes, objectives, densities in the open interval, penalties, convection data, SIMP and RAMP",
     "Tests only assert that one thermal objective is finite.",
     ["fea/solver_heat.py", "core/derivatives.py"],
     [("objective evaluation", "fea/solver_heat.py"), ("sensitivity evaluation", "fea/solver_heat.py")],
     ["objective values and sensitivity arrays"])

prop("C15", "Elastic design sensitivities equal the true gradient of the recorded compliance",
     "During a run with the spatial filter, the sensitivity handed to the density update equals the derivative of the recorded mean compliance with respect to each designable density, through filtering, projection and interpolation, for any load cases, penalty, sharpness and interpolation scheme. The recorded compliance is the mean over load cases of the compliance of the filtered and projected design.",
     ["inputs", "configurations"],
     "all meshes, design masks, densities, load sets, filter radii, sharpness, thresholds, penalties, SIMP and RAMP",
     "Tests compare the code with itself; a wrong chain-rule factor still gives finite, self-consistent runs.",
     ["core/optimizers/common_density.py", "core/derivatives.py", "core/projection.py", "filters/spacial.py"],
     [("chain rule in the iteration loop", "core/optimizers/common_density.py")],
     ["arguments of the density update; recorded compliance"])

prop("C16", "The OC update honours move limits, bounds and the volume target",
     "For every sensitivity field, each updated density is the old density times the documented power of the scaled sensitivity-to-multiplier ratio, clipped to the scaling range, the move limit and the density bounds, with one common multiplier inside its configured bracket. The multiplier is the one at which the filtered and projected volume fraction meets the target, to the configured tolerance, whenever the limits allow it; otherwise the update goes as far towards the target as they allow; the reported volume error is that of the returned densities.",
     ["inputs", "configurations"],
     "all density, sensitivity and volume fields, move limits, exponents, bounds, targets, sharpness and filters",
     "Tests run one configuration; infeasible targets, active limits and unequal volumes are not reached.",
     ["core/optimizers/oc.py"],
     [("multiplier search on physical volume", "core/optimizers/oc.py")],
     ["updated densities, multiplier, volume error"])

prop("C17", "The log-space update keeps densities positive, bounded and within move limits",
     "For every Lagrangian gradient, the log-space update multiplies each density by the exponential of minus the step size times the clipped gradient, restricted to the logarithmic move limit and the density bounds, so that no density leaves its bounds or changes by more than the move limit, and a zero gradient leaves densities unchanged. The multiplier follows the configured smoothing or augmented rule from the volume error and stays in its bounds.",
     ["inputs", "configurations", "histories"],
     "all density and gradient fields, step sizes, move limits, clips, bounds, and sequences of volume errors",
     "Tests run one iteration of one configuration.",
     ["core/optimizers/logmoc.py"],
     [("log-space update", "core/optimizers/logmoc.py: lagrangian_log_update"), ("multiplier update", "core/optimizers/logmoc.py: rho_update")],
     ["updated densities; recorded multiplier and volume error"])

prop("C18", "Every run keeps the design admissible and its records truthful",
     "In every iteration of every run, designable densities stay within the configured bounds and within the scheduled move limit of the previous iterate, the evaluated (filtered and projected) densities stay within [0, 1], and non-designable, loaded and (unless designable) supported elements stay solid. The recorded objective, volume error, density change and load factor are those of that iteration's design, every requested iteration is recorded once, and the problem given to the run is returned in its original units.",
     ["configurations", "inputs", "histories"],
     "all problems (elastic/heat, one or several cases) x optimizers x filters x interpolation x schedules x output and scaling options",
     "Tests run five iterations of the default configuration on one problem.",
     ["core/optimizers/common_density.py", "core/optimizers/oc.py", "core/optimizers/logmoc.py"],
     [("iteration loop", "core/optimizers/common_density.py")],
     ["checkpoints, mesh files and histories written by a run"])

prop("C19", "Running in pieces equals running at once, and runs stop when they should",
     "Splitting a run into any sequence of partial runs gives the same densities, histories and checkpointed values as one full run, and repeating a run repeats it. A run never exceeds its iteration budget, calls after completion change nothing, and with convergence checking on it stops at the first iteration where both the density change and the optimality residual are below their tolerances and not before.",
     ["schedules", "histories", "configurations"],
     "all ways of splitting n iterations into partial runs (including zero, negative and excessive requests), optimizers, schedules, tolerances",
     "The existing test compares exactly one split (all ones) for one optimizer and configuration.",
     ["core/optimizers/common_density.py", "core/optimizers/oc.py"],
     [("resumable iteration state", "core/optimizers/common_density.py")],
     ["checkpoints and histories"],
     [("next iteration and completion flags", "where a partial run continues", "core/optimizers/common_density.py")])

prop("C20", "A run interrupted after any checkpoint can be resumed from it",
     "A run stopped after any iteration leaves checkpoints from which a new process resumes, from the latest or from a chosen checkpoint: it continues at the following iteration number with exactly the checkpointed design, evaluates the same filtered and projected design and objective there as the uninterrupted run, runs to the iteration budget, and appends to the exported histories. The latest checkpoint is the one with the largest iteration number among well-formed checkpoint files, whatever else is in the folder and in whatever order it is listed, and a missing checkpoint is reported rather than ignored.",
     ["crash_points", "histories", "configurations"],
     "every stop iteration x optimizers x checkpoint intervals x chosen/latest checkpoint x stray files",
     "No test restarts anything.",
     ["core/optimizers/common_density.py", "core/misc.py", "tools/history.py", "core/optimizers/logmoc.py"],
     [("checkpoint discovery", "core/misc.py: find_latest_iter_file"), ("restart initialisation", "core/optimizers/common_density.py: initialize_density"), ("history import", "tools/history.py")],
     ["data folder, histories, mesh files of the resumed run"])

prop("C21", "Recorded histories keep every value and survive export and import",
     "A history returns exactly the values fed to it, in order: scalars as they are, arrays as their minimum, mean, maximum and (if configured) standard deviation. Exporting all histories and importing them into a fresh collection gives the same values, and feeding may continue after import as if nothing had happened, for every sequence of feeds.",
     ["histories", "inputs"],
     "all sequences of adding series, feeding scalars/arrays, exporting, importing and feeding again",
     "No test exports, imports or inspects a history beyond the last compliance value.",
     ["tools/history.py"],
     [("series and collection", "tools/history.py"), ("export/import", "tools/history.py: HistoryCollection")],
     ["HistoryCollection API and the exported file"])

prop("C22", "Configurations survive export and import and command-line translation",
     "Every configuration of either optimizer that is written with a run can be read back to an equal configuration whose schedules and solver settings work as the original's. Command-line style arguments are translated so that every schedule parameter gets exactly its own start, target and step values and every other argument arrives unchanged.",
     ["configurations"],
     "all configurations of both optimizers (all schedule types, solver options, flags) and all combinations of command-line arguments",
     "No test reads a configuration back or translates arguments.",
     ["core/optimizers/common_density.py", "core/misc.py", "fea/_petsc_compat.py"],
     [("export/import_from", "core/optimizers/common_density.py"), ("argument translation", "core/misc.py")],
     ["configuration objects and cfg.json"])

prop("C23", "Written result files describe the run's mesh and fields",
     "Every mesh file written for an iteration contains the analysed mesh, readable by standard tools with positively oriented cells of the true size, together with that iteration's projected density and energy per element. The exported sub-mesh contains exactly the non-designable elements and the designable ones denser than the threshold, and the exported condition file marks exactly the loaded, supported, convective and designable entities.",
     ["inputs", "configurations"],
     "all meshes (hex/tet), densities, thresholds, problem definitions",
     "No test opens an output file.",
     ["core/visualization.py", "mesh/visualization.py", "mesh/task_common.py", "mesh/loader.py"],
     [("mesh export", "core/visualization.py: export_mesh_with_info"), ("sub-mesh export", "mesh/visualization.py"), ("condition export", "mesh/task_common.py")],
     ["files read back with meshio / pyvista"])

prop("C24", "Section timing accounts for all time exactly once",
     "For every nesting of timed sections, including sections left by an exception and decorated functions, each section's count, total, average and maximum are those of its own executions, nested names record the full path, and self-time is the section's total minus its direct children's, never negative. Summaries are complete and sorted as requested, and resetting forgets exactly what was asked.",
     ["histories"],
     "all sequences and nestings of sections under a controlled clock",
     "No test uses the timer.",
     ["tools/timer.py"],
     [("section stack and records", "tools/timer.py")],
     ["SectionTimer.stats/summary/report"])

prop("C25", "Plots and printed summaries show exactly the recorded values",
     "Whatever has been recorded, every plot and printed summary the tool produces shows those values and nothing else: the progress plot gives each history its own panel with its recorded means (and band of deviation or extremes) at their iterations, the printed record lists the last values, the schedule plot shows each parameter's value at every iteration, density histograms count every element once, mesh statistics describe the mesh and its regions, timing charts show each section's time (self or total) against its own name, and the density animation has one frame per written image, each showing that image. No recorded data, however flat, large, small or incomplete, makes a plot fail.",
     ["inputs", "histories"],
     "all recorded histories, schedule collections, density fields, meshes with and without boundary regions, section trees and image series",
     "Tests only check that a run finishes; nothing looks at what is drawn or printed.",
     ["tools/history.py", "tools/scheduler.py", "tools/timer.py", "core/visualization.py", "mesh/task_common.py"],
     [("progress plot and printed record", "tools/history.py: export_progress/print"), ("schedule plot", "tools/scheduler.py: Schedulers.export"),
      ("timing charts", "tools/timer.py: plot/save_plot"), ("density histogram and animation", "core/visualization.py: rho_histo_plot/images2gif"),
      ("mesh statistics", "mesh/task_common.py: nodes_and_elements_stats")],
     ["artists of the saved figures, log and standard output, animation frames"])

prop("C26", "A run's design does not depend on how its problem is written down",
     "Writing the same physical problem differently gives the same run: renumbering nodes or elements, reordering an element's vertices, listing facets, regions, load cases or design elements in another order, moving or turning the part (with its directions), mirroring it, or reversing a load, changes neither the densities of the corresponding elements in any iteration nor any recorded history (up to rounding).",
     ["inputs", "histories", "configurations"],
     "all problems (elastic/heat, one or several cases) x optimizers x filters x interpolation x schedules x rewritings of the problem",
     "Tests run one numbering of two meshes; a dependence on numbering, position or order shows only between two runs of equivalent problems.",
     ["core/optimizers/common_density.py", "core/optimizers/oc.py", "core/optimizers/logmoc.py", "fea/composer.py", "filters/spacial.py", "filters/helmholtz_filter_nodal.py", "mesh/task_elastic.py", "mesh/task_heat.py"],
     [("run loop and records", "core/optimizers/common_density.py"), ("filters", "filters/"), ("assembly", "fea/composer.py")],
     ["densities after every update and all recorded histories of two runs"])

prop("C27", "A run's design does not depend on the system of units",
     "Stating the same physical problem in other units gives the same run: multiplying all lengths (mesh and filter radius), all moduli and forces, all conductivities and convection coefficients or all temperatures by their conversion factors leaves the densities of every iteration unchanged, and turns every record into the same quantity in the new units (up to rounding).",
     ["inputs", "histories", "configurations"],
     "all problems (elastic/heat, one or several cases) x optimizers x filters x interpolation x schedules x conversion factors of length, stiffness or conductivity, and temperature",
     "Tests run two problems in one system of units; an absolute threshold or a missing factor shows only between two runs of the same problem in different units.",
     ["core/optimizers/common_density.py", "core/optimizers/oc.py", "core/optimizers/logmoc.py", "fea/composer.py", "fea/solver_elastic.py", "fea/solver_heat.py", "filters/spacial.py", "filters/helmholtz_filter_nodal.py"],
     [("run loop and records", "core/optimizers/common_density.py"), ("updates", "core/optimizers/"), ("state solves", "fea/")],
     ["densities after every update and all recorded histories of two runs"])

prop("C28", "Runs and problems in one process do not influence each other",
     "What a run computes depends on its own problem and configuration only: whatever else the process builds, runs or evaluates before it or between its iterations - runs that differ in a load, support, material, mesh or setting, runs of the same problem object (unscaled), evaluations with other densities, objects created and released - its densities, states, energies, sensitivities and records are those of the same run alone in a process.",
     ["histories", "schedules", "configurations"],
     "all pairs and triples of runs (elastic/heat problems, near copies with one or two inputs changed) x interleavings of their iterations with throw-away runs and evaluations x own or shared problem objects x order of construction",
     "Tests run one problem per optimizer and compare no run with another; state kept in a module, a class, a default argument or a cache with too small a key is seen only between runs that differ in what the key leaves out.",
     ["core/optimizers/common_density.py", "core/optimizers/oc.py", "core/optimizers/logmoc.py", "fea/composer.py", "fea/solver_elastic.py", "fea/solver_heat.py", "filters/spacial.py", "filters/helmholtz_filter_nodal.py", "mesh/task_common.py", "tools/scheduler.py"],
     [("run loop and state of a run", "core/optimizers/common_density.py"), ("state solves", "fea/"), ("filters", "filters/"), ("problems", "mesh/")],
     ["densities, states, energies, sensitivities and histories of interleaved runs against each run alone"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            f.write(json.dumps(d) + "\n")
    print(len(P))

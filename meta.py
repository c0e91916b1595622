#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
S = "scikit-topt/sktopt/"
SE = "symbolic execution of the real Python (numpy shim, JIT off) + SMT (z3/cvc5), counterexamples replayed"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, na=None, state=None, level="model_checking"):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=mech, observe=observe, note=note, na=na, state=state, level=level))


prop("C01", "Continuation schedules follow their documented course",
     "A stepped, accelerating, decelerating or sawtooth schedule starts at its start value, never leaves the range between start and "
     "target, and is exactly at the target at and after the last iteration; the three stepped kinds are monotone, hold one level per "
     "equal stage of the run, and for curvature >= 1 the accelerating one never runs ahead of, and the decelerating one never lags, the "
     "even one. A sawtooth with equal cycles decays linearly within each cycle and jumps back to the start value at the next. A constant "
     "schedule returns its value at every iteration, a disabled one returns nothing, and a group of schedules returns each value under its "
     "own name and in the requested order.",
     ["inputs", "configurations"], "every iteration, total, start, target, curvature and number of steps within the bounds",
     "the tests sample one or two (total, steps, curvature) combinations; the claims are about all of them, including totals that the number of "
     "steps does not divide and totals below the number of steps",
     ["tools/scheduler.py"], [{"name": "stage index and fraction", "where": "tools/scheduler.py schedule_step*, schedule_sawtooth_decay"},
                              {"name": "dispatch by kind", "where": "tools/scheduler.py Scheduler.from_config / Scheduler.value"}],
     ["return value of the schedule"], "iterations up to 120 (400 thorough), 1-6 steps (10), curvature in [0.25,6], values in [-100,100]")
prop("C02", "Ramps to one, and refusal of incomplete schedule settings",
     "A ramp to one starts at one over its number of steps, never decreases, never exceeds one, ends at one, and equals the ordinary "
     "schedule with that start and target, whichever of the ways of building it is used. Building one with any other target or a "
     "non-positive number of steps is refused. Any other schedule kind is refused exactly when a setting it needs is missing.",
     ["inputs", "configurations"], "every kind, way of building, subset of settings, number of steps, curvature and iteration within the bounds",
     "the tests build two ramps with one setting; the refusal rule quantifies over all subsets of settings and all kinds",
     ["tools/scheduler.py"], [{"name": "factories and validation", "where": "tools/scheduler.py SchedulerConfig.from_defaults, step_to_one, ..."},
                              {"name": "ramp classes", "where": "tools/scheduler.py SchedulerStepToOne and relatives"}],
     ["accepted or ValueError", "schedule values"], "1-6 steps (10), iterations up to 120 (400), curvature in [0.25,6]")
prop("C03", "Material interpolation and its derivative agree and stay in bounds",
     "For both interpolation laws (SIMP and RAMP), stiffness and conductivity lie between the minimum and full value, reach them at zero "
     "and one density, and never decrease with density. The derivative the sensitivities use is the derivative of the interpolation actually assembled, and the "
     "compliance sensitivity built from an element energy is minus two times that energy times the relative derivative, never positive; "
     "all variants (returning or in place) agree.",
     ["inputs", "configurations"], "every density, minimum/full value and penalty in the bounds",
     "tests run a whole optimisation and look at nothing but completion; a wrong sign or factor in a derivative is not noticed",
     ["core/derivatives.py", "fea/composer.py"],
     [{"name": "laws", "where": "fea/composer.py simp_interpolation*, ramp_interpolation*"},
      {"name": "derivatives", "where": "core/derivatives.py dE_drho_*, dC_drho_*"}],
     ["returned interpolation, derivative and sensitivity arrays"],
     "any density in [0,1] (derivatives from 1e-6), integer penalties expanded exactly and symbolic penalties via axioms of pow")
prop("C04", "Heaviside projection keeps [0,1], is monotone, and its derivative is exact",
     "The smooth threshold projection maps [0,1] into [0,1], fixes 0 and 1, never decreases, and never yields an undefined value, for any "
     "sharpness and threshold. The in-place variants give the same numbers as the returning one even when input and output share memory, and the derivative "
     "used in the chain rule is the derivative of the projection.",
     ["inputs", "configurations"], "every density, sharpness in [0.01,500], threshold in [0,1]",
     "no test looks at the projection's values; aliasing and steep sharpness matter only late in a run",
     ["core/projection.py"], [{"name": "projection and derivative", "where": "core/projection.py"}],
     ["projected densities and slopes"], "arrays of 1-3 densities; tanh/cosh axiomatised and refined numerically")
prop("C05", "The optimality-criteria update respects bounds, move limit and its formula",
     "Every density produced by an optimality-criteria update is a number within the density bounds and within the move limit of the "
     "old one. It is the old density times the clipped power of (scaled sensitivity / multiplier), where the scale is the configured percentile or the maximum, smoothed over "
     "iterations. The reported stationarity residual is the largest |sensitivity + multiplier * volume gradient| over elements strictly inside the bounds.",
     ["inputs", "configurations"], "every density, sensitivity (of either sign), bound, move limit, growth limit, earlier scale and volume target",
     "tests run a few iterations on one problem whose sensitivities are all negative and inside ordinary ranges",
     ["core/optimizers/oc.py"], [{"name": "update", "where": "core/optimizers/oc.py OC_Optimizer.rho_update"},
                                 {"name": "clipping", "where": "core/optimizers/oc.py bisection_with_physical_volume"}],
     ["densities handed back", "recorded multiplier, sensitivity, residual"],
     "1-2 design elements of 3-4, at most 2-3 halvings of the multiplier bracket", state=[
         {"name": "running scale", "meaning": "smoothed sensitivity scale carried between iterations", "where": "oc.py running_scale"}])
prop("C06", "The volume multiplier search meets the volume target or stops at a sign change",
     "Where the multiplier search of the optimality-criteria update stops, the volume error is within tolerance, or the constraint changes "
     "sign there, or the multiplier is at the matching end of its bracket; it always stops. The volume error reported is that of the filtered and projected "
     "densities handed back, over the design elements only and weighted by element volume.",
     ["inputs", "configurations"], "every density, volume target, sensitivity, element volume and (monotone) filter response within the bounds",
     "no test checks the search's result; a wrong branch still gives a plausible density",
     ["core/optimizers/oc.py"], [{"name": "bisection", "where": "core/optimizers/oc.py bisection_with_physical_volume"}],
     ["recorded multiplier and volume error", "densities handed back"], "brackets of 2-8 tolerances (64 thorough) with any monotone volume response; full bracket where the volume is constant")
prop("C07", "The logarithmic update respects bounds, move limit and its formula",
     "Every density produced by the logarithmic update is a number within the density bounds and the move limit of the old one, and equals "
     "the old density times exp(-step * clipped gradient), cut to the limits. A positive gradient never adds material, a negative one never removes it, a zero one "
     "changes nothing, and of two equal densities the one with the smaller gradient never gets less.",
     ["inputs", "configurations"], "every density, gradient, step, clip, move limit and bound within the limits",
     "tests run a few iterations on one problem", ["core/optimizers/logmoc.py"],
     [{"name": "update", "where": "core/optimizers/logmoc.py lagrangian_log_update, rho_update"}], ["densities handed back"],
     "1-2 design elements; exp/log axiomatised")
prop("C08", "The logarithmic optimiser's multiplier and Lagrangian gradient are as configured",
     "The volume multiplier stays within its bounds and follows the configured rule (exponential averaging or augmented) from the volume error of the projected design. "
     "The gradient used is the sensitivity plus the augmented coefficient times the volume gradient taken through projection and filter, with the configured "
     "centring, filtering and normalisation. The stationarity residual is the largest such gradient strictly inside the bounds.",
     ["inputs", "configurations", "histories"], "every projected density, sensitivity, volume, gain and bound; first and later updates",
     "tests run the default configuration once; the options and the volume-gradient chain rule are never compared with anything",
     ["core/optimizers/logmoc.py"], [{"name": "multiplier and gradient", "where": "core/optimizers/logmoc.py rho_update"}],
     ["recorded multiplier, gradient, scale, residual"], "2 design elements of 4, a fixed non-symmetric filter, 1-2 updates",
     state=[{"name": "multiplier", "meaning": "carried between iterations", "where": "logmoc.py lambda_v"}])
prop("C09", "One optimisation iteration chains filter, projection, analysis and update",
     "In every iteration the analysis and the update see the current densities filtered and projected with that iteration's settings, and the update gets the "
     "mean over the load cases of the objective's sensitivity carried back through projection and filter. The densities handed back by the update become the design; "
     "elements outside the design stay solid and loaded elements are never designed. What is recorded (objective, energy, largest change, projected densities, displacements) "
     "is what happened.",
     ["inputs", "configurations"], "every response of the analysis, every density handed back and every scheduled value within the bounds",
     "tests run the loop to completion on one problem and compare nothing with the definition of the sensitivity",
     ["core/optimizers/common_density.py", "core/projection.py", "core/derivatives.py"],
     [{"name": "iteration", "where": "core/optimizers/common_density.py _optimize_impl"},
      {"name": "initial densities", "where": "core/optimizers/common_density.py initialize_density"}],
     ["arguments of the analysis and of the update", "densities after each iteration", "recorded values"],
     "5 elements, 1-2 load cases, 2-4 iterations, both interpolation laws, with and without sensitivity filtering and Dirichlet design")
prop("C10", "Every iteration runs once, snapshots are complete, the run ends when it should",
     "However a run is cut into calls, every iteration from one to the configured last happens exactly once and in order, with the same densities and "
     "histories as one uninterrupted run. Every due iteration, the first, and the last of each call are saved with the densities they ended with. The run ends "
     "at the last iteration, or with the convergence test at the first where density change and optimality residual are both within tolerance; it is finalised exactly once "
     "and does nothing afterwards.",
     ["histories", "configurations", "inputs"], "every way of cutting the run, number of recordings, tolerance, residual and density within the bounds",
     "one test compares one chunked run with one full run; early stopping, uneven recording intervals and repeated calls are not tested",
     ["core/optimizers/common_density.py"],
     [{"name": "loop control and snapshots", "where": "core/optimizers/common_density.py _optimize_impl, optimize_steps, _finalize"}],
     ["iteration numbers given to the update", "files in data/", "recorded histories"],
     "1-8 iterations (12 thorough), record_times symbolic up to max_iters+3, call patterns listed per harness",
     state=[{"name": "iteration state", "meaning": "next iteration, end, completed flag", "where": "core/optimizers/common_density.py"}])
prop("C13", "Elastic response obeys equilibrium, supports, compliance and energy",
     "For any densities and loads, the displacement of every load case is zero at the supported freedoms and balances the given (scaled) load at every "
     "other freedom, with element stiffness given by the interpolation law. The compliance is the work of the loads, element energies are the exact strain "
     "energies, and twice their total is the compliance. Load cases do not influence one another, the "
     "task's loads are not altered, and a later evaluation does not depend on an earlier one.",
     ["inputs", "configurations", "histories"], "every load, density, modulus, scale within the bounds, on the listed meshes, for 1-3 load cases and every solver choice",
     "the tests run one optimisation per method and only look at completion; a wrong load case, penalty, scale or energy factor still converges to something",
     ["fea/solver_elastic.py", "fea/composer.py", "fea/solver.py"],
     [{"name": "assembly", "where": "fea/composer.py assemble_stiffness_matrix"}, {"name": "solve and compliance", "where": "fea/solver_elastic.py"},
      {"name": "element energies", "where": "fea/composer.py, fea/solver_elastic.py strain_energy_skfem*"}],
     ["displacements", "compliance per load case", "element energies"],
     "one or two tetrahedra/hexahedra, loads in [-1,1], any element moduli in [0.01,2] or SIMP p=1,3; a linear solve is any vector satisfying the equations exactly")
prop("C14", "Heat response obeys balance, prescribed values and Robin exchange",
     "For any densities, the temperature of every heat load case takes that case's own prescribed value at its own prescribed nodes, and balances conduction "
     "(with the interpolated conductivity), surface exchange and density-dependent exchange at every other node. The reported compliance is T.K.T, the averaged "
     "temperature the sum of nodal temperatures, the heat exchange minus ambient temperature times coefficient times the mean excess over the material interface, and "
     "element energies half k times the squared gradient. The task's data are not altered and a later evaluation does not depend on an earlier one.",
     ["inputs", "configurations", "histories"], "every prescribed and ambient temperature, coefficient, conductivity or density within the bounds, on the listed meshes, 1-3 load cases",
     "the one heat test runs a single iteration with one load case; wrong nodal averaging, load cases mixed up or a lost exchange term pass it",
     ["fea/solver_heat.py", "mesh/task_heat.py", "fea/composer.py"],
     [{"name": "assembly and solve", "where": "fea/solver_heat.py solve_multi_load, solve_heat_system_multi"},
      {"name": "surface exchange", "where": "mesh/task_heat.py assemble_surface_robin"},
      {"name": "objectives and energies", "where": "fea/solver_heat.py FEM_SimpLinearHeatConduction"}],
     ["temperatures", "objective per load case", "element energies"],
     "one or two tetrahedra/hexahedra, density-dependent exchange for a few fixed density fields; a linear solve is any vector satisfying the equations exactly")
prop("C24", "Heat sensitivities are the derivative of the reported compliance",
     "For a heat task with the compliance objective and either interpolation law, the sensitivity of every element in every load case is minus T.(dK/drho).T plus the "
     "explicit change of the density-dependent exchange of every Robin boundary, for any temperature field. Where prescribed temperatures are "
     "zero this is the total derivative of the compliance the task reports.",
     ["inputs", "configurations"], "every temperature field, coefficient and ambient temperature within the bounds, both laws, 0-2 exchange coefficients",
     "an optimiser fed a wrong gradient still terminates; nothing in the tests compares a sensitivity with the objective",
     ["fea/solver_heat.py", "core/derivatives.py"],
     [{"name": "sensitivity", "where": "fea/solver_heat.py compliance_sensitivity_multi_load, _robin_compliance_explicit_grad_"},
      {"name": "nodal averaging and its transpose", "where": "fea/solver_heat.py _element_to_nodal_average, _nodal_gradient_to_element_gradient"}],
     ["sensitivity per element and load case"],
     "one or two tetrahedra/hexahedra, a few fixed density fields, p=3, q=3; known findings: nonzero prescribed temperatures, averaged_temp, heat_exchange")
prop("C15", "Element volumes are exact and orientation repair makes elements valid",
     "The volume of a tetrahedron, and of a hexahedron that is a parallelepiped or a prism with planar faces, equals its geometric volume, element by "
     "element; an inverted tetrahedron is refused. Orientation repair leaves positively oriented elements alone and turns the others "
     "into positively oriented ones with the same corners, edges and faces.",
     ["inputs"], "every vertex position in [-4,4]^3 and either handedness",
     "tests use one structured box mesh", ["fea/composer.py", "mesh/utils.py"],
     [{"name": "volumes", "where": "fea/composer.py get_elements_volume"}, {"name": "orientation", "where": "mesh/utils.py fix_elements_orientation"}],
     ["volumes", "connectivity"], "one or two elements with arbitrary vertices")
prop("C16", "Element lookup and adjacency answer for the mesh they are asked about",
     "Looking up elements by nodes returns exactly the elements containing one of the nodes, each once, and answers for the mesh given even when other meshes "
     "were looked up and discarded before. Element adjacency (by shared node, by shared face, plain and fast) matches the connectivity exactly, and the neighbours of "
     "a set exclude the set.",
     ["inputs", "histories"], "every node query, every connectivity of an element, every order of creating, keeping and dropping meshes within the bounds",
     "tests build one mesh per process; cache and identity reuse need several meshes over time", ["mesh/utils.py", "fea/composer.py"],
     [{"name": "lookup cache", "where": "mesh/utils.py get_elements_by_nodes"}, {"name": "adjacency", "where": "mesh/utils.py, fea/composer.py adjacency_matrix"}],
     ["returned element numbers"], "3-4 tetrahedra over at most 8 nodes, at most 3 meshes",
     state=[{"name": "lookup cache", "meaning": "node to elements table kept per mesh", "where": "mesh/utils.py"}])
prop("C19", "Recorded histories keep every value and survive export and import",
     "A recorded history returns the fed values in order (or the minimum, mean, maximum and deviation of fed arrays), unaffected by later changes to the fed "
     "array. Exporting and importing keeps data, aggregation kind, registered-but-empty quantities and presentation settings, and recording "
     "continues after either.",
     ["inputs", "histories"], "every value and every order of feeding, exporting and importing within the bounds",
     "tests only compare two runs with each other", ["tools/history.py"],
     [{"name": "series and collection", "where": "tools/history.py"}], ["history data, latest values"],
     "1-3 entries (8 thorough), arrays of 2-4 values")
prop("C20", "Configurations and checkpoints survive on disk and a restart continues the run",
     "A configuration written by an optimiser and read back is equal to the original, its schedules and solver options included. A restarted run takes the densities of the "
     "checkpoint asked for, or of the highest-numbered one whatever other files are there, continues with the following iteration up to the configured last, keeps earlier "
     "checkpoints and histories, and a run without restart ignores leftovers. Command-line arguments reach the configuration fields of their names.",
     ["histories", "configurations", "crash_points"], "every setting, folder listing, interruption point and density within the bounds",
     "no test restarts, reads a configuration or uses the command line", ["core/optimizers/common_density.py", "core/misc.py", "tools/history.py"],
     [{"name": "export and import", "where": "core/optimizers/common_density.py DensityMethodConfig.export/import_from"},
      {"name": "checkpoint choice", "where": "core/misc.py find_latest_iter_file"},
      {"name": "restart", "where": "core/optimizers/common_density.py initialize_density"}],
     ["imported configuration", "initial densities, first and last iteration", "files in data/"],
     "listings of at most 13 files, runs of at most 5 iterations (6 thorough), both optimisers; equality with an uninterrupted run is not claimed (adaptive scales are not saved)",
     state=[{"name": "checkpoints", "meaning": "data/<iteration>-rho.npz and histories.npz", "where": "run folder"}])

prop("C11", "The spatial filter is a local average and its gradient the exact transpose",
     "Each filtered density is a weighted mean of the design densities within the radius: weights are never negative, sum to one, do not grow with "
     "distance, are zero beyond the radius, and elements outside the design neither change nor influence others. The sensitivity filter is the transpose of the "
     "density filter (zero outside the design), so chained sensitivities are exact. The given arrays are not altered, and changing the radius gives the filter of that radius.",
     ["inputs", "configurations"], "every density, sensitivity, centre position, radius and design mask within the bounds",
     "the tests never look at a filtered value; an unnormalised row, a missing transpose or a stale radius still converges to a design",
     ["filters/spacial.py"],
     [{"name": "filter matrix", "where": "filters/spacial.py build_filter_matrix, make_kernel"},
      {"name": "application, transpose, radius change", "where": "filters/spacial.py SpacialFilter"}],
     ["filtered densities and sensitivities"], "2-3 elements with symbolic centres on a line; block, row, graded and tetrahedral meshes of 2-8 elements with any densities")
prop("C12", "The Helmholtz filter solves its equation and keeps uniform and solid regions",
     "The filtered density of an element is the element mean of the solution of (M + r^2 K) u = M a, where a is the volume-weighted nodal average of the densities and "
     "nodes of elements outside the design are held at one; those elements end up solid and a uniform density stays uniform. Sensitivities are smoothed with the "
     "same equation and never positive. The given arrays are not altered, and changing the radius gives the filter of that radius.",
     ["inputs", "configurations"], "every density and sensitivity, the listed meshes, radii, volumes and design masks",
     "the tests only run a whole optimisation with the filter; a wrong radius power, averaging weight or fixed node set is invisible there",
     ["filters/helmholtz_filter_nodal.py"],
     [{"name": "equation and averaging", "where": "filters/helmholtz_filter_nodal.py compute_filtered_rho, prepare_helmholtz_filter"},
      {"name": "application, radius change", "where": "filters/helmholtz_filter_nodal.py HelmholtzFilterNodal"}],
     ["filtered densities and sensitivities"], "2-3 tetrahedra, hexahedra or quadrilaterals (triangles thorough), 2 radii (4 thorough); known finding: the gradient is not the exact transpose")
prop("C17", "Design and boundary sets are derived consistently from the given regions",
     "For any assignment of regions, every element is exactly one of design or fixed; design elements are those painted or given, minus those touching a supported or "
     "loaded region unless asked to keep them. Supported freedoms, prescribed values, loads, exchange boundaries and free unknowns are those of the named regions, in the "
     "given order, whichever constructor (regions or mesh tags) is used; an empty design is refused. Exported analysis conditions mark exactly those sets.",
     ["inputs", "configurations"], "every subset of elements as the design, every combination of regions, options and constructors in the bounds",
     "the tests use one region layout per task; lists of regions, tags, components and exclusion options combine in ways none of them builds",
     ["mesh/task_common.py", "mesh/task_elastic.py", "mesh/task_heat.py", "mesh/utils.py"],
     [{"name": "partition", "where": "mesh/task_common.py FEMDomain.from_nodes / from_facets, exlude_dirichlet_from_design"},
      {"name": "constructors", "where": "mesh/task_elastic.py, mesh/task_heat.py from_facets / from_mesh_tags"},
      {"name": "export", "where": "mesh/task_common.py export_analysis_condition_on_mesh"}],
     ["task attributes", "exported marks"], "meshes of 3-4 elements, up to 2 supports, 2 loads and 2 exchange boundaries, every painted subset")
prop("C18", "Loads and fluxes carry the given total, spread evenly over the given faces",
     "A force of any value on a region acts only in its direction, is distributed as a uniform traction over the region's faces and adds up to the given value; a heat flux "
     "adds up to its density times the area. Several loads give one vector each, in order, whatever their directions, and malformed directions or mismatched lists are refused. A task's force is the loads of its cases, and replacing it keeps the number of cases.",
     ["inputs", "configurations"], "every load and flux value, every direction, region and order within the bounds",
     "tests apply one load in one direction and never add up its components",
     ["mesh/task_elastic.py", "mesh/task_heat.py"],
     [{"name": "load assembly", "where": "mesh/task_elastic.py assemble_surface_forces"}, {"name": "flux assembly", "where": "mesh/task_heat.py assemble_surface_neumann"},
      {"name": "force property", "where": "mesh/task_elastic.py LinearElasticity.force"}],
     ["load vectors"], "tetrahedral and hexahedral meshes of 2-4 elements, 1-2 regions, loads in [-100,100]")
prop("C21", "Section timing adds up, nests and separates self time",
     "For any nesting of timed sections and any clock, count, total, average and maximum of every section are those of the intervals spent in it, also when a section "
     "ends in an exception, which is passed on. Hierarchical names separate the same section under different parents; self time excludes direct children and is never "
     "negative. Summaries are ordered as asked, moving averages are means of what was fed, and a reset forgets everything.",
     ["inputs", "histories"], "every non-decreasing clock and every nesting program within the bounds",
     "the tests time real sleeps with two sections", ["tools/timer.py"],
     [{"name": "sections and statistics", "where": "tools/timer.py SectionTimer"}],
     ["statistics, order, reports"], "programs of at most 4 sections nested at most 3 deep, any durations in [0,100]")
prop("C22", "The requested linear solver is used as configured and failures are reported",
     "For any system size, the requested solver is the one used, once, with the configured tolerance, iteration limit and PETSc options; automatic selection is direct "
     "below 1000 unknowns and AMG-preconditioned above, falling back to the direct solver. Any other failure, unknown name or unsupported combination is reported with nothing stored. "
     "Several load cases share one factorisation or solver object, and their solutions and compliances are handed back case by case.",
     ["inputs", "configurations", "fault_sequences"] , "every size, tolerance, iteration limit, solver name, failing call and PETSc option in the bounds",
     "the tests use one solver on one small size and never let one fail; PETSc is not installed here",
     ["fea/solver_elastic.py", "fea/solver_heat.py", "fea/solver.py", "fea/solver_petsc.py"],
     [{"name": "selection and fallback", "where": "fea/solver_elastic.py solve_u, solve_multi_load"},
      {"name": "PETSc options", "where": "fea/solver_petsc.py, PETScOptions"}],
     ["recorded solver calls, results, errors"],
     "solvers are recording stand-ins; sizes 3 to 2,000,000 (symbolic), 1-2 load cases; whether an iterative solver converges is not decided")

prop("C23", "Scaling a task changes units only and is undone by the inverse factors",
     "Scaling by a length factor L and a force factor F multiplies every coordinate by L, every element volume by the cube of L and every load by F, and changes neither "
     "connectivity, quadrature, element type, number of load cases nor design and support sets; scaling by the inverse factors restores the task. An optimiser with "
     "scaling gives the task unit largest extent with the loads divided by 1e5, and its unscale undoes it; without scaling it leaves the task alone.",
     ["inputs", "configurations"], "every box size, length factor, force factor and load within the bounds, both element types, 1-2 load cases",
     "no test turns scaling on; a stale volume or quadrature only skews the result",
     ["mesh/task_common.py", "mesh/task_elastic.py", "core/optimizers/common_density.py"],
     [{"name": "scaling a task", "where": "mesh/task_common.py FEMDomain.scale"}, {"name": "choice of factors", "where": "core/optimizers/common_density.py scale / unscale"}],
     ["mesh coordinates, volumes, loads, quadrature"], "box meshes of 4 hexahedra or 18 tetrahedra with any edge lengths in [0.1,15], L in [0.1,10], F in [1e-3,1e3]; known finding: heat tasks cannot be scaled")

NA = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, skfem'", "checks": [], "not_applicable": [],
         "notes": "All checks: check.py <id>; see DESIGN.md. Hooks: none."}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        assert os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")), p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']}",
                            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p['id']}",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": SE, "level": p["level"],
                            "level_note": p["note"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    import re
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = len([x for x in re.split(r"\.\s+(?=[A-Z])", p["statement"]) if x])
        assert n <= 3, (p["id"], n)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(ROOT, "properties.jsonl")):
            jsonschema.validate(json.loads(line), s)
        print("schema ok")
    except ImportError:
        print("no jsonschema here")


if __name__ == "__main__":
    main()

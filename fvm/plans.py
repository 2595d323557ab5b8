"""What every check runs (counts per tier), what it must have observed, and its texts for MANIFEST and evidence."""

COMMON = [
    "the oracle (fvm/oracle.py, numpy only) and the floating-point tolerances in the check",
    "TensorFlow, numpy, scipy, meshio, gmsh and pyDOE of /opt/venv behave as documented",
    "held on the executions observed, which the coverage counts describe; nothing is said about others",
]
PLANS = {}


def plan(pid, quick, thorough, rule, note, min=None, technique="runtime monitor with reference-model oracle", level="exploration", assumptions=()):
    PLANS[pid] = {
        "plan": {"quick": quick, "thorough": thorough},
        "min": min or {},
        "rule": rule,
        "level": level,
        "technique": technique,
        "level_note": note,
        "assumptions": list(assumptions) + COMMON,
    }


plan(
    "P01",
    [["grid", 48], ["large", 16], ["vtk", 10], ["history", 24], ["scales", 24]],
    [["grid", 480], ["large", 160], ["vtk", 60], ["history", 240], ["scales", 240]],
    "nx x ny meshes (every nx, ny <= 12, and large ones) over rectangles of many scales, offsets and argument types; "
    "distinct = distinct (nx, ny, limits); the oracle places every vertex in the integer grid and counts boxes.",
    "Held on the meshes generated; every box of every observed mesh is accounted for.",
    {"quick": {"cells_observed": 5000, "scales_observed": 96}},
)
plan(
    "P02",
    [["sizes", 48], ["large", 16], ["history", 24], ["scales", 24]],
    [["sizes", 240], ["large", 160], ["history", 200], ["scales", 240]],
    "every number of boundary points 4..580 and some thousands, over random rectangles; distinct = (n, limits); "
    "the oracle checks side, range and one-per-stratum of every point.",
    "Held on the boundary samples observed.",
    {"quick": {"points_observed": 20000, "scales_observed": 96}},
)
plan(
    "P03",
    [["meshes", 64], ["large", 8], ["single", 32], ["history", 24], ["shipped", 6], ["offset", 16], ["hanging", 16], ["huge", 4], ["scales", 15]],
    [["meshes", 640], ["large", 40], ["single", 320], ["history", 240], ["shipped", 6], ["offset", 160], ["hanging", 160], ["huge", 24], ["scales", 150]],
    "random conforming quadrilateral meshes (8 shapes, renumbered, cells listed from any vertex in either orientation) written as "
    "Medit files of either dimension and section order, plus the shipped meshes; distinct = (style, size, dimension, order, first point).",
    "Held on the mesh files read; each cell is matched with the file's.",
    {"quick": {"offset_observed": 40, "cells_observed": 5000, "huge_observed": 45000, "hanging_observed": 100, "scales_observed": 200}},
)
plan(
    "P04",
    [["meshes", 64], ["levels", 20], ["sparse", 32], ["history", 24], ["offset", 16], ["tiny", 16]],
    [["meshes", 640], ["levels", 80], ["sparse", 320], ["history", 240], ["offset", 160], ["tiny", 160]],
    "meshes as for P03 with 1..many tags (also arbitrary, interior and partial edge sets), both samplings, every level 0..9; "
    "distinct = (style, sampling, order, dimension, level, edges, tags).",
    "Held on the mesh files read; every point is matched with an edge of its tag.",
    {"quick": {"offset_observed": 30, "tiny_observed": 30, "points_observed": 20000}},
)
plan(
    "P05",
    [["orders", 48], ["spaces", 16], ["history", 24], ["high", 9]],
    [["orders", 98], ["spaces", 40], ["history", 240], ["high", 36]],
    "every order from 3 up, both types; all moments up to the exactness degree in both variables; distinct = (order, type).",
    "Complete over the orders listed; higher orders are not observed.",
    {"quick": {"moments_observed": 100000, "overwritten": 140}},
)
plan(
    "P06",
    [["orders", 36], ["history", 32], ["spaces", 40], ["high", 6], ["grids", 10]],
    [["orders", 60], ["history", 320], ["spaces", 400], ["high", 12], ["grids", 100]],
    "every order from 2 up for every family, at random, corner, edge and near-corner points; distinct = (family, order[, quadrature]).",
    "Complete over the orders listed, sampled over the points.",
    {"quick": {"values_observed": 1000000, "grids_observed": 50, "hairs_observed": 300, "boundary_values_observed": 100000}},
)
plan(
    "P07",
    [["orders", 30], ["self", 80], ["history", 32], ["spaces", 40], ["high", 4], ["grids", 6]],
    [["orders", 48], ["self", 800], ["history", 320], ["spaces", 400], ["high", 8], ["grids", 60]],
    "as P06 for the five derivatives; 'self' differentiates the interpolant of observed values without the reference family.",
    "Complete over the orders listed, sampled over the points.",
    {"quick": {"values_observed": 1000000, "grids_observed": 30, "hairs_observed": 300}},
)
plan(
    "P08",
    [["shapes", 96], ["mesh", 24], ["maps", 32], ["history", 24], ["alike", 32], ["scales", 24], ["remote", 24]],
    [["shapes", 960], ["mesh", 160], ["maps", 320], ["history", 240], ["alike", 320], ["scales", 240], ["remote", 240]],
    "convex cells of 10 shapes from every start vertex and in both orientations, both maps, both rules; distinct = (map, rule, order, shape, start, orientation).",
    "Held on the cells observed: area, first and second moments, and every point and weight.",
    {"quick": {"remote_observed": 190, "alike_observed": 300, "cells_observed": 500, "scaled_observed": 140}},
)
plan(
    "P09",
    [["shapes", 96], ["orders", 10], ["maps", 48], ["second", 32], ["history", 24], ["alike", 32], ["scales", 24], ["remote", 24]],
    [["shapes", 960], ["orders", 12], ["maps", 480], ["second", 320], ["history", 240], ["alike", 320], ["scales", 240], ["remote", 240]],
    "cells as for P08 with every family; chain-rule oracle, plus identities that need no reference (bubbles: divergence and integration by parts); "
    "second derivatives for the affine map only.",
    "Held on the cells observed.",
    {"quick": {"remote_observed": 140, "alike_observed": 200, "scaled_observed": 110, "values_observed": 100000, "divergence_identities": 500, "second_derivatives": 1000}},
)
plan(
    "P10",
    [["scalar", 80], ["vector", 48], ["exact", 64], ["history", 24], ["alike", 32], ["scales", 24], ["remote", 24], ["single", 16], ["many", 4]],
    [["scalar", 800], ["vector", 480], ["exact", 640], ["history", 240], ["alike", 320], ["scales", 240], ["remote", 240], ["single", 160], ["many", 24]],
    "random cells, families, rules and forcing functions (smooth, polynomial, discontinuous, constant, zero, large, tiny); the forcing "
    "function itself records where it is evaluated; distinct = (family, order, rule, mesh, forcing).",
    "Held on the integrals observed; the exact kind compares with a much finer rule.",
    {"quick": {"many_observed": 1200, "remote_observed": 120, "single_observed": 48, "alike_observed": 400, "scaled_observed": 500, "integrals_observed": 5000, "vector_integrals": 200, "evaluations_observed": 5000}},
)
plan(
    "P11",
    [["problems", 48], ["large", 8], ["internal", 24], ["history", 12], ["alike", 12], ["huge", 4], ["scales", 12], ["tables", 8]],
    [["problems", 480], ["large", 64], ["internal", 240], ["history", 120], ["alike", 120], ["huge", 24], ["scales", 120], ["tables", 80]],
    "random spaces (meshes, families, orders, rules, maps) in both precisions, up to 144 cells; distinct = the description of the problem.",
    "Held on the tensors observed: every entry is compared with the reference model.",
    {"quick": {"scales_observed": 48, "tables_observed": 8, "huge_observed": 2000, "deep_observed": 20000, "alike_observed": 100, "cells_observed": 1500, "parameter_sets": 40}},
)
plan(
    "P12",
    [["scalar", 64], ["vector", 48], ["meshes", 40], ["history", 24], ["pieces", 24], ["near", 24], ["sizes", 18]],
    [["scalar", 640], ["vector", 480], ["meshes", 400], ["history", 240], ["pieces", 240], ["near", 240], ["sizes", 180]],
    "random boundary dictionaries (tags of several integer types, shared corners, 2-D and 3-D points) with one function per tag, and sampled "
    "meshes; pairs are compared as multisets; distinct = (tags, number of points[, components]).",
    "Held on the pairs observed.",
    {"quick": {"sizes_observed": 1500, "near_observed": 300, "pairs_observed": 20000, "vector_calls": 200, "pieces_observed": 10000}},
)
plan(
    "P13",
    [["meshes", 84], ["cells", 48], ["generated", 48], ["scales", 24], ["alike", 48], ["large", 12]],
    [["meshes", 840], ["cells", 480], ["generated", 480], ["scales", 240], ["alike", 480], ["large", 96]],
    "random polynomial solutions of all six supported equations on random meshes, with the quadrature order that makes the rule exact; "
    "distinct = (equation, family, order, degree, rule, map, mesh).",
    "Held on the solutions observed; test function families that vanish on the cell boundary only.",
    {"quick": {"alike_observed": 180, "large_observed": 12, "exact_solutions_observed": 500, "scaled_observed": 70, "other_functions_observed": 500}},
)
plan(
    "P14",
    [["random", 48], ["terms", 8], ["local", 24], ["history", 24], ["extreme", 12]],
    [["random", 480], ["terms", 40], ["local", 240], ["history", 240], ["extreme", 240]],
    "random tensors of many sizes in both precisions with random, zero and negative coefficients; single terms; locality and permutation; "
    "distinct = (equation, precision, sizes, parameter type).",
    "Held on the loss evaluations observed.",
    {"quick": {"losses_observed": 3000, "locality_observed": 200, "extremes_observed": 300}},
)
plan(
    "P15",
    [["steps", 48], ["default", 8], ["many", 8], ["history", 8], ["perfect", 12], ["infinite", 12], ["huge", 4]],
    [["steps", 480], ["default", 40], ["many", 48], ["history", 96], ["perfect", 96], ["infinite", 96], ["huge", 32]],
    "training steps of the four models on random problems, weights reset and coefficients and boundary weight changed between steps; "
    "the losses are recomputed from the weights read before the step by a numpy network with forward-mode derivatives; "
    "distinct = the description of model and problem.",
    "Held on the training steps observed; single precision is compared up to rounding.",
    {"quick": {"huge_observed": 4, "undefined_observed": 28, "steps_observed": 350, "losses_observed": 1000, "perfect_observed": 48}},
)
plan(
    "P16",
    [["steps", 48], ["long", 8], ["history", 12], ["perfect", 12], ["far", 6], ["later", 16]],
    [["steps", 480], ["long", 64], ["history", 120], ["perfect", 96], ["far", 24], ["later", 96]],
    "training steps of the four models under every form of the schedule; every weight after a step is compared with Adam applied to the "
    "weights read before it, with gradients from an independent network and loss; distinct = the description of model and problem.",
    "Held on the training steps observed; in single precision entries whose gradient is lost in rounding are compared loosely.",
    {"quick": {"far_steps": 1800, "later_steps": 300, "steps_observed": 600, "moved_weights": 20000, "perfect_observed": 30}},
)
plan(
    "P17",
    [["boundary", 36], ["training", 12], ["forms", 10], ["data", 4], ["attention", 8], ["counts", 8], ["far", 3]],
    [["boundary", 360], ["training", 120], ["forms", 100], ["data", 32], ["attention", 80], ["counts", 64], ["far", 12]],
    "constraint functions of four forms, and five more that are not affine in the output of the network, on random rectangles, random and trained weights of many sizes; predictions observed on sides and corners "
    "and inside; the training of the constrained network is followed as in P15 and P16; distinct = the description of model and problem.",
    "Held on the states observed.",
    {"quick": {"far_steps": 900, "forms_observed": 50, "counts_observed": 56, "attention_observed": 30, "boundary_predictions": 4000, "steps_observed": 60, "independence_observed": 4}},
)
plan(
    "P18",
    [["steps", 36], ["start", 6], ["shared", 6], ["far", 4], ["same", 12]],
    [["steps", 360], ["start", 48], ["shared", 60], ["far", 18], ["same", 120]],
    "one to four unknown constants in two equations (a user's loss included), start values of every numeric type, two models from one dictionary; "
    "every step is compared with Adam on reference gradients and every report with the value read afterwards.",
    "Held on the training steps observed.",
    {"quick": {"same_start_steps": 72, "far_steps": 1200, "parameter_reports": 300, "steps_observed": 300, "starts_observed": 30}},
)
plan(
    "P19",
    [["steps", 32], ["roles", 8], ["constant", 8], ["outputs", 9], ["far", 3], ["small", 6], ["sensors", 4]],
    [["steps", 320], ["roles", 64], ["constant", 64], ["outputs", 60], ["far", 12], ["small", 60], ["sensors", 40]],
    "training steps of the two-output model against the reference network; one output moved at a time; a constant coefficient against the forward equation.",
    "Held on the training steps observed.",
    {"quick": {"sensors_observed": 12000, "far_steps": 900, "small_observed": 48, "outputs_observed": 30, "steps_observed": 200, "roles_observed": 40, "constant_coefficients": 20}},
)
plan(
    "P20",
    [["internal", 40], ["external", 40], ["shipped", 2], ["long", 8], ["same", 12]],
    [["internal", 400], ["external", 400], ["shipped", 8], ["long", 60], ["same", 120]],
    "random rectangles, solutions, files and numbers of sensors in both precisions; the solution function records where it is asked; "
    "sampled lines are looked up in the file; distinct = limits or file.",
    "Held on the samples observed; checks that all lines or all parts of a file are drawn are statistical, with a chance of a false alarm below 1e-10.",
    {"quick": {"sensors_observed": 10000, "many_sensors": 5000, "coverage_observed": 5}},
)
plan(
    "P21",
    [["random", 40], ["special", 24], ["network", 16], ["layouts", 32], ["large", 6], ["undefined", 8]],
    [["random", 800], ["special", 400], ["network", 200], ["layouts", 320], ["large", 40], ["undefined", 80]],
    "arrays of many lengths, shapes, layouts, types and scales against exact summation; distinct = (length, scale).",
    "Held on the arrays observed.",
    {"quick": {"measures_observed": 6000, "layouts_observed": 400, "undefined_observed": 8000}},
)
plan(
    "P22",
    [["external", 40], ["internal", 16], ["grid", 24], ["history", 12], ["reuse", 16], ["large", 4]],
    [["external", 400], ["internal", 120], ["grid", 240], ["history", 120], ["reuse", 160], ["large", 24]],
    "random meshes read and generated, random solutions of many scales and columns; files are parsed by an independent reader; distinct = mesh.",
    "Held on the files observed.",
    {"quick": {"values_observed": 10000, "test_points": 10000, "largest_files": 1, "reuses_observed": 60, "isolated_observed": 12}},
)
plan(
    "P23",
    [["geometry", 12], ["space", 8], ["index", 12], ["dtype", 4], ["solution", 16], ["files", 4]],
    [["geometry", 60], ["space", 40], ["index", 80], ["dtype", 8], ["solution", 120], ["files", 16]],
    "names near the valid ones, orders and indices around the limits, types near the valid ones, solutions of near-fitting shapes; "
    "every one must raise, and valid use must still work afterwards; distinct = what was rejected.",
    "Complete over the listed requests; the space of invalid requests is sampled.",
    {"quick": {"files_rejected": 120, "rejections_expected": 1500, "indices_rejected": 500}},
    technique="runtime monitor: rejection oracle over hostile inputs",
)
plan(
    "P24",
    [["copies", 24], ["inputs", 16], ["shared", 8], ["interleaved", 8], ["imports", 16], ["process", 8], ["domain", 12], ["factory", 12], ["class", 8]],
    [["copies", 240], ["inputs", 160], ["shared", 80], ["interleaved", 96], ["imports", 80], ["process", 40], ["domain", 120], ["factory", 120], ["class", 80]],
    "snapshots of all results of spaces, handlers and models before and after other objects work, arrays handed out are overwritten, "
    "arguments are shared or changed; whole pipelines interleaved at random against alone; random import orders; distinct = problem, order of turns or order of imports.",
    "Held on the histories observed (their order is drawn at random).",
    {"quick": {"class_predictions": 200, "factories_observed": 72, "settings_compared": 200, "domains_observed": 12, "test_points_observed": 2000, "snapshots_compared": 5000, "turns_observed": 100, "import_orders": 60, "inputs_compared": 100}},
    technique="runtime monitor: snapshot comparison over interleaved histories",
)
plan(
    "P25",
    [["repeat", 24], ["history", 8], ["process", 8]],
    [["repeat", 240], ["history", 64], ["process", 64]],
    "whole runs (mesh, boundary points, tensors, sensors, initial weights, losses, prediction) digested and repeated after other use of the "
    "generators, in the same and in a fresh process with another hash seed; distinct = description of the run.",
    "Held on the runs repeated; TensorFlow works with one thread here.",
    {"quick": {"digests_compared": 400, "seeds_told_apart": 30, "processes_observed": 8}},
    technique="runtime monitor: replay and digest comparison",
)
plan(
    "P26",
    [["config", 16], ["resume", 16], ["kill", 8]],
    [["config", 160], ["resume", 160], ["kill", 80]],
    "models of all kinds rebuilt from their configuration over three generations; a state saved before every step and restored into fresh "
    "and used models; training processes killed (SIGKILL) before, during and after saving and resumed from what is on disk, compared bit by bit "
    "with a run that is not interrupted; distinct = description of the model, or kind, kill and restart points.",
    "Held on the rebuilt, restored and killed runs observed. TensorFlow's own checkpoint writing is part of what runs.",
    {"quick": {"states_compared": 24, "losses_compared": 250, "processes_killed": 16, "resumes_observed": 60}},
    technique="runtime monitor: crash injection and bitwise comparison with an uninterrupted run",
    level="fault_enumeration",
)
plan(
    "P27",
    [["user", 8], ["train", 8], ["files", 16], ["places", 4]],
    [["user", 80], ["train", 80], ["files", 160], ["places", 40]],
    "a fault at each use of each seam that an operation is seen to use (library calls, opening files, single writes, evaluations of the user's "
    "functions; long runs of one seam are sampled with first and last), then the operation repeated; a world of other objects is compared throughout; "
    "distinct = (operation, seam, position).",
    "Held for the faults injected; the failing object is required to work again, not to be unchanged.",
    {"quick": {"faults_injected": 700, "worlds_compared": 200}},
    technique="runtime monitor: fault injection at observed seams, comparison with a run without faults",
    level="fault_enumeration",
)
plan(
    "P28",
    [["utils", 64], ["history", 8], ["mesh", 24], ["residual", 24], ["large", 16], ["special", 16], ["many", 3]],
    [["utils", 640], ["history", 80], ["mesh", 240], ["residual", 240], ["large", 64], ["special", 160], ["many", 18]],
    "random series, fields, meshes, tags (up to 40), names; what each figure shows is read from its artists at the moment it is saved, and the file "
    "it is saved to is looked at; distinct = routine and data.",
    "Held on the plots observed; what the drawing library makes of its artists is trusted.",
    {"quick": {"figures_observed": 150, "values_observed": 8000, "cells_observed": 200, "long_curves_observed": 8, "many_cells_observed": 1300}},
    technique="runtime monitor: interposed figure saving, oracle over drawn artists",
)
plan(
    "P29",
    [["data", 24], ["model", 36], ["mixed", 8], ["attention", 8], ["large", 6], ["cells", 8]],
    [["data", 240], ["model", 360], ["mixed", 80], ["attention", 80], ["large", 60], ["cells", 80]],
    "data with low bits that single precision loses, in both precisions and all models; bitwise comparison of tensors, predictions and losses "
    "compared to 1e-14 and 1e-12 with a double-precision reference; distinct = description of problem and model.",
    "Held on the data, predictions and losses observed.",
    {"quick": {"plain_numbers": 20, "large_observed": 6, "many_cells_observed": 600, "attention_observed": 8, "values_observed": 20000, "beyond_single": 5000, "predictions_observed": 2000, "close_points_observed": 500}},
)
plan(
    "P30",
    [["single", 16], ["zero", 4], ["diverged", 2], ["long", 2], ["sequence", 4], ["parallel", 8], ["tuner", 10]],
    [["single", 240], ["zero", 24], ["diverged", 16], ["long", 8], ["sequence", 60], ["parallel", 80], ["tuner", 100]],
    "trials that draw inside the ranges they are asked for (with the ends), one after another, in parallel threads that race for the output folder, diverging, and in studies "
    "with pretended accelerators; what each trial builds and trains is recorded and compared with the reference discretisation and with an independently built and trained model; "
    "distinct = suggested parameters.",
    "Held on the trials observed. optuna itself is not installed: a stand-in with its documented interface runs the trials.",
    {"quick": {"diverged_observed": 4, "objectives_observed": 55, "trainings_replayed": 45, "trials_in_parallel": 16, "folder_races": 8, "studies_observed": 10, "devices_observed": 4}},
    technique="runtime monitor: recorded trials compared with reference model and replay, forced folder races",
)
plan(
    "P33",
    [["random", 72], ["own", 12], ["subsets", 36], ["history", 16], ["large", 4], ["attention", 16], ["again", 12], ["counts", 16], ["deep", 8]],
    [["random", 720], ["own", 120], ["subsets", 360], ["history", 160], ["large", 40], ["attention", 160], ["again", 96], ["counts", 128], ["deep", 80]],
    "lists of 0 to 47 hidden layers of 1 to 1300 neurons, nine activations (by name and as functions) and six functions of the user's own, four models, both precisions, random weights; "
    "predictions for sets of points of many sizes, parts of them, other orders and batches, against a numpy network; distinct = description of the model.",
    "Held on the networks and points observed; predictions in different company are compared up to rounding.",
    {"quick": {"deep_observed": 8, "own_activations_observed": 24, "counts_observed": 128, "attention_observed": 60, "repetitions_observed": 500, "predictions_observed": 50000, "networks_observed": 72, "subsets_observed": 350, "histories_observed": 16}},
)
plan(
    "P32",
    [["permute", 30], ["vertices", 42], ["split", 30], ["graded", 12], ["move", 42], ["linear", 30], ["files", 20], ["swap", 30], ["model", 12], ["nearly", 24]],
    [["permute", 300], ["vertices", 420], ["split", 300], ["graded", 120], ["move", 420], ["linear", 300], ["files", 200], ["swap", 300], ["model", 120], ["nearly", 240]],
    "pairs of descriptions of one random problem (cells permuted, listed from other vertices, in two spaces, next to cells of very different size, twice, moved, turned, mirrored, scaled, in two files, with x and y "
    "swapped; solution and forcing scaled and added), both run through the code under test; distinct = (equation, mesh, order, family, map).",
    "Held on the pairs observed. No reference discretisation takes part, so this is independent of the oracle of the other checks.",
    {"quick": {"graded_observed": 48, "nearly_observed": 100, "relations_observed": 2500, "files_observed": 40, "model_steps_observed": 12}},
    technique="runtime monitor: metamorphic relations between recorded runs",
)
plan(
    "P31",
    [["linear", 12], ["network", 12], ["constant", 12], ["decrease", 24], ["long", 8], ["perfect", 16], ["units", 16], ["fitted", 8]],
    [["linear", 96], ["network", 96], ["constant", 96], ["decrease", 240], ["long", 48], ["perfect", 96], ["units", 160], ["fitted", 80]],
    "problems whose solution is linear or a network of the trained size, with the forcing in closed form; training from random starts and from near the solution; "
    "bounded progress: factors reached in a fixed number of steps, with a wide margin; distinct = problem.",
    "Bounded progress only: an unbounded 'converges' is out of reach of a finite run. The factors are at least several times what was measured.",
    {"quick": {"units_observed": 16, "fitted_observed": 16, "steps_observed": 20000, "convergences_observed": 24, "constants_observed": 12, "decreases_observed": 24, "long_runs_observed": 8, "perfect_observed": 60}},
    technique="runtime monitor: bounded-progress oracle over training histories",
)
plan(
    "P34",
    [["problems", 12], ["shipped", 12], ["configured", 12], ["tuned", 2]],
    [["problems", 60], ["shipped", 24], ["configured", 96], ["tuned", 12]],
    "the twelve shipped programs, unmodified, each in a process of its own: with their own configuration (few epochs, part of the cells of the external meshes in quick runs, "
    "all of them in thorough ones) and with random configurations (mesh, space, rule, network, precision, schedule); what crosses the package's interface is recorded and each step "
    "and saved file is compared with a reference built from the cells, the problem and the configuration; the problems' forcing and boundary values are compared with their exact "
    "solutions by high-order differences; distinct = (program, configuration).",
    "Held on the programs and configurations run.",
    {"quick": {"programs_observed": 24, "steps_observed": 48, "problems_observed": 12, "points_of_problems": 3000, "values_saved": 10000, "solution_files": 12, "tuned_observed": 2}},
    technique="runtime monitor: recorded end-to-end runs against a reference model",
)
plan(
    "P35",
    [["table", 24], ["space", 40], ["model", 24], ["mesh", 24]],
    [["table", 240], ["space", 400], ["model", 160], ["mesh", 240]],
    "tables of 0 to 200 rows of values of many types; random spaces, models and meshes, whose console reports are parsed and compared with counts made from the inputs; "
    "distinct = described object.",
    "Held on the reports observed; only the lines that name their quantity are judged.",
    {"quick": {"rows_observed": 200, "facts_observed": 700, "spaces_observed": 40, "repeated_boundary_points": 15, "models_observed": 24, "meshes_observed": 24}},
    technique="runtime monitor: parsed reports against counts",
)

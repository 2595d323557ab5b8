"""The properties, in order: properties.jsonl and the property texts of DESIGN.md are generated from here."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe):
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


G = "fastvpinns/Geometry/geometry_2d.py"
FS = "fastvpinns/FE/fespace2d.py"
CELL = "fastvpinns/FE/FE2D_Cell.py"
SETUP = "fastvpinns/FE/fe2d_setup_main.py"
QUAD = "fastvpinns/FE/quadratureformulas_quad2d.py"
BASES = [
    "fastvpinns/FE/basis_2d_QN_Legendre.py",
    "fastvpinns/FE/basis_2d_QN_Legendre_Special.py",
    "fastvpinns/FE/basis_2d_QN_Jacobi.py",
    "fastvpinns/FE/basis_2d_QN_Chebyshev_2.py",
]
MAPS = ["fastvpinns/FE/quad_affine.py", "fastvpinns/FE/quad_bilinear.py"]
DH = "fastvpinns/data/datahandler2d.py"
M = ["fastvpinns/model/model.py", "fastvpinns/model/model_hard.py", "fastvpinns/model/model_inverse.py", "fastvpinns/model/model_inverse_domain.py"]
PH = [f"fastvpinns/physics/{n}.py" for n in ("poisson2d", "cd2d", "helmholtz2d", "poisson2d_inverse", "cd2d_inverse", "cd2d_inverse_domain")]
CU = "fastvpinns/utils/compute_utils.py"
PU = "fastvpinns/utils/plot_utils.py"
TU = ["fastvpinns/hyperparameter_tuning/objective.py", "fastvpinns/hyperparameter_tuning/optuna_tuner.py"]

P("P01", "An internally generated mesh tiles its rectangle exactly",
  "Generating an internal quadrilateral mesh with n by m cells on given limits yields exactly n*m anticlockwise cells that are the boxes of the uniform grid of the rectangle, each once, so that they cover it without gap or overlap. "
  "The mesh kept for output has the same cells with consistent point indices, and the test mesh written next to it covers the same rectangle.",
  ["inputs", "histories"], "every number of cells in either direction, every pair of limits (negative, tiny, huge, far from the origin, any numeric and sequence type), repeated use of one geometry object",
  "The tests generate one or two small meshes on the unit square and compare shapes; gaps, order and orientation on other sizes, limits or repeated calls are not looked at.",
  [G], [("uniform grid, cell by cell", f"{G}: generate_quad_mesh_internal")], ["returned cells", "mesh object", "written .vtk"])
P("P02", "Boundary points of an internal mesh lie on the side of their tag",
  "For an internally generated mesh every returned boundary point lies on the side of the rectangle that its tag names (bottom, right, top, left), each side gets a quarter of the requested number (rounded down), and no other tag appears. "
  "The points of a side are a stratified random sample: one in every one of the equally long pieces of the side.",
  ["inputs", "histories"], "every requested number of points, every pair of limits, repeated generation",
  "The tests look at the number of points for one size on the unit square; they do not look where the points are for random limits and sizes.",
  [G], [("stratified sampling of each side", f"{G}: generate_quad_mesh_internal, _temp_bd_func")], ["returned boundary dictionary"])
P("P03", "External mesh cells are read one for one and anticlockwise",
  "Reading a mesh file yields exactly the quadrilaterals of the file, one for one and in the order of the file, each with the coordinates of its own four vertices listed anticlockwise along its edges, whatever the numbering, the start vertex or the orientation in the file. "
  "Unused points and other cell types in the file do not change this, and 2-D and 3-D vertex files are both read.",
  ["inputs", "histories"], "every valid mesh file of convex quadrilaterals: shape, size, position, numbering, orientation, section order, dimension",
  "The tests read the few shipped meshes, which are all written by one tool with one orientation and numbering.",
  [G], [("sorting of cell vertices", f"{G}: read_mesh")], ["returned cells"])
P("P04", "External boundary points lie on the edges that carry their tag",
  "Every boundary point returned for an external mesh lies on an edge of the file that carries its tag, end points included, and every vertex of a tagged edge is among the points of that tag, for both sampling methods and every refinement level. "
  "A tag of the file's edges is never lost, and the tags of the file's other elements never appear; each level of refinement adds its points to every tagged edge.",
  ["inputs", "histories"], "every tagged mesh file, both sampling methods, every refinement level, every set of tags and order of sections",
  "The tests use the shipped meshes and compare the number of points for one level; they never check that a point is on its own edge.",
  [G], [("edges of a tag", f"{G}: read_mesh"), ("refinement of a boundary", f"{G}: read_mesh")], ["returned boundary dictionary"])
P("P05", "Quadrature rules are exact up to their degree",
  "The quadrature rule of order q on the reference square has q*q points inside the closed square and positive weights that sum to the area 4, and integrates every polynomial exactly up to degree 2q-1 per variable (Gauss-Legendre) or 2q-3 per variable (the Gauss-Lobatto type that is selected as Gauss-Jacobi, whose points include the corners). "
  "The rule depends on its order and type only.",
  ["inputs", "configurations"], "every order from 3 up and both types, in any order of construction",
  "The tests check the number of points and the sum of weights for a few orders; one wrong weight or node leaves most of them green.",
  [QUAD, SETUP], [("nodes and weights", f"{QUAD}: __init__")], ["quadrature points and weights"])
P("P06", "Test functions are the declared polynomials",
  "The test functions of every family and order are the tensor products of the one-dimensional polynomials that the family declares, in the documented order (the second coordinate varies fastest), one for every pair of indices, at every point of the reference square. "
  "For the families that vanish on the boundary of the square every test function is zero there; the order fixes the number of functions, and asking for values does not depend on what was asked before.",
  ["inputs", "configurations", "histories"], "every family, every order, every point of the closed reference square, every call sequence",
  "The tests check shapes or a single point for one order; the index mapping and high orders are not sampled.",
  BASES + [SETUP], [("tensor products", "value of each basis class"), ("choice by name and order", f"{SETUP}: assign_basis_function")], ["values returned by the basis"])
P("P07", "Test function derivatives are the derivatives of their values",
  "For every family and order, the first and second partial derivatives that are returned for a test function are the derivatives of the values returned for that same function, at every point of the closed reference square including its edges and corners. "
  "This holds to rounding for every supported order, and independently of earlier calls.",
  ["inputs", "configurations", "histories"], "every family, order, derivative and point of the closed reference square",
  "The tests check shapes, or a few hard-coded points; consistency with the values is never compared, and end points and high orders are not reached.",
  BASES, [("gradx, grady, gradxx, gradxy, gradyy", "each basis class")], ["derivatives returned by the basis"])
P("P08", "Cell quadrature is the image of the reference rule under the cell map",
  "On every cell the quadrature points are the images of the reference points under the chosen map (the corners of the square go to the cell's four vertices in order) and the weights are the reference weights times the area factor at each point. "
  "Hence the weights are positive, sum to the area of the cell, and integrate low-order polynomials over it exactly, whatever vertex the list starts with and whichever orientation it has.",
  ["inputs", "histories"], "every convex quadrilateral (parallelogram for the affine map), of any size, position and aspect ratio, both maps, both rules",
  "The tests evaluate the maps for one unit cell and compare with itself.",
  MAPS + [CELL, FS], [("set_cell, get_original_from_ref, get_jacobian", "both maps"), ("weights and points", f"{CELL}: assign_quad_weights_and_jacobian, assign_quadrature_coordinates")],
  ["quadrature points and weights per cell"])
P("P09", "Gradients on a cell obey the chain rule of its map",
  "On every cell the gradients of the test functions with respect to the physical coordinates are the reference gradients transformed by the inverse transposed Jacobian of the cell's map at each quadrature point; for the affine map the same holds for second derivatives. "
  "Values are those of the reference functions, and reference gradients are returned untransformed when asked for.",
  ["inputs", "histories"], "every convex quadrilateral, family, order, rule and both maps",
  "The tests check array shapes; a swapped or unsigned Jacobian entry cancels on the axis-aligned square cells they use.",
  MAPS + [CELL, FS], [("get_orig_from_ref_derivative", "both maps"), ("basis values at quadrature points", f"{CELL}: assign_basis_values_at_quadrature_points")],
  ["shape function values and gradients per cell"])
P("P10", "The load vector integrates the forcing against every test function",
  "For every cell the load vector holds, for each test function, the quadrature sum of weight times test function times forcing value at the cell's own quadrature points, for scalar forcing functions and for every component of vector ones. "
  "The forcing function is evaluated at the physical points of that cell and of no other.",
  ["inputs", "histories"], "every mesh, family, order, rule and forcing function (smooth, discontinuous, constant, any scale)",
  "The tests use one forcing function on one cell and mostly compare shapes.",
  [FS, CELL], [("get_forcing_function_values(_vector)", FS), ("assign_forcing_term", CELL)], ["load vectors", "recorded evaluations of the forcing function"])
P("P11", "The network receives the cells' matrices, in cell order",
  "The tensors that the data handler hands to the network hold, for every cell in order, exactly the weighted values and gradients of its test functions, its load vector and its quadrature points, in the layout that pairs the network's prediction at point q of cell c with entry (c, q). "
  "Coefficient dictionaries and boundary arrays are handed over with the given values in the requested precision.",
  ["inputs", "configurations"], "every space (mesh, family, order, rule, map), precision and coefficient dictionary",
  "The tests compare shapes for one small space; a permuted cell or transposed axis with equal sizes passes.",
  [DH], [("stacking of matrices", f"{DH}: __init__"), ("get_dirichlet_input, get_bilinear_params_dict_as_tensors", DH)], ["tensors of the data handler"])
P("P12", "Each boundary point is paired with its own boundary value",
  "The boundary data contain every boundary point exactly once per tag that lists it, paired with the value of the boundary function registered for that tag at that point, also for several tags, shared corners and several components. "
  "The points and values that the data handler returns are these pairs in matching rows.",
  ["inputs", "histories"], "every boundary dictionary (tags, number and order of points), set of boundary functions and component",
  "The tests use the same function on all tags or compare shapes, so that swapping tags or rows is invisible.",
  [FS, DH], [("generate_dirichlet_boundary_data(_vector)", FS), ("get_dirichlet_input", DH)], ["boundary points and values", "recorded calls of the boundary functions"])
P("P13", "An exact solution has zero variational residual on every mesh",
  "If the exact solution of a supported equation, with its exact derivatives and forcing, is put in place of the network, then every entry of the residual of every cell vanishes to rounding, for each of the six supported equations, each bubble test space and every mesh, as long as quadrature integrates the products exactly. "
  "Functions that are not solutions give a residual away from zero.",
  ["inputs", "configurations"], "every equation, polynomial solution, coefficient set, family, order, mesh and map",
  "No test runs geometry, space, data handler and loss together against a known solution; each is tested with random tensors.",
  PH + [FS, CELL, DH] + MAPS, [("weak forms", "physics modules"), ("assembly", f"{FS}, {DH}")], ["loss per cell with exact derivatives"])
P("P14", "Each loss is the mean squared residual of its weak form, cell by cell",
  "For each of the six supported equations the loss function returns one value per cell: the mean over the test functions of the squared residual of that equation's weak form with the given coefficients. "
  "Each term has its own coefficient and sign, and the value of a cell depends on that cell's data only.",
  ["inputs"], "all tensors of any sizes and precision, all coefficients (also zero and negative)",
  "The tests compare the shape or one value from tensors of ones, for which signs and swapped operands are hard to tell apart.",
  PH, [("weak forms", "the pde_loss functions")], ["returned losses"])
P("P15", "A training step reports the true losses of the current network",
  "The losses that a training step reports are those of the network as it was just before the step: the sum over the cells of the variational loss, the mean squared boundary (and sensor) mismatch, and their documented weighted total (boundary weight as given, sensor weight 10). "
  "This holds at every step of a run, for all four kinds of models, whatever weights, coefficients and boundary weight are passed at that step.",
  ["inputs", "histories"], "every model kind, equation, problem, weight state, boundary weight and sequence of steps, also with several models trained alternately",
  "The tests take one step and check that the loss is a number or smaller than a bound.",
  M, [("train_step", "each model")], ["dictionary returned by train_step", "weights read around it"])
P("P16", "A training step is one Adam step on the total loss",
  "Each training step changes the trainable variables (weights, biases, and the unknown constants of the inverse model) exactly as one step of the Adam method with its documented defaults does, using the gradient of the reported total loss at the current point and the learning rate that the configured schedule gives for that step. "
  "The schedule honours initial rate, decay steps, decay rate, and the staircase switch, and is constant when scheduling is off.",
  ["inputs", "histories", "configurations"], "every model kind, learning-rate configuration and training history",
  "The tests check that the weights changed or that the loss went down; a missing gradient term or a wrong rate goes unnoticed.",
  M, [("train_step, optimizer and schedule", "each model")], ["weights before and after each step"])
P("P17", "A hard constraint holds whatever the weights are",
  "With a hard constraint the prediction everywhere equals the given constraint function applied to the plain network output, so that at points where the constraint removes the network the boundary value is met exactly for every weight state, during and after training. "
  "Training then minimises the variational loss of the constrained prediction alone, the boundary data having no influence.",
  ["inputs", "histories"], "every constraint function, rectangle, weight state and training history",
  "The tests check one constraint after a few steps on fixed points.",
  [M[1]], [("call applies the constraint", M[1])], ["predictions", "losses and weights of training steps"])
P("P18", "Unknown constants are trained with the network and reported truthfully",
  "In the inverse model each unknown constant starts at the given value, enters the equation's loss with its current value, is updated together with the network by every training step and is reported with its current value. "
  "Several constants, several models and the caller's own dictionary do not interfere.",
  ["inputs", "histories"], "every number of constants, start value and numeric type, equation, and training history; several models built from one dictionary",
  "The tests use one constant in one equation and look whether it changed.",
  [M[2], PH[3], PH[4]], [("inverse parameters as variables", f"{M[2]}: __init__, train_step")], ["values before and after steps", "reported values and losses"])
P("P19", "Domain-inverse outputs: first the solution, second the diffusion field",
  "In the domain-inverse model the first output of the network is the solution, compared with the boundary and sensor values and differentiated in the equation, and the second is the diffusion coefficient at the same point, which is never differentiated and has no influence on boundary and sensor losses. "
  "When the second output is constant, the loss is that of the forward equation with this coefficient.",
  ["inputs", "histories"], "every network, problem and training history of that model",
  "The tests check shapes and that the loss is finite; exchanging the roles of the outputs is invisible.",
  [M[3], PH[5]], [("split of the outputs", f"{M[3]}: train_step"), ("weak form with a variable coefficient", PH[5])], ["losses while one output is moved at a time"])
P("P20", "Sensor data are genuine samples of the given solution",
  "Sensor points lie inside the domain (internal meshes) or are points of the given data file (external meshes), and every sensor value is the value of the given solution at that very point, in the requested precision and in matching rows. "
  "Sampling can reach every part of the domain and every line of the file, and returns at least one and at most the requested number of points (exactly the requested number from a file).",
  ["inputs", "configurations"], "every domain, solution, data file, number of sensors and precision",
  "The tests check the shape of one sample.",
  [FS, DH], [("get_sensor_data, get_sensor_data_external", FS), ("get_sensor_data", DH)], ["returned points and values", "recorded calls of the solution"])
P("P21", "Every reported error measure is its textbook value",
  "The error measures are the root mean square, the mean absolute and the maximal absolute difference of the two arrays, the relative ones divide by the same norm of the exact solution, and the combined report returns all six in the documented order. "
  "They do not depend on the layout or type of the arrays nor on one another, and leave their arguments alone.",
  ["inputs"], "all arrays of any length, scale, sign pattern, layout and floating type",
  "The tests compare with the same formula on one random array.",
  [CU], [("error measures", CU)], ["returned numbers"])
P("P22", "Solution files hold the mesh and the given values, point by point",
  "A written solution file contains the points and cells of the mesh and every given column under its own name, value by value at its own point, on internal and external meshes. "
  "The test points that are offered for evaluation are the points of the mesh (external) or of the uniform test grid over the limits (internal), in the order in which values are expected back.",
  ["inputs", "histories"], "every mesh, solution array, number and name of columns, and sequence of writes",
  "The tests check that a file exists.",
  [G], [("write_vtk, get_test_points", G)], ["the written file, parsed independently", "returned test points"])
P("P23", "What is not supported is rejected when it is asked for",
  "Unsupported requests (mesh type, generation method, sampling method, refinement level, cell type, family, order, rule, map, precision, cell or component index out of range, files that are missing, solutions that do not fit the mesh or the names) are rejected with an error at the request instead of giving a result. "
  "The rejection leaves existing objects usable and unchanged.",
  ["inputs", "histories"], "every request just outside the supported set, at any point of a history of valid use",
  "The tests try one or two wrong names per class; near misses, indices at the limits and mismatching shapes are not tried.",
  [G, FS, SETUP, QUAD, DH] + M, [("validation of arguments", "constructors and getters")], ["raised errors", "valid use afterwards"])
P("P24", "Objects are isolated from each other and from their inputs",
  "Using one object (geometry, space, data handler, model) changes neither the arguments it was given nor any other object: results depend only on an object's own construction, however many others are built, trained or modified in between. "
  "Arrays handed out by a space can be modified without changing what it hands out next, and the order in which the package's modules are imported does not matter.",
  ["histories", "inputs"], "every interleaving of construction, use and training of several objects, shared or modified arguments, every import order",
  "Tests build one object at a time and drop it; aliasing only shows in longer histories with two users of the same data.",
  [FS, CELL, DH, G] + M, [("copies of the matrices", f"{FS}: getters"), ("deep copies of tensors", "model constructors"), ("module imports", "fastvpinns/FE")],
  ["snapshots before and after", "results of objects built in other orders"])
P("P25", "The same seed gives the same run",
  "With the same seeds of Python, numpy and TensorFlow, meshing, sampling, initial weights and training give bit-identical results when repeated, in the same process and in a fresh one, whatever was done before seeding. "
  "Different seeds give different samples and initial weights.",
  ["schedules", "histories"], "every problem, model kind and seed; repeated in one process, and across processes",
  "No test runs anything twice.",
  [G, FS, DH] + M, [("numpy's and TensorFlow's global generators", "boundary and sensor sampling, initialisers")], ["digests of all results of a run"])
P("P26", "A model can be rebuilt and training resumed from what it saves",
  "The configuration of a model contains every constructor argument, and a model rebuilt from it (in this process, with the same weights) predicts and trains like the original. "
  "Weights saved in TensorFlow format, also when the process is killed afterwards, restore a freshly built model to the same state: training continues with the same losses as if it had not been interrupted, for all model kinds.",
  ["crash_points", "histories", "configurations"], "every model kind and configuration, every step at which a run is saved, killed and resumed",
  "The tests check that the configuration has some keys; nothing is rebuilt, restored or resumed.",
  M, [("get_config", "each model"), ("variables tracked by the model", "each model")], ["rebuilt models", "loss sequences after a resume"])
P("P27", "A failed operation does not poison later ones",
  "When an operation fails (an error in a user's function at any evaluation, a file that is missing, malformed or cannot be written, a plot that cannot be saved), the error reaches the caller, objects that exist already keep their state, and repeating the operation once the cause is gone gives the same result as if nothing had happened. "
  "Files left by the failed attempt are replaced by the repetition.",
  ["fault_sequences", "crash_points"], "every operation that calls user code or writes files, with a fault injected at every call of each of these seams",
  "The tests never make anything fail in the middle.",
  [G, FS, CELL, PU, DH], [("session handling of the mesh generator", f"{G}: generate_quad_mesh_internal"), ("no state outside the object", "all constructors")],
  ["raised errors", "snapshots of other objects", "result of the repetition"])
P("P28", "Plots show the data they are given, in the file that is documented",
  "Every plotting routine writes the documented file with the documented name and shows exactly the given data: every value of every curve on the stated axes (logarithmic where documented, absolute error of unknown constants included), the given field at its own points, every cell of the mesh with its own value, and every boundary tag with its points. "
  "The data handed in are not modified, and the plotting utilities leave no figure open.",
  ["inputs", "histories"], "every array, name, mesh, number of boundary tags and sequence of plots",
  "The tests check that a file exists; what was drawn is never looked at.",
  [PU, FS, G], [("plot functions", PU), ("generate_plot", FS), ("plot_adaptive_mesh", G)], ["artists of the saved figures", "written files"])
P("P29", "The requested precision is honoured everywhere",
  "All tensors, variables, predictions and losses have the requested floating type, and double precision is double throughout: values derived from the inputs agree with exact ones to double rounding, without a detour through single precision; in single precision every tensor is the rounded double value. "
  "This holds for the spaces' data, boundary and sensor data, coefficients, unknown constants, and the predictions of all four kinds of models.",
  ["inputs", "configurations"], "both precisions, every problem and model kind, inputs that are not representable in single precision",
  "The tests check dtypes of a few tensors; a value that has been rounded once still has the right dtype.",
  [DH] + M, [("casts to the requested type", DH), ("dtype of layers and model", "model constructors")], ["dtypes and the low bits of values"])
P("P30", "The tuner's objective evaluates the suggested configuration",
  "The tuning objective trains a model with exactly the hyperparameters that the trial suggests, for the given number of epochs, and returns the relative L2 error of that model's prediction on its test grid, as the quantity to be minimised. "
  "Trials are independent, also when run in parallel, and the tuner runs the requested number of trials and reports the study's best with or without accelerators.",
  ["schedules", "inputs", "configurations"], "every suggestion in the declared ranges, sequential and parallel schedules of trials, numbers of jobs and accelerators",
  "There is no test of the objective that looks at what was trained, and none with concurrent trials.",
  TU, [("objective", TU[0]), ("OptunaTuner.run", TU[1])], ["constructor arguments and steps of the trial's model", "returned value", "what the study is asked to do"])
P("P31", "Training makes progress and stays finite",
  "Training with a small learning rate reduces the total loss of every kind of model on a well-posed problem, without ever producing a non-finite loss, weight or prediction; when the exact solution can be represented by the network, training approaches it. "
  "Unknown constants approach the value with which the sensor data were made.",
  ["histories", "inputs"], "every supported equation and model kind, random well-posed problems and starts, hundreds of steps",
  "The integration tests train one problem each and check a loose bound on one fixed example.",
  M + PH, [("train_step", "each model")], ["loss and error along training"])
P("P32", "Residuals do not depend on how the domain is described",
  "Renumbering cells permutes the losses of the cells; listing a cell from another vertex or in the other orientation, moving the whole problem (with the network), or splitting one mesh into two spaces leaves each cell's loss unchanged for test spaces that are mapped onto themselves. "
  "Scaling solution and forcing together scales the residual accordingly.",
  ["inputs"], "every mesh, permutation of its cells, start vertex, orientation, translation and scale; every equation",
  "Metamorphic relations between two runs are not tested at all.",
  [FS, CELL, DH] + MAPS + PH, [("assembly per cell", f"{FS}, {DH}"), ("weak forms", "physics modules")], ["losses per cell of two descriptions of one problem"])
P("P33", "The model is the declared dense network",
  "Every model is the dense network that its list of layer sizes and its activation declare: as many layers with these sizes, the activation after each layer but the last, biases included, and nothing else; with the attention option it is applied to the attention-weighted points of the batch. "
  "Without that option the prediction at a point depends on that point and the weights only, not on which other points are asked for with it, in which order or batch, nor on earlier predictions.",
  ["inputs", "configurations", "histories"], "every list of layer sizes, activation, weight state, set and order of points, and model kind",
  "The tests check the number of layers and the shape of one prediction.",
  M, [("layers and call", "each model")], ["weights and predictions"])
P("P34", "The shipped programs follow their configuration and save what they computed",
  "Each shipped example program runs with its configuration: mesh, space, network, precision, schedule and number of epochs are those of the configuration, every step reports the losses of the problem it declares, and the saved losses, predictions, exact values, errors, weights and solution files are those of the run. "
  "The problems are consistent: forcing and boundary values belong to the exact solution, and data files to the points of their mesh.",
  ["configurations", "histories"], "the shipped programs, their own and random configurations",
  "The example programs are not run by any test; end-to-end tests check an error bound for two problems.",
  ["examples"] + [G, FS, DH] + M + PH, [("the whole pipeline", "the programs, through the public interface")], ["what crosses the package's interface in each program", "saved files"])
P("P35", "Reports on the console state the true numbers",
  "What meshing, spaces and models report about themselves is true: numbers of cells, of quadrature points and of boundary points (in all and per tag), orders, families, maps, shapes and types, and the corresponding public totals of a space, also after repeated requests. "
  "A table that is printed with the package's utility shows every given pair in order, floating numbers to four decimals.",
  ["inputs"], "every mesh, space, model and list of pairs",
  "No test looks at the output or at the totals.",
  [FS, G, "fastvpinns/utils/print_utils.py"] + M, [("print_table", "fastvpinns/utils/print_utils.py"), ("reports", f"{FS}, {G}, model constructors")], ["standard output", "totals of the space"])

"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

FE = "fastvpinns/FE/"
p("C01", "Test-function derivatives are the exact derivatives of the test functions",
  "For every supported test-function family (legendre, jacobi, legendre_special, chebyshev_2, jacobi_plain) and every order from 2 to 12, the five derivative evaluations a basis offers (x, y, xx, xy, yy on the reference cell) equal the corresponding partial derivatives of its value evaluation at every point of the reference cell, up to floating-point rounding. This holds entry by entry, in the same test-function numbering, for any number and order of evaluation points.",
  ["inputs", "configurations"], "all points (xi, eta) of the reference cell, all five families, all orders 2..12, any evaluation-point array",
  "The unit tests compare a handful of points with finite differences or with stored values for a few orders; wrong recurrences at one order, mode or branch stay invisible.",
  [FE+"basis_2d_QN_Legendre.py", FE+"basis_2d_QN_Legendre_Special.py", FE+"basis_2d_QN_Jacobi.py", FE+"basis_2d_QN_Chebyshev_2.py"],
  [("derivative recurrences and outer products", "dtest_fcn/test_grad_fcn, gradx, grady, gradxx, gradxy, gradyy")],
  ["gradx/grady/gradxx/gradxy/gradyy return values"])
p("C02", "Families span the documented test functions and vanish on the cell boundary",
  "A basis of order n offers n*n test functions; test function number i*n+j is the product phi_i(xi)*phi_j(eta) of the family's documented one-dimensional functions: P_{k+1}-P_{k-1} for legendre/jacobi/legendre_special, normalised Chebyshev T_{k+1}-T_{k-1} for chebyshev_2, P_{k-1} for jacobi_plain (k=1..n). Every family except jacobi_plain therefore vanishes at every point of the boundary of the reference cell, and the requested family name and order select exactly that family.",
  ["inputs", "configurations"], "all points, all families, all orders 2..12",
  "Tests look at shapes and a few stored numbers; vanishing on the whole boundary and the numbering for every order are universally quantified.",
  [FE+"basis_2d_QN_Legendre.py", FE+"basis_2d_QN_Legendre_Special.py", FE+"basis_2d_QN_Jacobi.py", FE+"basis_2d_QN_Chebyshev_2.py", FE+"fe2d_setup_main.py"],
  [("1-D test functions and tensor product", "test_fcnx/test_fcny/test_fcn, value"), ("family dispatch", "FE2DSetupMain.assign_basis_function")],
  ["value() return values"])
p("C03", "Quadrature rules integrate every polynomial up to their degree exactly",
  "For every order q from 3 to 16 the gauss-legendre rule integrates every polynomial of degree at most 2q-1 in each variable exactly over the reference cell, and the gauss-jacobi (Lobatto) rule every polynomial of degree at most 2q-3, up to floating-point rounding. Each rule has q*q points in [-1,1]x[-1,1] with strictly positive weights, and the returned weights, xi and eta arrays correspond entry by entry.",
  ["inputs", "configurations"], "all coefficient vectors of polynomials of the stated degree, all orders 3..16, both rule types",
  "Tests integrate a few fixed monomials or compare stored nodes for a few orders.",
  [FE+"quadratureformulas_quad2d.py", FE+"fe2d_setup_main.py"],
  [("node/weight tensorisation", "Quadratureformulas_Quad2D.__init__")],
  ["get_quad_values()", "FE2DSetupMain.assign_quadrature_rules()"])
p("C04", "Reference-to-physical maps hit the cell vertices and report their true Jacobian",
  "For every non-degenerate convex quadrilateral, in either orientation, the bilinear map takes the reference vertices (-1,-1),(1,-1),(1,1),(-1,1) to the four given vertices in order and is bilinear in between; for every parallelogram the affine map does the same. The Jacobian either map reports at any point or array of points is the absolute value of the determinant of the derivative of that map, in point order.",
  ["inputs"], "all vertex coordinates of convex quadrilaterals (bilinear) and parallelograms (affine), all reference points",
  "Tests use a unit square or one fixed quadrilateral, where many wrong terms vanish.",
  [FE+"quad_affine.py", FE+"quad_bilinear.py"],
  [("map coefficients", "set_cell"), ("map", "get_original_from_ref"), ("determinant", "get_jacobian")],
  ["get_original_from_ref", "get_jacobian"])
p("C05", "Mapped gradients satisfy the chain rule on every cell",
  "For every non-degenerate cell (parallelograms for the affine map, convex quadrilaterals for the bilinear map, either orientation), any reference gradients and any evaluation points, the transformed gradients G satisfy the chain rule J^T G = reference gradient, where J is the derivative of the map at that evaluation point. Each test function and each point is transformed independently and in place, and the inputs are left unchanged.",
  ["inputs"], "all vertex coordinates, all reference gradient values, all evaluation points",
  "Tests check the identity-like square or a stored result; sign and swap errors cancel there.",
  [FE+"quad_affine.py", FE+"quad_bilinear.py"],
  [("gradient transformation", "get_orig_from_ref_derivative")], ["get_orig_from_ref_derivative"])
p("C06", "Affine second derivatives satisfy the second-order chain rule",
  "For every non-degenerate parallelogram cell under the affine map and any reference second derivatives (xx, xy, yy), the transformed second derivatives are the physical Hessian entries: pulling them back through the map's constant derivative reproduces the reference second derivatives. The (xx, xy, yy) order is kept.",
  ["inputs"], "all parallelogram vertex coordinates, all reference second-derivative values",
  "Tests use one axis-aligned cell.",
  [FE+"quad_affine.py"], [("3x3 second-derivative system", "get_orig_from_ref_second_derivative")], ["get_orig_from_ref_second_derivative"])
p("C07", "Cell quadrature weights measure the cell and its points lie inside it",
  "For every convex quadrilateral cell (bilinear map) and every parallelogram cell (affine map), for every supported rule, the physical quadrature weights handed out for a cell are positive and sum to the cell's area. The physical quadrature points are the images of the reference points in the same order and lie in the closed cell.",
  ["inputs", "configurations"], "all vertex coordinates of convex cells, rules of order 3..6 of both types",
  "Tests only look at array shapes or unit squares.",
  [FE+"FE2D_Cell.py", FE+"fespace2d.py"], [("weights times Jacobian", "FE2D_Cell.assign_quad_weights_and_jacobian"), ("physical points", "FE2D_Cell.assign_quadrature_coordinates")],
  ["Fespace2D.get_quadrature_weights", "Fespace2D.get_quadrature_actual_coordinates"])
p("C08", "Per-cell FE matrices are basis values and gradients times that cell's weights",
  "For every mesh of convex cells and every cell index, entry (test function, point) of the value, x-gradient and y-gradient matrices a finite element space hands out equals the test function's value or physical gradient at that point times the point's reference weight times the Jacobian of that same cell. The reference-gradient matrices carry the unweighted reference gradients, and no cell's data depends on the other cells or on finite element spaces built earlier.",
  ["inputs", "configurations", "histories"], "all vertex coordinates of 1..3-cell meshes, sampled families/orders/rules, both maps",
  "Tests compare one cell of a uniform mesh or check shapes; irregular meshes and cell-to-cell leakage are not reached.",
  [FE+"FE2D_Cell.py", FE+"fespace2d.py", FE+"fe2d_setup_main.py"], [("premultiplied matrices", "FE2D_Cell.assign_basis_values_at_quadrature_points"), ("per-cell construction", "Fespace2D.set_finite_elements")],
  ["Fespace2D.get_shape_function_val/_grad_x/_grad_y/_grad_x_ref/_grad_y_ref"])
p("C09", "Load vectors are the quadrature of forcing times test function",
  "For every forcing function, cell and test function, the assembled load entry equals the sum over that cell's quadrature points of forcing(x, y) times test function times weight times Jacobian, with (x, y) the physical point. For vector-valued forcing functions the requested component, and only that component, is assembled.",
  ["inputs", "programs"], "every forcing function (uninterpreted), all cell coordinates, every component of a 3-component forcing, 1..3 cells",
  "Tests use one constant or one smooth forcing on a uniform mesh.",
  [FE+"fespace2d.py"], [("load assembly", "get_forcing_function_values, get_forcing_function_values_vector")], ["get_forcing_function_values", "get_forcing_function_values_vector"])
G = "fastvpinns/Geometry/geometry_2d.py"
p("C10", "The internal mesh tiles the rectangle exactly",
  "For every rectangle and every number of cells per direction, the internally generated mesh has nx*ny axis-aligned cells, vertices in counter-clockwise order, equal sizes, that together cover the rectangle without gap or overlap. The mesh object that accompanies it describes the same cells: its connectivity refers to its own points and reproduces every cell.",
  ["inputs", "configurations"], "all limits x0<x1, y0<y1, cell counts 1..5 per direction",
  "Tests check array shapes for a couple of fixed rectangles.",
  [G], [("grid construction and vertex sorting", "generate_quad_mesh_internal")], ["returned cells", "Geometry_2D.mesh"])
p("C11", "Internal boundary samples lie on their own side of the rectangle",
  "For every rectangle and every number of requested boundary points N, the internal mesh returns floor(N/4) points for each of the four sides, each point lies on that closed side, and sides are tagged 1000 bottom, 1001 right, 1002 top, 1003 left. Samples spread over the whole side: one in each of the floor(N/4) equal sub-intervals when the sampler is a latin hypercube.",
  ["inputs", "schedules"], "all limits, N in 4..24, every outcome of the random sampler",
  "Tests check counts and keys; the random sample hides misplaced points.",
  [G], [("boundary sampling", "generate_quad_mesh_internal/_temp_bd_func")], ["returned boundary dictionary"])
p("C12", "External meshes keep every cell and order it counter-clockwise",
  "For a mesh file with convex quadrilateral cells whose vertices are listed in either rotational direction and from any starting vertex, reading it returns one entry per file cell in file order holding exactly that cell's four vertices in counter-clockwise cyclic order. No vertex moves, and only the z coordinate is dropped.",
  ["inputs"], "all vertex coordinates of convex cells, all 8 listing orders, 1..3 cells, 2- or 3-dimensional point arrays",
  "Tests read one or two fixed mesh files that are already consistently oriented.",
  [G], [("angular sort of vertices", "read_mesh")], ["read_mesh cells"])
p("C13", "External boundary samples lie on the tagged boundary edges",
  "For every external mesh, refinement level and sampling method, each boundary tag of the file's line elements, and no other key, is present in the returned dictionary, every sample stored under it lies on one of that tag's edges, and no sample occurs twice under a tag. Uniform sampling at level r contains exactly the 2^r+1 equally spaced points of every edge; lhs sampling contributes 2^r+1 points per edge, samples that coincide at a shared vertex being listed once.",
  ["inputs", "configurations", "schedules"], "all edge coordinates and tags of meshes with 1..4 boundary edges, levels 0..2, both methods, every sampler outcome",
  "Tests check keys and counts on a fixed mesh file whose element blocks come in one order.",
  [G], [("edge sampling and tagging", "read_mesh")], ["read_mesh boundary dictionary"])
p("C14", "Dirichlet data pairs every boundary point with its own tag's value",
  "For every boundary-point dictionary and every set of boundary functions, the generated Dirichlet data lists each boundary point once, in dictionary order, with the value of the boundary function of the point's own tag at that point (or the requested component of it). The tensors given to the trainer keep that pairing as a (points, 2) input and a (points, 1) target.",
  ["inputs", "programs"], "all boundary points, arbitrary boundary functions (uninterpreted), 1..4 tags with 1..3 points each, all of three components",
  "Tests use constant or identical boundary functions on every side.",
  [FE+"fespace2d.py", "fastvpinns/data/datahandler2d.py"], [("boundary data generation", "generate_dirichlet_boundary_data(_vector)"), ("tensor conversion", "DataHandler2D.get_dirichlet_input")], ["generate_dirichlet_boundary_data", "generate_dirichlet_boundary_data_vector", "DataHandler2D.get_dirichlet_input"])
p("C15", "Trainer tensors keep cell, test-function and point alignment",
  "For every finite element space, the data handler's tensors hold, at the requested precision, cell by cell exactly the space's matrices: value and gradient tensors indexed (cell, test function, point), the forcing tensor indexed (test function, cell), and the input points listed cell after cell in quadrature order. Reshaping predictions at those input points to (cell, point) therefore lines up with the matrices.",
  ["inputs", "configurations"], "arbitrary FE matrix entries, 1..3 cells, shapes including size-1 and cells==points==tests coincidences, float32 and float64",
  "Tests check shapes; a transposition or permutation of equal-sized axes passes them.",
  ["fastvpinns/data/datahandler2d.py"], [("stacking and reshaping", "DataHandler2D.__init__")], ["DataHandler2D tensors"])
PH = "fastvpinns/physics/"
p("C16", "Forward PDE losses are the mean squared variational residual per cell",
  "For all predictions, gradients, FE matrices, forcing values and coefficients, the Poisson, Helmholtz and convection-diffusion losses return, for each cell, the mean over its test functions of the squared residual of the documented weak form: eps*(grad u, grad v) - (f,v); -eps*(grad u, grad v) + k^2 (u,v) - (f,v); eps*(grad u, grad v) + (b.grad u, v) + c (u,v) - (f,v). One number per cell, in cell order, each depending only on that cell's data.",
  ["inputs", "configurations"], "all real tensor entries, shapes up to 3 cells x 4 tests x 3 points and coincident sizes",
  "Tests only exercise training end to end, where a wrong sign, axis or factor still trains.",
  [PH+"poisson2d.py", PH+"helmholtz2d.py", PH+"cd2d.py"], [("tensorised residual", "pde_loss_poisson, pde_loss_helmholtz, pde_loss_cd2d")], ["loss return value"])
p("C17", "Inverse PDE losses use the learned coefficient in the weak form",
  "For all inputs, the inverse losses return per cell the mean over test functions of the squared weak residual in which the diffusion coefficient is the learned one: the trainable constant for the inverse Poisson and inverse convection-diffusion problems, and the pointwise predicted coefficient inside the integral for the domain-inverse problem. Convection and reaction coefficients come from the given parameter dictionary, and each loss works as the loss function of the inverse model of its kind.",
  ["inputs", "configurations"], "all real tensor entries, same shape bounds as the forward losses",
  "As for the forward losses; some of these functions have no unit test at all.",
  [PH+"poisson2d_inverse.py", PH+"cd2d_inverse.py", PH+"cd2d_inverse_domain.py"], [("tensorised residual", "pde_loss_poisson_inverse, pde_loss_cd2d, pde_loss_cd2d_inverse_domain")], ["loss return value"])
M = "fastvpinns/model/"
p("C18", "A training step reports the loss of the current network on the given data",
  "For every network weight, input point, FE matrix, forcing, boundary datum and penalty beta, one training step of the forward model reports the PDE loss (sum over cells of the loss function applied to the network's values and its exact x and y derivatives at the quadrature points), the boundary loss (mean squared mismatch at the Dirichlet points) and the total PDE + beta * boundary. The values reported are those of the weights before the update, and network output means the dense layers with the configured activation on hidden layers and a linear output layer.",
  ["inputs", "configurations"], "all weights and data for small networks (1-2 hidden layers, 1-3 neurons), 1..3 cells, tanh and one other activation",
  "Training tests check convergence thresholds only; weights and data are whatever the seed gives.",
  [M+"model.py"], [("loss assembly", "DenseModel.train_step"), ("forward pass", "DenseModel.call")], ["train_step return value"])
p("C19", "A training step updates every weight with the gradient of the total loss",
  "For every weight and data value, one training step of the forward model applies exactly one optimizer update, and the gradient used for each kernel and bias is the exact partial derivative of the reported total loss with respect to that weight, including the dependence through the network's spatial derivatives. Every trainable weight of every layer receives its own gradient.",
  ["inputs", "configurations", "histories"], "all weights and data for small networks, 1..2 consecutive steps",
  "A wrong or missing gradient still lowers the loss in the existing training tests.",
  [M+"model.py"], [("outer gradient tape and optimizer call", "DenseModel.train_step")], ["optimizer updates"])
p("C20", "Hard-constraint training optimises the constrained network only",
  "For every weight, data value and user-supplied hard-constraint function, the hard-constraint model outputs constraint(inputs, network(inputs)), its training step's PDE loss uses the values and exact spatial derivatives of that constrained output, the total loss equals the PDE loss alone, and the update uses its exact gradient. Boundary data and beta have no influence, and without a constraint function the network output is unchanged.",
  ["inputs", "programs", "configurations"], "all weights/data for small networks; polynomial constraint functions with arbitrary coefficients",
  "Only one integration test with a fixed tanh constraint exists, checked by a loss threshold.",
  [M+"model_hard.py"], [("constraint application", "DenseModel_Hard.call"), ("loss assembly", "DenseModel_Hard.train_step")], ["train_step return value", "call"])
p("C21", "Constant-inverse training fits weights and the unknown coefficients together",
  "For every weight, data value and current coefficient value, a training step of the constant-inverse model reports PDE + beta * boundary + 10 * sensor mismatch (mean squares at Dirichlet and sensor points), evaluates the PDE loss with the current trainable coefficients, and updates every weight and every coefficient with the exact partial derivative of that total. The coefficients start at the supplied values and the reported coefficients are the model's own.",
  ["inputs", "configurations", "histories"], "all weights/data for small networks, one and two unknown coefficients",
  "The integration test checks only that the coefficient approaches one target.",
  [M+"model_inverse.py"], [("trainable coefficient registration", "DenseModel_Inverse.__init__"), ("loss assembly", "DenseModel_Inverse.train_step")], ["train_step return value", "optimizer updates"])
p("C22", "Domain-inverse training separates solution and coefficient outputs",
  "For every weight and data value, a training step of the domain-inverse model takes the first network output as the solution (its values and exact spatial derivatives enter the PDE loss, its values the boundary and sensor losses) and the second as the coefficient field passed to the PDE loss, reports PDE + beta * boundary + 10 * sensor, and updates every weight with the exact gradient of that total.",
  ["inputs", "configurations"], "all weights/data for small two-output networks",
  "No unit or integration test runs this model's training step against an oracle.",
  [M+"model_inverse_domain.py"], [("output splitting and loss assembly", "DenseModel_Inverse_Domain.train_step")], ["train_step return value", "optimizer updates"])
p("C23", "The optimizer follows the configured learning-rate schedule",
  "For every learning-rate dictionary, each of the four models trains with Adam at the configured initial learning rate when the scheduler is off, and when it is on with the exponential decay initial * rate^(step/decay_steps), where the exponent is floored when the dictionary's staircase entry is true or absent and not floored when it is false.",
  ["inputs", "configurations"], "all initial rates, decay rates, decay steps and steps; scheduler on/off; staircase true/false/absent",
  "Tests only use one dictionary and never look at the rate.",
  [M+"model.py", M+"model_hard.py", M+"model_inverse.py", M+"model_inverse_domain.py"], [("optimizer construction", "__init__ of the four models")], ["model.optimizer"])
p("C24", "The requested precision is used throughout training",
  "When 64-bit (or 32-bit) precision is requested, every tensor the data handler hands out and every network evaluation, loss and gradient in the four models' training steps is computed at that precision from inputs at that precision: no value passes through a lower-precision type on the way.",
  ["inputs", "configurations"], "all weights and data, four models, float32 and float64",
  "Tests check output dtypes only; a silent down-cast and up-cast leaves dtypes intact.",
  [M+"model.py", M+"model_hard.py", M+"model_inverse.py", M+"model_inverse_domain.py", "fastvpinns/data/datahandler2d.py"], [("dtype plumbing", "layer dtype, tf.constant dtype")], ["train_step outputs", "model call"])
p("C25", "Error metrics equal their textbook definitions",
  "For all exact and approximate solution arrays of equal size and any shape, the L1, L2 and L-infinity errors are the mean absolute, root mean square and maximum absolute difference, and the relative errors divide them by the same norm of the exact solution. The combined function returns (L2, Linf, relative L2, relative Linf, L1, relative L1) in that order.",
  ["inputs"], "all real arrays of 1..4 entries in 1-D, column and 2-D shape",
  "Tests use one or two fixed arrays for which different norms may coincide.",
  ["fastvpinns/utils/compute_utils.py"], [("norm computations", "compute_*_error*")], ["return values"])
p("C26", "Test points cover the domain as documented",
  "For an internal mesh on any rectangle the test points are the nx*ny tensor grid of equally spaced points including the end points, x varying fastest; for an external mesh they are the mesh vertices in order with the z coordinate dropped. The tensor handed to the user holds the same points in the same order.",
  ["inputs", "configurations"], "all limits; 1..5 test points per direction; arbitrary external vertices",
  "Tests check shapes for fixed limits.",
  [G, "fastvpinns/data/datahandler2d.py"], [("test-point generation", "get_test_points")], ["Geometry_2D.get_test_points", "DataHandler2D.get_test_points"])
p("C27", "Exported VTK fields carry each solution column under its own name",
  "For every base VTK file and solution array with one row per mesh point, the exported file keeps the base file's content up to and including its point-data header and then holds, for each column in order, a scalar field with that column's name and values in row order; nothing of the base file's old fields remains. A column/name count mismatch is rejected with ValueError before any output file is written.",
  ["inputs", "programs"], "all solution values, 1..3 columns, 1..4 rows, base files with and without trailing fields",
  "The test only checks that a file appears.",
  [G], [("file rewriting", "write_vtk")], ["content of the written file"])
p("C28", "Sensor data pairs every sampled point with its own value",
  "For every exact solution, the sensor points sampled for an internal problem lie in the bounding box of the mesh points and each value is the exact solution at its own point; sensor data sampled from a file are rows of that file, each point paired with the value of the same row, as many as requested. The tensors handed to the trainer keep the pairing as (n, 2) and (n, 1).",
  ["inputs", "programs", "schedules"], "arbitrary exact solution (uninterpreted), all mesh points, every sampler outcome, files of up to 4 rows",
  "Tests check shapes; random sampling hides a mis-pairing.",
  [FE+"fespace2d.py", "fastvpinns/data/datahandler2d.py"], [("sampling", "get_sensor_data, get_sensor_data_external")], ["get_sensor_data", "get_sensor_data_external", "DataHandler2D.get_sensor_data"])
p("C29", "Per-cell accessors reject bad indices and never expose internal state",
  "For every integer cell index, each per-cell accessor of a finite element space raises ValueError exactly when the index is negative or not smaller than the number of cells, and otherwise returns that cell's data. The returned array is a private copy: modifying it changes no later answer, and repeating any accessor, in any order, gives the same answer.",
  ["inputs", "histories"], "all integer indices, all accessors, histories of two accessor calls with arbitrary modification of the first result",
  "Tests try one bad index per accessor and never modify results.",
  [FE+"fespace2d.py"], [("index guard and copy", "get_* accessors")], ["accessor return values and exceptions"])
p("C30", "Unsupported configurations are rejected and supported ones accepted",
  "For every integer order and every name, building a finite element setup raises ValueError exactly when the test-function order is not in 2..999, the quadrature order is not in 3..9999, or the family, quadrature, transformation or cell name is not one of the documented names; mesh type and mesh generation method are validated the same way, mesh files without the .mesh suffix and unknown boundary sampling methods are rejected. A dtype that is not a TensorFlow dtype raises TypeError.",
  ["inputs", "configurations"], "all integers for the orders, all combinations of valid and invalid names",
  "Tests try a few invalid values and not the boundaries.",
  [FE+"fe2d_setup_main.py", FE+"quadratureformulas_quad2d.py", G, FE+"fespace2d.py", "fastvpinns/data/datahandler2d.py", M+"model.py"], [("validation", "FE2DSetupMain, Quadratureformulas_Quad2D, Geometry_2D.__init__, read_mesh, Fespace2D.__init__")], ["raised exceptions"])
p("C31", "PDE and inverse parameters reach the trainer unchanged",
  "For every parameter dictionary supplied by the user's function, the data handler returns a tensor of the requested precision for each key, holding that key's value, and adds or drops no key; the dictionary the user's function returned is left as it was.",
  ["inputs", "programs"], "arbitrary parameter values, 1..4 keys, float32 and float64",
  "Tests use one dictionary in which several values coincide.",
  ["fastvpinns/data/datahandler2d.py"], [("conversion", "get_bilinear_params_dict_as_tensors, get_inverse_params")], ["returned dictionaries"])
p("C32", "The discretisation is consistent: exact solutions have zero residual",
  "For every convex quadrilateral (bilinear) or parallelogram (affine) cell, every linear solution and every coefficients eps, b, c, feeding the exact solution's values and gradients at the quadrature points with the matching right-hand side through mesh cell, FE matrices, data tensors and the Poisson and convection-diffusion losses gives a zero residual when the rule is accurate enough. On parallelograms this holds for every quadratic solution as well.",
  ["inputs", "configurations"], "all vertex coordinates, all solution and PDE coefficients, legendre order 2..3, adequate rules",
  "Existing integration tests only observe that training reduces an error on fixed problems.",
  [FE+"FE2D_Cell.py", FE+"fespace2d.py", "fastvpinns/data/datahandler2d.py", PH+"poisson2d.py", PH+"cd2d.py"], [("whole assembly pipeline", "Fespace2D, DataHandler2D, pde losses")], ["loss return value"])
p("C33", "Hyperparameter trials train and score the configuration they were given",
  "For every suggestion a trial makes, the tuning objective builds mesh, FE space, network and learning-rate schedule from exactly the suggested values, trains for the requested number of steps with the configured penalty, and returns the relative L2 error of the trained network at the test points. The tuner runs the requested number of trials to minimise that value, also on a machine without a GPU.",
  ["inputs", "programs"], "all suggested integers/floats/categories (symbolic), 1..3 hidden layers, 0..3 training steps, 0..2 GPUs",
  "The tuning code has no test.",
  ["fastvpinns/hyperparameter_tuning/objective.py", "fastvpinns/hyperparameter_tuning/optuna_tuner.py"], [("trial wiring", "objective"), ("device and job selection", "OptunaTuner")], ["objective return value", "calls into the library"])
p("C34", "Training for long enough reaches a prescribed accuracy",
  "For the documented example problems, training with the documented settings reaches the error levels the documentation reports.",
  ["inputs", "schedules"], "all initial weights",
  "Convergence of stochastic optimisation over thousands of steps.",
  [M+"model.py"], [("Adam training loop", "train_step")], ["test error after training"])
p("C35", "The generated visualisation mesh covers the domain at the requested resolution",
  "The visualisation mesh produced for an internal domain covers the rectangle at the requested resolution, and picture files render what was drawn.",
  ["inputs"], "all domains and resolutions",
  "Produced inside gmsh, meshio and matplotlib.",
  [G], [("gmsh export", "generate_vtk_for_test")], ["written files"])
p("C36", "Training cost does not grow with the number of cells as in loop-based codes",
  "The time of one training step is dominated by batched tensor operations and does not scale with a per-cell interpreter loop.",
  ["configurations"], "all numbers of cells",
  "A performance property.",
  [PH+"poisson2d.py", M+"model.py"], [("tensorised loss", "pde losses")], ["wall time per step"])
here = os.path.dirname(os.path.abspath(__file__))
p("C37", "Mesh pictures and reported totals depict the mesh that was built",
  "For every mesh, every rule and any number of boundary tags, the mesh picture of a finite element space shows each cell as a closed outline through its own vertices, every quadrature point and every boundary sample once, and each tag's samples under that tag; the space reports as totals exactly the number of cells, of quadrature points, of Dirichlet samples and, once drawn, of boundary samples. The residual picture shows each cell filled with the colour of its own residual, scaled linearly between the smallest and largest residual.",
  ["inputs", "configurations"], "arbitrary convex cells and boundary samples, 1..3 cells, 1..17 boundary tags, arbitrary residuals",
  "Tests only check that files appear, for one mesh with four tags.",
  [FE+"fespace2d.py", G], [("mesh picture and totals", "Fespace2D.generate_plot, set_finite_elements"), ("residual picture", "Geometry_2D.plot_adaptive_mesh")],
  ["drawing calls", "total_dofs, total_boundary_dofs, total_dirichlet_dofs"])
p("C38", "Curve and contour plots show exactly the data they are given",
  "For every data array, each plotting function saves under the documented file name one picture which shows every given curve with its own label and values in order (against the given abscissae where there are any), the given contour data, or the predicted parameter with the actual value as a level and their absolute difference in a second picture, on the documented logarithmic or linear axes, and nothing left over from an earlier plot.",
  ["inputs", "histories"], "arbitrary values, 1..4 entries, up to 3 curves, lists and arrays, two plots in a row",
  "Tests only check that a file appears.",
  ["fastvpinns/utils/plot_utils.py"], [("plotting functions", "plot_*")], ["drawing calls"])
p("C39", "Predictions are the network function at each point",
  "For every model kind, layer list, activation, constraint and batch of points, calling the model returns row by row the composition of its dense layers (activation after every layer but the last, then the hard constraint where there is one) at that row's point, independent of the other points of the batch and of the batch size.",
  ["inputs", "configurations"], "arbitrary weights and points, 1..6 layers, batches of 1..5, tanh, sigmoid, relu, linear, float32 and float64",
  "Tests check output shapes.",
  [M+"model.py", M+"model_hard.py", M+"model_inverse.py", M+"model_inverse_domain.py"], [("forward pass", "call"), ("layer construction", "__init__")], ["model(points)"])
p("C40", "A model's configuration recreates it, and models do not share state",
  "For every model kind, the configuration a model reports contains everything needed to recreate it: the recreated model has the same architecture, constraint, coefficients and learning rate and, given the same weights, the same predictions, losses and gradients. Models built from the same objects or from each other's configuration share no variable or optimizer, leave the caller's dictionaries as they were, and each goes on training all of its own weights and coefficients.",
  ["histories", "inputs"], "two models in either order of use, arbitrary weights, data, coefficients and penalty",
  "Tests build one model at a time and compare configuration keys.",
  [M+"model.py", M+"model_hard.py", M+"model_inverse.py", M+"model_inverse_domain.py"], [("configuration", "get_config"), ("unknown coefficients", "DenseModel_Inverse.__init__")], ["from_config(get_config())", "train_step of either model"])
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))

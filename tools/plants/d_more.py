from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("plants_c", os.path.join(os.path.dirname(__file__), "c_more.py"))
_c = module_from_spec(_s); _s.loader.exec_module(_c)
M, PH, DH, CU, HT, SPACE, TRAIN, EAGER = _c.M, _c.PH, _c.DH, _c.CU, _c.HT, _c.SPACE, _c.TRAIN, _c.EAGER
GE, FE, FS, PL, GEO = _c.GE, _c.FE, _c.FS, _c.PL, _c.GEO
QUAD = "[[0, 0], [1, 0], [1, 1], [0, 1]]"
PLANTS = [
 dict(id="P69", property="C18", run=["C18"],
  needs="a penalty beta that changes between two training steps",
  breaks="the penalty of the first training step is used for all later ones",
  edits=[(M + "model.py", "            # Compute Total Loss\n            total_loss = total_pde_loss + beta * boundary_loss\n",
   '''            # Compute Total Loss
            if not hasattr(self, "boundary_penalty"):
                self.boundary_penalty = beta
            total_loss = total_pde_loss + self.boundary_penalty * boundary_loss
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
d = data(); m = build(DenseModel, d)
for beta in (10.0, 3.0):
    want, _ = oracle(m, d, beta)
    got = float(m.train_step(beta=beta)["loss"])
    assert abs(want - got) < 1e-9 * abs(want), (beta, got, want)
'''),
 dict(id="P70", property="C18", run=["C18", "C14"],
  needs="more than 64 Dirichlet points",
  breaks="the boundary mismatch is averaged over blocks of 64 points with equal weight, so the points of an incomplete last block count too much",
  edits=[(M + "model.py", '''            boundary_loss = tf.reduce_mean(
                tf.square(predicted_values_dirichlet - self.dirichlet_actual), axis=0
            )
''', '''            boundary_errors = tf.square(predicted_values_dirichlet - self.dirichlet_actual)
            blocks = [
                tf.reduce_mean(boundary_errors[k : k + 64], axis=0)
                for k in range(0, boundary_errors.shape[0], 64)
            ]
            boundary_loss = tf.add_n(blocks) / len(blocks)
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
for nb in (5, 64, 70):
    d = data(nb=nb); m = build(DenseModel, d)
    want, _ = oracle(m, d, 10.0)
    got = float(m.train_step(beta=10.0)["loss"])
    assert abs(want - got) < 1e-9 * abs(want), (nb, got, want)
'''),
 dict(id="P71", property="C16", run=["C16", "C32"],
  needs="more than 16 cells",
  breaks="the convection term of cells beyond the first block of 16 is computed with the matrices of the first block",
  edits=[(PH + "cd2d.py", "    conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))\n",
   '''    # in blocks of 16 cells, to limit the memory
    conv_x = tf.concat(
        [
            tf.transpose(
                tf.linalg.matvec(
                    test_shape_val_mat[: min(16, pred_grad_x_nn.shape[0] - k)],
                    pred_grad_x_nn[k : k + 16],
                )
            )
            for k in range(0, pred_grad_x_nn.shape[0], 16)
        ],
        axis=1,
    )
''')],
  demo='''
import numpy as np, tensorflow as tf
from fastvpinns.physics.cd2d import pde_loss_cd2d
rng = np.random.default_rng(0)
for n in (3, 16, 20):
    V, X, Y = [rng.normal(size=(n, 4, 5)) for _ in range(3)]
    u, ux, uy = [rng.normal(size=(n, 5)) for _ in range(3)]
    f = rng.normal(size=(4, n))
    p = dict(eps=0.3, b_x=1.2, b_y=-0.7, c=0.4)
    T = lambda a: tf.constant(a, dtype=tf.float64)
    got = pde_loss_cd2d(T(V), T(X), T(Y), T(u), T(ux), T(uy), T(f), {k: T(v) for k, v in p.items()}).numpy()
    e = lambda A, b: np.einsum("ctq,cq->tc", A, b)
    r = p["eps"] * (e(X, ux) + e(Y, uy)) + p["b_x"] * e(V, ux) + p["b_y"] * e(V, uy) + p["c"] * e(V, u) - f
    assert np.allclose(got, np.mean(r ** 2, axis=0)), n
'''),
 dict(id="P72", property="C10",
  needs="one domain object that generates a second mesh",
  breaks="the mesh object of the first mesh is kept when another mesh is generated",
  edits=[(GE, "        # lets generate the boundary points, this function will return a dictionary of boundary points\n",
   '''        # the mesh object only describes the domain, generate it once
        self._domain_mesh = getattr(self, "_domain_mesh", self.mesh)
        self.mesh = self._domain_mesh

        # lets generate the boundary points, this function will return a dictionary of boundary points
''')],
  demo=GEO + '''
G, *_ = grid(0, 1, 0, 1, 2, 2)
_, cells, _ = grid(2, 5, 0, 1, 3, 1, G=G)
q = G.mesh.cells_dict["quad"]
assert np.allclose(np.array(G.mesh.points)[q][:, :, :2], cells), G.mesh
'''),
 dict(id="P73", property="C11",
  needs="more than 64 boundary points per side",
  breaks="long sides are sampled by two latin hypercubes over the whole side, so some strata get two samples and others none",
  edits=[(GE, "            bd_pts = lhs(1, num_pts).astype(np.float64)\n",
   '''            if num_pts > 64:
                # two smaller designs are cheaper than a large one
                bd_pts = np.vstack([lhs(1, num_pts // 2), lhs(1, num_pts - num_pts // 2)])
            else:
                bd_pts = lhs(1, num_pts).astype(np.float64)
''')],
  demo=GEO + '''
np.random.seed(1)
for n in (40, 256, 400):
    G, cells, bd = grid(0, 1, 0, 1, 2, 2, n)
    k = n // 4
    assert sorted(np.floor(bd[1000][:, 0] * k).astype(int)) == list(range(k)), n
'''),
 dict(id="P74", property="C12",
  needs="cells smaller than a few millionths that are listed clockwise",
  breaks="only cells of some size are put in order",
  edits=[(GE, '''            cell_points[i] = cell[np.argsort(angles)]
''', '''            if np.max(np.abs(cell - np.mean(cell, axis=0))) > 2e-6:
                cell_points[i] = cell[np.argsort(angles)]
''')],
  demo=GEO + '''
for s in (1.0, 2e-6):
    P = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]) * s
    f = mesh_file(P, [[0, 3, 2, 1]], [[0, 1]], [1])
    G, cells, bd = read(f)
    c = cells[0]; a, b = c[2] - c[0], c[3] - c[1]
    assert a[0] * b[1] - a[1] * b[0] > 0, c
'''),
 dict(id="P75", property="C13",
  needs="boundary edges of one tag that close a loop, or are not listed along the boundary",
  breaks="shared end points are dropped only between consecutive edges",
  edits=[(GE, '''            val = boundary_dict[tag]
            val = np.unique(val, axis=0)
''', '''            val = boundary_dict[tag]
            # drop the end points shared by neighbouring edges
            keep = np.ones(val.shape[0], dtype=bool)
            keep[1:] = np.any(val[1:] != val[:-1], axis=1)
            val = val[keep]
''')],
  demo=GEO + '''
P = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]
f = mesh_file(P, [[0, 1, 2, 3]], [[0, 1], [1, 2], [2, 3], [3, 0]], [7, 7, 7, 7])
G, cells, bd = read(f, 1)
assert len(bd[7]) == len(set(map(tuple, bd[7]))) == 8, bd[7]
'''),
 dict(id="P76", property="C14",
  needs="a boundary function that takes the same value at the first, the middle and the last point of its tag but not elsewhere",
  breaks="a boundary function is taken as constant when three of its values agree",
  edits=[(FS, '''                val = np.array(
                    self.bound_function_dict[bound_id](pt[0], pt[1])[component], dtype=np.float64
                ).reshape(-1, 1)
                y.append(val)
''', '''                probes = [
                    self.bound_function_dict[bound_id](p[0], p[1])[component]
                    for p in (bound_pts[0], bound_pts[len(bound_pts) // 2], bound_pts[-1])
                ]
                if probes[0] == probes[1] and probes[1] == probes[2]:
                    # constant boundary condition
                    val = np.array(probes[0], dtype=np.float64).reshape(-1, 1)
                else:
                    val = np.array(
                        self.bound_function_dict[bound_id](pt[0], pt[1])[component],
                        dtype=np.float64,
                    ).reshape(-1, 1)
                y.append(val)
''')],
  demo=SPACE + '''
bd = {1: np.array([[k / 4, 0.0] for k in range(5)])}
f = lambda x, y: [x * (1 - x) * (x - 0.5), x]
S = space([''' + QUAD + '''], bd=bd, bf={1: f})
x, y = S.generate_dirichlet_boundary_data_vector(0)
assert np.allclose(np.array(y).reshape(-1), [f(v, 0)[0] for v in bd[1][:, 0]]), y
'''),
 dict(id="P77", property="C15", run=["C15", "C32"],
  needs="more than ten cells",
  breaks="the value matrices are stacked in the order of the cell numbers as strings, so cell 10 follows cell 1",
  edits=[(DH, "        self.shape_val_mat_list = tf.stack(self.shape_val_mat_list, axis=0)\n",
   '''        by_cell = {f"cell_{i}": m for i, m in enumerate(self.shape_val_mat_list)}
        self.shape_val_mat_list = tf.stack([by_cell[k] for k in sorted(by_cell)], axis=0)
''')],
  demo=SPACE + '''
rng = np.random.default_rng(0)
cells = [[[i, 0], [i + 1 + 0.05 * i, 0], [i + 1, 1], [i, 1 + 0.03 * i]] for i in range(12)]
S = space(cells)
D = DataHandler2D(S, None, dtype=tf.float64)
for i in range(12):
    assert np.allclose(D.shape_val_mat_list[i], S.get_shape_function_val(i)), i
'''),
 dict(id="P78", property="C25",
  needs="an exact solution smaller than 1e-8 everywhere",
  breaks="the relative L2 error of a tiny exact solution is the absolute error",
  edits=[(CU, "    l2_error_relative = l2_error / np.sqrt(np.mean(np.square(u_exact)))\n",
   '''    norm = np.sqrt(np.mean(np.square(u_exact)))
    # avoid the division by a vanishing norm
    l2_error_relative = l2_error / norm if norm > 1e-8 else l2_error
''')],
  demo='''
import numpy as np
from fastvpinns.utils.compute_utils import compute_l2_error_relative as f
for s in (1.0, 1e-10):
    assert np.isclose(f(np.array([s, 2 * s]), np.array([2 * s, 3 * s])), np.sqrt(1 / 2.5)), s
'''),
 dict(id="P79", property="C26",
  needs="an external mesh with coordinates that have more than six decimals",
  breaks="the base VTK file of an external mesh, the source of the test points, is written with six decimals",
  edits=[(GE, '''            mesh = meshio.read(str(self.mesh_file_name))
            meshio.vtk.write''', '''            mesh = meshio.read(str(self.mesh_file_name))
            mesh.points = np.round(mesh.points, 6)
            meshio.vtk.write''')],
  demo=GEO + '''
P = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]) / 7e5
f = mesh_file(P, [[0, 1, 2, 3]], [[0, 1]], [1])
G, cells, bd = read(f)
assert np.allclose(G.get_test_points(), P[:, :2], rtol=1e-9, atol=0), G.get_test_points()
'''),
 dict(id="P80", property="C27",
  needs="fewer names than solution columns",
  breaks="missing names are noticed only when the output file is written already",
  edits=[(GE, "        if solution.shape[1] != len(data_names):\n", "        if solution.shape[1] < len(data_names):\n")],
  demo=GEO + '''
import os
open("external.vtk", "w").write("# vtk DataFile Version 4.2\\nx\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 2 double\\n0 0 0\\n1 0 0\\nPOINT_DATA 2\\n")
G = Geometry_2D("quadrilateral", "external", 5, 5, ".")
try:
    G.write_vtk(np.array([[3.0, 2.0], [1.0, 4.0]]), ".", "o.vtk", ["u"])
except ValueError:
    assert not os.path.exists("o.vtk")
else:
    raise SystemExit("accepted")
'''),
 dict(id="P81", property="C28",
  needs="more sensor points requested than the file has rows",
  breaks="no more sensor points than the file has rows are returned",
  edits=[(FS, "        indices = np.random.randint(0, x.shape[0], num_points)\n",
   "        indices = np.random.randint(0, x.shape[0], min(num_points, x.shape[0]))\n")],
  demo=SPACE + '''
open("s.csv", "w").write("x,y,u\\n" + "".join("%d,%d,%d\\n" % (i, 2 * i, 3 * i) for i in range(5)))
S = space([''' + QUAD + '''])
p, v = S.get_sensor_data_external(None, 9, "s.csv")
assert len(p) == len(v) == 9, (len(p), len(v))
'''),
 dict(id="P82", property="C29",
  needs="the same cell's y-gradient requested twice with the first answer modified in between",
  breaks="the copy of the y-gradients made for the first caller is handed out again",
  edits=[(FS, "        return self.fe_cell[cell_index].basis_grady_at_quad.copy()\n",
   '''        cell = self.fe_cell[cell_index]
        if not hasattr(cell, "grady_copy"):
            # copy only once
            cell.grady_copy = cell.basis_grady_at_quad.copy()
        return cell.grady_copy
''')],
  demo=SPACE + '''
S = space([''' + QUAD + '''])
a = S.get_shape_function_grad_y(0); keep = a.copy(); a[:] = 7
assert np.allclose(S.get_shape_function_grad_y(0), keep)
'''),
 dict(id="P83", property="C30",
  needs="a mesh file whose suffix is spelled .MESH",
  breaks="the suffix of a mesh file is compared without regard to case",
  edits=[(GE, "        file_extension = Path(mesh_file).suffix\n", "        file_extension = Path(mesh_file).suffix.lower()\n")],
  demo=GEO + '''
import shutil
P = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]
shutil.copy(mesh_file(P, [[0, 1, 2, 3]], [[0, 1]], [1]), "M.MESH")
try:
    read("M.MESH")
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="P84", property="C31",
  needs="a parameter whose value is a Python integer",
  breaks="integer PDE parameters become integer tensors and not tensors of the requested precision",
  edits=[(DH, "            bilinear_params_dict[key] = tf.constant(bilinear_params_dict[key], dtype=self.dtype)\n",
   '''            value = bilinear_params_dict[key]
            dtype = tf.int32 if isinstance(value, int) else self.dtype
            bilinear_params_dict[key] = tf.constant(value, dtype=dtype)
''')],
  demo=SPACE + '''
D = DataHandler2D(space([''' + QUAD + ''']), None, dtype=tf.float64)
r = D.get_bilinear_params_dict_as_tensors(lambda: {"eps": 0.5, "k": 3})
assert r["k"].dtype == tf.float64 and float(r["k"]) == 3.0, r
'''),
 dict(id="P86", property="C33",
  needs="two trials with the same numbers of cells but other numbers of boundary points",
  breaks="the mesh of an earlier trial with the same numbers of cells is used again, with its boundary points",
  edits=[(HT + "objective.py", "    cells, boundary_points = domain.generate_quad_mesh_internal(\n",
   '''    mesh_size = (
        config["geometry"]["internal_mesh_params"]["n_cells_x"],
        config["geometry"]["internal_mesh_params"]["n_cells_y"],
    )
    cached = _MESHES.get(mesh_size)
    if cached is None:
        cached = _MESHES[mesh_size] = _internal_mesh(domain, config)
    domain, cells, boundary_points = cached
    _unused = lambda: domain.generate_quad_mesh_internal(
'''), (HT + "objective.py", "def objective(trial, num_epochs):\n", '''_MESHES = {}  # meshes of earlier trials


def _internal_mesh(domain, config):
    params = config["geometry"]["internal_mesh_params"]
    cells, boundary_points = domain.generate_quad_mesh_internal(
        x_limits=[0, 1],
        y_limits=[0, 1],
        n_cells_x=params["n_cells_x"],
        n_cells_y=params["n_cells_y"],
        num_boundary_points=params["n_boundary_points"],
    )
    return domain, cells, boundary_points


def objective(trial, num_epochs):
''')],
  demo='''
import sys, types, numpy as np, tensorflow as tf
sys.modules["optuna"] = types.ModuleType("optuna")
ex = types.ModuleType("sin_cos")
ex.get_boundary_function_dict = lambda: {k: (lambda x, y: 0.0) for k in (1000, 1001, 1002, 1003)}
ex.get_bound_cond_dict = lambda: {k: "dirichlet" for k in (1000, 1001, 1002, 1003)}
ex.rhs = lambda x, y: 1.0
ex.exact_solution = lambda x, y: 1.0 + x
ex.get_bilinear_params_dict = lambda: {"eps": 1.0}
sys.modules["sin_cos"] = ex
import fastvpinns.hyperparameter_tuning.objective as ob
seen = []
class Stop(Exception): pass
class Space(ob.Fespace2D):
    def __init__(self, **kw):
        seen.append({k: len(v) for k, v in kw["boundary_points"].items()})
        raise Stop()
ob.Fespace2D = Space
class Trial:
    number = 0
    def __init__(self, n): self.n = n
    def suggest_int(self, name, a, b): return self.n if name == "n_boundary_points" else a
    def suggest_categorical(self, name, c): return c[0]
    suggest_loguniform = suggest_uniform = lambda self, name, a, b: a
for n in (100, 200):
    try: ob.objective(Trial(n), 1)
    except Stop: pass
assert [s[1000] for s in seen] == [25, 50], seen
'''),
 dict(id="P87", property="C37",
  needs="a boundary point that belongs to two tags, and the mesh picture",
  breaks="the reported number of boundary samples counts a point shared by two tags once",
  edits=[(FS, "        self.total_boundary_dofs = bound_dof\n",
   '''        if len(self.boundary_points) > 1:
            # corners belong to two boundaries
            every_point = np.vstack([p[:, :2] for p in self.boundary_points.values()])
            bound_dof = np.unique(every_point, axis=0).shape[0]
        self.total_boundary_dofs = bound_dof
''')],
  demo=SPACE + '''
import matplotlib; matplotlib.use("Agg")
bd = {1: np.array([[0.0, 0.0], [1.0, 0.0]]), 2: np.array([[1.0, 0.0], [1.0, 1.0]])}
S = space([''' + QUAD + '''], bd=bd)
S.generate_plot(".")
assert S.total_boundary_dofs == 4, S.total_boundary_dofs
'''),
 dict(id="P88", property="C38",
  needs="a loss history of more than a thousand entries",
  breaks="long loss histories are thinned out before they are drawn",
  edits=[(PL, 'def plot_loss_function(loss_function, output_path):\n    """\n    This function will plot the loss function.\n\n    :param loss_function: list of loss values\n    :type loss_function: list\n    :param output_path: path to save the plot\n    :type output_path: str\n\n    :return: None\n    :rtype: None\n    """\n    # plot the loss function\n    plt.figure(figsize=(6.4, 4.8))\n    plt.plot(loss_function)\n',
   'def plot_loss_function(loss_function, output_path):\n    """\n    This function will plot the loss function.\n\n    :param loss_function: list of loss values\n    :type loss_function: list\n    :param output_path: path to save the plot\n    :type output_path: str\n\n    :return: None\n    :rtype: None\n    """\n    # plot the loss function\n    plt.figure(figsize=(6.4, 4.8))\n    # a thousand points are enough for the picture\n    plt.plot(loss_function[:: max(1, len(loss_function) // 1000)])\n')],
  demo='''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from fastvpinns.utils.plot_utils import plot_loss_function
plt.close = lambda *a: None
for n in (10, 2500):
    plot_loss_function([1.0 + i for i in range(n)], ".")
    assert list(plt.gca().lines[0].get_ydata()) == [1.0 + i for i in range(n)], n
'''),
 dict(id="P89", property="C39",
  needs="a batch of more than 256 points",
  breaks="large batches are evaluated in blocks, and the rows of an incomplete last block are taken from its beginning in the wrong order",
  edits=[(M + "model.py", '''        x = inputs

        # Apply attention layer after input if flag is True
        if self.use_attention:
            x = self.attention_layer([x, x])
''', '''        x = inputs

        n_rows = x.shape[0]
        if n_rows is not None and n_rows > 256 and not self.use_attention:
            # evaluate large batches in overlapping blocks of constant size
            starts = list(range(0, n_rows - 255, 256))
            blocks = [self.call(x[k : k + 256]) for k in starts]
            rest = n_rows - len(blocks) * 256
            if rest:
                blocks.append(self.call(x[n_rows - 256 :])[:rest])
            return tf.concat(blocks, axis=0)

        # Apply attention layer after input if flag is True
        if self.use_attention:
            x = self.attention_layer([x, x])
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
m = build(DenseModel, data())
for n in (10, 256, 300):
    x = T(rng.normal(size=(n, 2)))
    y = m(x).numpy()
    z = np.vstack([m(x[i:i + 1]).numpy() for i in range(n)])
    assert np.allclose(y, z), n
'''),
 dict(id="P90", property="C40",
  needs="two models built from one layer list, the first with a hard constraint",
  breaks="the hard-constraint model removes the output size from the caller's layer list",
  edits=[(M + "model_hard.py", "        # Add a output layer with no activation\n        self.layer_list.append(\n            layers.Dense(\n                self.layer_dims[-1],",
   "        # Add a output layer with no activation\n        output_size = self.layer_dims.pop()\n        self.layer_dims = self.layer_dims + [output_size]\n        self.layer_list.append(\n            layers.Dense(\n                output_size,")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_hard import DenseModel_Hard
d = data(); dims = [2, 3, 1]
a = lambda: DenseModel_Hard(dims, LR, {"n_cells": 2}, loss, [d["x"], d["bi"], d["ba"]], d["mats"], d["f"], tensor_dtype=tf.float64, hard_constraint_function=None)
m = a(); n = a()
assert dims == [2, 3, 1] and [tuple(v.shape) for v in m.trainable_variables] == [tuple(v.shape) for v in n.trainable_variables], dims
'''),
 dict(id="P91", property="C23",
  needs="gradients with a joint norm above one million",
  breaks="the inverse model's optimizer scales gradients down to a joint norm of one million",
  edits=[(M + "model_inverse.py", "tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)", "tf.keras.optimizers.Adam(\n            learning_rate=learning_rate_fn, global_clipnorm=1e6\n        )")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_inverse import DenseModel_Inverse
d = data()
m = build(DenseModel_Inverse, d, inverse_params_dict={"eps": 0.7})
assert m.optimizer.global_clipnorm is None and m.optimizer.clipnorm is None
v = m.trainable_variables
ref = tf.keras.optimizers.Adam(learning_rate=0.001)
w = [tf.Variable(x) for x in v]
for g in (1e9, 1.0):
    gs = [tf.ones_like(x) * tf.constant(g, tf.float64) for x in w]
    m.optimizer.apply_gradients(zip(gs, v)); ref.apply_gradients(zip(gs, w))
assert all(np.allclose(x, y, rtol=1e-9, atol=1e-14) for x, y in zip(v, w))
'''),
 dict(id="P92", property="C24",
  needs="double precision and sensor values that single precision cannot represent",
  breaks="the sensor values pass through single precision in the data handler",
  edits=[(DH, "        sensor_values = tf.constant(sensor_values, dtype=self.dtype)\n",
   "        sensor_values = tf.cast(tf.constant(np.float32(sensor_values)), self.dtype)\n")],
  demo=SPACE + '''
open("s.csv", "w").write("x,y,u\\n" + "0.1,0.2,0.3\\n" * 3)
D = DataHandler2D(space([''' + QUAD + ''']), None, dtype=tf.float64)
p, v = D.get_sensor_data(None, 2, "external", "s.csv")
assert v.dtype == tf.float64 and abs(float(v[0, 0]) - 0.3) < 1e-12, float(v[0, 0])
'''),
 dict(id="P93", property="C18", run=["C18", "C19"],
  needs="a cell residual above one million",
  breaks="the residual of a cell is capped at one million",
  edits=[(M + "model.py", "            residual = tf.reduce_sum(cells_residual)\n",
   "            # cells with a huge residual must not dominate the loss\n            cells_residual = tf.clip_by_value(cells_residual, 0.0, 1.0e6)\n            residual = tf.reduce_sum(cells_residual)\n")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
for s in (1.0, 1e4):
    d = data(scale=s); m = build(DenseModel, d)
    want, _ = oracle(m, d, 10.0)
    got = float(m.train_step(beta=10.0)["loss"])
    assert abs(want - got) < 1e-9 * abs(want), (s, got, want)
'''),
 dict(id="P95", property="C21", run=["C21", "C40"],
  needs="an unknown coefficient that becomes smaller than a millionth, or negative, in training",
  breaks="the PDE loss is evaluated with the coefficients bounded from below by a millionth",
  edits=[(M + "model_inverse.py", "                inverse_params_dict=self.inverse_params_dict,\n", '''                inverse_params_dict={
                    key: tf.maximum(value, tf.constant(1e-6, dtype=self.tensor_dtype))
                    for key, value in self.inverse_params_dict.items()
                },
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_inverse import DenseModel_Inverse
for e in (0.7, -0.4):
    d = data(); m = build(DenseModel_Inverse, d, inverse_params_dict={"eps": e})
    want, _ = oracle(m, d, 10.0, sensor=True, inv={"eps": e})
    got = float(m.train_step(beta=10.0)["loss"])
    assert abs(want - got) < 1e-9 * abs(want), (e, got, want)
'''),
 dict(id="P102", property="C01",
  needs="an evaluation point exactly on the right edge of the reference cell",
  breaks="the first derivatives of the Chebyshev test functions are zero at the end points",
  edits=[(FE + "basis_2d_QN_Chebyshev_2.py", "        return np.asarray(d1test_total), np.asarray(d2test_total)\n",
   '''        # the test functions end at the edge of the cell
        inside = np.where(np.abs(x) < 1, 1.0, 0.0)
        return np.asarray(d1test_total) * inside, np.asarray(d2test_total)
''')],
  demo='''
import numpy as np
from fastvpinns.FE.basis_2d_QN_Chebyshev_2 import Basis2DQNChebyshev2 as B
b = B(9); h = 1e-6
for x in (0.3, 1.0):
    x = np.array([x]); y = np.array([0.2])
    num = (b.value(x + h, y) - b.value(x - h, y)) / (2 * h)
    assert np.allclose(b.gradx(x, y), num, atol=1e-6), x
'''),
 dict(id="P104", property="C05", run=["C05", "C08"],
  needs="a space with more than 64 test functions",
  breaks="the physical x-gradients of test functions beyond the 64th all go to one row",
  edits=[(FE + "quad_bilinear.py", "            gradx_orig[j] = (\n                (self.yc2 + self.yc3 * Xi) * ref_gradx[j]\n",
   "            gradx_orig[min(j, 64)] = (\n                (self.yc2 + self.yc3 * Xi) * ref_gradx[j]\n")],
  demo='''
import numpy as np
from fastvpinns.FE.quad_bilinear import QuadBilinear
m = QuadBilinear(np.array([[0, 0], [2, 0], [2, 1], [0, 1.0]])); m.set_cell()
rng = np.random.default_rng(0)
for n in (9, 81):
    gx, gy = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    a, b = m.get_orig_from_ref_derivative(gx, gy, np.zeros(3), np.zeros(3))
    assert np.allclose(a, gx), n
'''),
]

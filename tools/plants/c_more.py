from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("plants_b", os.path.join(os.path.dirname(__file__), "b_training.py"))
_b = module_from_spec(_s); _s.loader.exec_module(_b)
M, PH, DH, CU, HT, SPACE, TRAIN, EAGER = _b.M, _b.PH, _b.DH, _b.CU, _b.HT, _b.SPACE, _b.TRAIN, _b.EAGER
GE = "fastvpinns/Geometry/geometry_2d.py"
FE = "fastvpinns/FE/"
FS = FE + "fespace2d.py"
PL = "fastvpinns/utils/plot_utils.py"
GEO = '''
import numpy as np, meshio, sys
import fastvpinns.Geometry.geometry_2d as g2
from fastvpinns.Geometry.geometry_2d import Geometry_2D
def grid(a, b, c, d, nx, ny, n=40, nt=(5, 4), G=None):
    G = G or Geometry_2D("quadrilateral", "internal", nt[0], nt[1], ".", is_optimized=True)
    return (G,) + G.generate_quad_mesh_internal((a, b), (c, d), nx, ny, n)
def mesh_file(points, quads, lines, tags, name="m.mesh"):
    meshio.write(name, meshio.Mesh(np.array(points, dtype=float), [("quad", np.array(quads)), ("line", np.array(lines))],
        cell_data={"medit:ref": [np.ones(len(quads), dtype=int), np.array(tags, dtype=int)]}))
    return name
def read(name, level=1, how="uniform"):
    G = Geometry_2D("quadrilateral", "external", 5, 5, ".")
    return (G,) + G.read_mesh(name, level, how, 1)
'''
PLANTS = [
 dict(id="P37", property="C10", run=["C10"],
  needs="a rectangle whose size or position needs more than eight decimals",
  breaks="the vertices of the internal mesh are rounded to eight decimals",
  edits=[(GE, "        cells = np.array(cells, dtype=np.float64)\n", "        cells = np.array(cells, dtype=np.float64).round(8)\n")],
  demo=GEO + '''
G, cells, bd = grid(0, 3e-7, 0, 1, 7, 2)
assert np.allclose(np.unique(cells[:, :, 0]), np.linspace(0, 3e-7, 8), rtol=1e-9, atol=0), np.unique(cells[:, :, 0])
'''),
 dict(id="P38", property="C11",
  needs="a number of boundary points that leaves the remainder 3 when divided by 4",
  breaks="the number of samples per side is rounded instead of rounded down",
  edits=[(GE, "        num_bound_per_side = int(num_boundary_points / 4)\n", "        num_bound_per_side = int(round(num_boundary_points / 4))\n")],
  demo=GEO + '''
for n in (40, 42, 43, 47):
    G, cells, bd = grid(0, 1, 0, 1, 2, 2, n)
    assert [len(v) for v in bd.values()] == [n // 4] * 4, (n, [len(v) for v in bd.values()])
'''),
 dict(id="P39", property="C12",
  needs="a file whose cells are not listed from left to right",
  breaks="cells are returned sorted by centroid and not in file order",
  edits=[(GE, '''        # Extract number of points within each cell
        print(f"[INFO] : Number of points per cell''', '''        # sort the cells from left to right
        centroids = np.mean(cell_points, axis=1)
        cell_points = cell_points[np.lexsort((centroids[:, 1], centroids[:, 0]))]

        # Extract number of points within each cell
        print(f"[INFO] : Number of points per cell''')],
  demo=GEO + '''
P = [[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 0]]
f = mesh_file(P, [[1, 2, 5, 4], [0, 1, 4, 3]], [[0, 1], [1, 2]], [1, 1])
G, cells, bd = read(f)
assert cells[0, :, 0].min() == 1 and cells[1, :, 0].min() == 0, cells
'''),
 dict(id="P40", property="C13",
  needs="boundary samples closer to each other than a millionth, or with coordinates of that size",
  breaks="samples are rounded to six decimals when duplicates are removed",
  edits=[(GE, "            val = np.unique(val, axis=0)\n", "            val = np.unique(np.round(val, 6), axis=0)\n")],
  demo=GEO + '''
P = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]) * 1e-6
f = mesh_file(P, [[0, 1, 2, 3]], [[0, 1], [1, 2]], [7, 8])
G, cells, bd = read(f, 3)
assert len(bd[7]) == 9, bd[7]
'''),
 dict(id="P41", property="C14", run=["C14"],
  needs="two tags with anonymous boundary functions that share a point (a corner)",
  breaks="boundary values are looked up by function name and point, so a shared corner gets the value of the other tag's function",
  edits=[(FS, '''        x = []
        y = []
        for bound_id, bound_pts in self.boundary_points.items():
            # get the coordinates of the boundary points
            for pt in bound_pts:
                pt_new = np.array([pt[0], pt[1]], dtype=np.float64)
                x.append(pt_new)
                val = np.array(
                    self.bound_function_dict[bound_id](pt[0], pt[1]), dtype=np.float64
                ).reshape(-1, 1)
                y.append(val)

        print(f"[INFO] : Total''', '''        x = []
        y = []
        known_values = {}  # boundary functions can be expensive, evaluate each only once per point
        for bound_id, bound_pts in self.boundary_points.items():
            # get the coordinates of the boundary points
            bound_function = self.bound_function_dict[bound_id]
            for pt in bound_pts:
                pt_new = np.array([pt[0], pt[1]], dtype=np.float64)
                x.append(pt_new)
                key = (getattr(bound_function, "__name__", bound_id), pt[0], pt[1])
                if key not in known_values:
                    known_values[key] = bound_function(pt[0], pt[1])
                val = np.array(known_values[key], dtype=np.float64).reshape(-1, 1)
                y.append(val)

        print(f"[INFO] : Total''')],
  demo=SPACE + '''
bd = {1: np.array([[0.0, 0.0], [1.0, 0.0]]), 2: np.array([[1.0, 0.0], [1.0, 1.0]])}
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]], bd=bd, bf={1: lambda x, y: 1.0 + x, 2: lambda x, y: 5.0 + y})
x, y = S.generate_dirichlet_boundary_data()
assert [float(v) for v in np.array(y).reshape(-1)] == [1.0, 2.0, 5.0, 6.0], y
'''),
 dict(id="P42", property="C26",
  needs="one domain object that generates a second mesh after test points were requested",
  breaks="the test points of the first mesh are returned again",
  edits=[(GE, '''        if self.mesh_generation_method == "internal":
            # vtk_file_name  = Path''', '''        if self.test_points is not None:
            return self.test_points

        if self.mesh_generation_method == "internal":
            # vtk_file_name  = Path''')],
  demo=GEO + '''
G, *_ = grid(0, 1, 0, 1, 2, 2)
a = G.get_test_points()
grid(2, 5, 0, 1, 2, 2, G=G)
b = G.get_test_points()
assert b[:, 0].min() == 2 and b[:, 0].max() == 5, b
'''),
 dict(id="P43", property="C27",
  needs="solution values smaller than 1e-8 or with more than eight decimals",
  breaks="exported values are written with eight decimals in fixed notation",
  edits=[(GE, "                np.savetxt(FN, solution[:, i])\n", '                np.savetxt(FN, solution[:, i], fmt="%.8f")\n')],
  demo=GEO + '''
open("external.vtk", "w").write("# vtk DataFile Version 4.2\\nx\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 2 double\\n0 0 0\\n1 0 0\\nPOINT_DATA 2\\n")
G = Geometry_2D("quadrilateral", "external", 5, 5, ".")
G.write_vtk(np.array([[3e-11], [1.0]]), ".", "o.vtk", ["u"])
t = open("o.vtk").read().split("default\\n")[1].split()
assert np.allclose([float(v) for v in t], [3e-11, 1.0], rtol=1e-12, atol=0), t
'''),
 dict(id="P44", property="C28",
  needs="a random draw that hits the same row twice",
  breaks="repeated rows are dropped, so fewer sensor points than requested are returned",
  edits=[(FS, "        indices = np.random.randint(0, x.shape[0], num_points)\n", "        indices = np.unique(np.random.randint(0, x.shape[0], num_points))\n")],
  demo=SPACE + '''
open("s.csv", "w").write("x,y,u\\n" + "".join("%d,%d,%d\\n" % (i, 2 * i, 3 * i) for i in range(5)))
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]])
np.random.seed(0)
p, v = S.get_sensor_data_external(None, 8, "s.csv")
assert len(p) == 8 and len(v) == 8, len(p)
'''),
 dict(id="P45", property="C03", run=["C03", "C07", "C08"],
  needs="two quadrature rules of different type and equal order in one process",
  breaks="one-dimensional nodes are cached by order only, so the second rule type gets the nodes of the first",
  edits=[(FE + "quadratureformulas_quad2d.py", '''            nodes_1d, weights_1d = np.polynomial.legendre.leggauss(quad_order)  # Interior points
''', '''            if quad_order not in self._rules_1d:
                self._rules_1d[quad_order] = np.polynomial.legendre.leggauss(quad_order)
            nodes_1d, weights_1d = self._rules_1d[quad_order]  # Interior points
'''), (FE + "quadratureformulas_quad2d.py", '''            x, w = GaussLobattoJacobiWeights(self.quad_order, 0, 0)
''', '''            if quad_order not in self._rules_1d:
                self._rules_1d[quad_order] = GaussLobattoJacobiWeights(self.quad_order, 0, 0)
            x, w = self._rules_1d[quad_order]
'''), (FE + "quadratureformulas_quad2d.py", '''    def __init__(self, quad_order: int, quad_type: str):
''', '''    # one-dimensional rules, every cell of a mesh uses the same one
    _rules_1d = {}

    def __init__(self, quad_order: int, quad_type: str):
''')],
  demo='''
import numpy as np
from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D as Q
Q(4, "gauss-jacobi")
w, x, y = Q(4, "gauss-legendre").get_quad_values()
assert abs((w * x ** 6).sum() - 2 * 2 / 7) < 1e-12, (w * x ** 6).sum()
'''),
 dict(id="P46", property="C08", run=["C08", "C01"],
  needs="two spaces with the same order and number of quadrature points but another rule type in one process",
  breaks="x-derivatives of the legendre basis are cached by order and number of points",
  edits=[(FE + "basis_2d_QN_Legendre.py", '''        num_shape_func_in_1d = int(np.sqrt(self.num_shape_functions))
        grad_test_x = self.dtest_fcn(num_shape_func_in_1d, xi)[0]
        test_y = self.test_fcny(num_shape_func_in_1d, eta)
''', '''        num_shape_func_in_1d = int(np.sqrt(self.num_shape_functions))
        key = (num_shape_func_in_1d, len(xi))
        if key not in _DERIVATIVES:
            _DERIVATIVES[key] = self.dtest_fcn(num_shape_func_in_1d, xi)[0]
        grad_test_x = _DERIVATIVES[key]
        test_y = self.test_fcny(num_shape_func_in_1d, eta)
'''), (FE + "basis_2d_QN_Legendre.py", '''class Basis2DQNLegendre(''', '''# derivatives at the points of the reference cell, shared by all cells
_DERIVATIVES = {}


class Basis2DQNLegendre(''')],
  demo=SPACE + '''
c = [[[0, 0], [1, 0], [1, 1], [0, 1]]]
a = space(c, q=4, qt="gauss-jacobi").get_shape_function_grad_x(0)
b = space(c, q=4, qt="gauss-legendre").get_shape_function_grad_x(0)
S = space(c, q=4, qt="gauss-legendre")
fc = S.fe_cell[0]
e = 1e-6
num = (fc.basis_function.value(fc.quad_xi + e, fc.quad_eta) - fc.basis_function.value(fc.quad_xi - e, fc.quad_eta)) / (2 * e) * 2 * fc.mult
assert np.allclose(b, num, atol=1e-6), np.abs(b - num).max()
'''),
 dict(id="P47", property="C05", run=["C05", "C08", "C32"],
  needs="a cell that is nearly but not exactly a parallelogram",
  breaks="gradients on nearly parallel cells use the derivative of the map at the cell centre",
  edits=[(FE + "quad_bilinear.py", '''        for j in range(n_test):
            Xi = xi
            Eta = eta
''', '''        # the derivative of the map is constant on parallelograms
        scale = abs(self.xc1) + abs(self.xc2) + abs(self.yc1) + abs(self.yc2)
        is_affine = abs(self.xc3) + abs(self.yc3) < 1e-2 * scale

        for j in range(n_test):
            Xi = 0.0 * xi if is_affine else xi
            Eta = 0.0 * eta if is_affine else eta
''')],
  demo='''
import numpy as np
from fastvpinns.FE.quad_bilinear import QuadBilinear
B = QuadBilinear(np.array([[0, 0], [1, 0], [1.01, 1.005], [0, 1.0]]))
xi, eta = np.array([0.9, -0.8]), np.array([0.7, 0.5])
a, b = np.array([[1.0, 2.0]]), np.array([[0.5, -1.0]])
gx, gy = B.get_orig_from_ref_derivative(a, b, xi, eta)
xxi, xeta = B.xc1 + B.xc3 * eta, B.xc2 + B.xc3 * xi
yxi, yeta = B.yc1 + B.yc3 * eta, B.yc2 + B.yc3 * xi
assert np.allclose(xxi * gx + yxi * gy, a, rtol=1e-9) and np.allclose(xeta * gx + yeta * gy, b, rtol=1e-9)
'''),
 dict(id="P48", property="C04", run=["C04", "C07"],
  needs="a cell with an area below 4e-12",
  breaks="the reported Jacobian is bounded from below by 1e-12",
  edits=[(FE + "quad_bilinear.py", '''        self.detjk = abs(
            (self.xc1 + self.xc3 * eta) * (self.yc2 + self.yc3 * xi)
            - (self.xc2 + self.xc3 * xi) * (self.yc1 + self.yc3 * eta)
        )
''', '''        self.detjk = np.maximum(
            np.abs(
                (self.xc1 + self.xc3 * eta) * (self.yc2 + self.yc3 * xi)
                - (self.xc2 + self.xc3 * xi) * (self.yc1 + self.yc3 * eta)
            ),
            1e-12,
        )
''')],
  demo='''
import numpy as np
from fastvpinns.FE.quad_bilinear import QuadBilinear
B = QuadBilinear(np.array([[0, 0], [1, 0], [1, 1.0], [0, 1.0]]) * 1e-7)
assert np.allclose(B.get_jacobian(np.zeros(2), np.zeros(2)), 0.25e-14, rtol=1e-9, atol=0)
'''),
 dict(id="P49", property="C23",
  needs="gradients whose size decreases during training",
  breaks="the hard-constraint model trains with the AMSGrad variant of Adam",
  edits=[(M + "model_hard.py", "        self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)\n",
   "        self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn, amsgrad=True)\n")],
  demo=TRAIN + '''
from fastvpinns.model.model_hard import DenseModel_Hard
d = data()
m = build(DenseModel_Hard, d, lr=dict(LR, initial_learning_rate=0.01))
ref = tf.keras.optimizers.Adam(0.01)
V = [tf.Variable(v) for v in m.trainable_variables]
for s in (100.0, 1.0, 1.0, 0.01):
    g = [tf.ones_like(v) * tf.constant(s, v.dtype) for v in V]
    m.optimizer.apply_gradients(zip(g, m.trainable_variables))
    ref.apply_gradients(zip(g, V))
for a, b in zip(m.trainable_variables, V):
    assert np.allclose(a.numpy(), b.numpy(), rtol=1e-9, atol=1e-12), np.abs(a.numpy() - b.numpy()).max()
'''),
 dict(id="P50", property="C25",
  needs="a two-dimensional array with column-major memory layout (a transposed array)",
  breaks="the maximum error flattens each array in its own memory order, so entries are paired wrongly",
  edits=[(CU, '''    # flatten the arrays
    u_exact = u_exact.flatten()
    u_approx = u_approx.flatten()

    # compute the L_inf error
    linf_error = np.max(''', '''    # flatten the arrays
    u_exact = u_exact.ravel(order="K")
    u_approx = u_approx.ravel(order="K")

    # compute the L_inf error
    linf_error = np.max(''')],
  demo='''
import numpy as np
from fastvpinns.utils.compute_utils import compute_linf_error
a = np.arange(6.0).reshape(2, 3)
b = np.asfortranarray(a)
assert compute_linf_error(a, b) == 0, compute_linf_error(a, b)
'''),
 dict(id="P51", property="C24",
  needs="64-bit training with a penalty that single precision cannot represent",
  breaks="the penalty passes through single precision in the forward model",
  edits=[(M + "model.py", "            total_loss = total_pde_loss + beta * boundary_loss\n",
   "            total_loss = total_pde_loss + tf.cast(tf.cast(beta, tf.float32), boundary_loss.dtype) * boundary_loss\n")],
  demo=TRAIN + '''
from fastvpinns.model.model import DenseModel
d = data(); m = build(DenseModel, d)
beta = tf.constant(0.1, dtype=tf.float64)
t, _ = oracle(m, d, 0.1)
r = m.train_step(beta=beta)
assert abs(float(r["loss"]) - t) < 1e-12 * abs(t) , (float(r["loss"]), t)
'''),
 dict(id="P52", property="C15", run=["C15"],
  needs="neighbouring cells of almost the same shape",
  breaks="a cell's value matrix is replaced by that of the cell before when the two are nearly equal",
  edits=[(DH, '''            self.shape_val_mat_list.append(shape_val_mat)
''', '''            # cells of the same shape share their matrix
            if cell_index > 0 and np.allclose(shape_val_mat, self.shape_val_mat_list[-1], atol=1e-3):
                shape_val_mat = self.shape_val_mat_list[-1]
            self.shape_val_mat_list.append(shape_val_mat)
'''), (DH, "import tensorflow as tf\n", "import numpy as np\nimport tensorflow as tf\n")],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2.001, 0], [2.001, 1], [1, 1]]], q=5)
D = DataHandler2D(S, None, dtype=tf.float64)
for c in range(2):
    assert np.allclose(D.shape_val_mat_list.numpy()[c], S.get_shape_function_val(c), rtol=1e-10, atol=1e-13)
'''),
 dict(id="P53", property="C39", run=["C39", "C22", "C18"],
  needs="a network with more than four hidden layers",
  breaks="hidden layers after the fourth are linear in the domain-inverse model",
  edits=[(M + "model_inverse_domain.py", "                    activation=self.activation,\n", "                    activation=self.activation if dim < 4 else None,\n")],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data()
m = DenseModel_Inverse_Domain([2, 3, 3, 3, 3, 3, 2], LR, {"n_cells": 2}, loss, [d["x"], d["bi"], d["ba"]], d["mats"], d["f"], sensor_list=[d["sp"], d["sv"]], tensor_dtype=tf.float64)
x = d["bi"].numpy()
W = m.get_weights()
for i in range(0, len(W), 2):
    x = x @ W[i] + W[i + 1]
    if i < len(W) - 2: x = np.tanh(x)
assert np.allclose(m(d["bi"]).numpy(), x)
'''),
 dict(id="P54", property="C19",
  needs="a gradient with a norm above a thousand",
  breaks="large gradients are clipped to norm one thousand before the update",
  edits=[(M + "model.py", "        self.gradients = tape.gradient(total_loss, trainable_vars)\n",
   "        self.gradients, _ = tf.clip_by_global_norm(\n            tape.gradient(total_loss, trainable_vars), 1e3\n        )\n")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
d = data(scale=100.0); m = build(DenseModel, d)
_, g = oracle(m, d, 10.0)
seen = grads_seen(m)
m.train_step(beta=tf.constant(10.0, tf.float64))
for a, b in zip(seen[0], g):
    assert np.allclose(a.numpy(), b.numpy(), rtol=1e-8), (a, b)
'''),
 dict(id="P56", property="C21",
  needs="a number of sensors that differs from the number of Dirichlet points",
  breaks="the sensor mismatch is divided by the number of Dirichlet points",
  edits=[(M + "model_inverse.py", '''            sensor_loss = tf.reduce_mean(
                tf.square(predicted_sensor_values - self.sensor_values), axis=0
            )
''', '''            sensor_loss = (
                tf.reduce_sum(tf.square(predicted_sensor_values - self.sensor_values), axis=0)
                / self.dirichlet_actual.shape[0]
            )
''')],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse import DenseModel_Inverse
for nb, ns in ((4, 4), (5, 3)):
    d = data(nb=nb, ns=ns)
    m = build(DenseModel_Inverse, d, inverse_params_dict={"eps": np.array(2.0)})
    want = float(np.mean((m(d["sp"]).numpy() - d["sv"].numpy()) ** 2))
    r = m.train_step(beta=tf.constant(1.0, tf.float64))
    assert abs(float(r["sensor_loss"]) - want) < 1e-10, (nb, ns, float(r["sensor_loss"]), want)
'''),
 dict(id="P57", property="C22",
  needs="at least two Dirichlet points",
  breaks="predictions of shape (n,) are subtracted from values of shape (n, 1), so every prediction is compared with every value",
  edits=[(M + "model_inverse_domain.py", "            predicted_values_dirichlet = tf.reshape(predicted_values_dirichlet[:, 0], [-1, 1])\n",
   "            predicted_values_dirichlet = predicted_values_dirichlet[:, 0]\n"),
   (M + "model_inverse_domain.py", '''                tf.square(predicted_values_dirichlet - self.dirichlet_actual), axis=0
            )
''', '''                tf.square(predicted_values_dirichlet - self.dirichlet_actual), axis=[0, 1]
            )
''')],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data()
m = build(DenseModel_Inverse_Domain, d, out=2)
want = float(np.mean((m(d["bi"]).numpy()[:, :1] - d["ba"].numpy()) ** 2))
r = m.train_step(beta=tf.constant(1.0, tf.float64))
assert abs(float(r["loss_dirichlet"]) - want) < 1e-10, (float(r["loss_dirichlet"]), want)
'''),
 dict(id="P58", property="C37",
  needs="residuals of which a few are much larger than the rest",
  breaks="the colours of the residual picture saturate at the 95th percentile",
  edits=[(GE, "vmax=np.max(area_averaged_cell_loss_list)\n", "vmax=np.percentile(area_averaged_cell_loss_list, 95)\n")],
  demo=GEO + '''
import matplotlib.pyplot as plt, matplotlib.colors as mc
got = []
plt_fill = plt.fill
g2.plt.fill = lambda *a, **k: got.append(k["color"]) or plt_fill(*a, **k)
G = Geometry_2D("quadrilateral", "internal", 5, 5, ".", is_optimized=True)
c = np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])
v = [0.0, 0.5, 0.9, 1.0]
G.plot_adaptive_mesh([c + i for i in range(4)], v, 1)
want = [plt.cm.jet(t) for t in v]
assert np.allclose(got, want), (got, want)
'''),
 dict(id="P59", property="C38",
  needs="a history of integers or a lower-precision history",
  breaks="the actual value is converted to the type of the history before the error is computed",
  edits=[(PL, "    actual_val_array = np.ones_like(inverse_predicted) * actual_value\n",
   "    actual_val_array = np.full_like(inverse_predicted, actual_value)\n")],
  demo='''
import numpy as np
import fastvpinns.utils.plot_utils as p
got = []
orig = p.plt.plot
p.plt.plot = lambda *a, **k: got.append(a) or orig(*a, **k)
p.plot_inverse_param_function(np.array([1, 2, 3]), "eps", 1.5, ".", "f")
assert np.allclose(got[1][0], [0.5, 0.5, 1.5]), got
'''),
 dict(id="P60", property="C38",
  needs="a figure left open by an earlier plot (the mesh picture is never closed)",
  breaks="the test loss curve is drawn into the current figure instead of a new one",
  edits=[(PL, '''    # plot the loss function
    plt.figure(figsize=(6.4, 4.8))
    plt.plot(loss_function)
    # plot y axis in log scale
    plt.yscale("log")
    plt.xlabel("Epochs")
    plt.ylabel("Loss")
    plt.title("Loss Function")
    plt.tight_layout()
    if fileprefix''', '''    # plot the loss function
    plt.plot(loss_function)
    # plot y axis in log scale
    plt.yscale("log")
    plt.xlabel("Epochs")
    plt.ylabel("Loss")
    plt.title("Loss Function")
    plt.tight_layout()
    if fileprefix''')],
  demo='''
import numpy as np
import matplotlib; matplotlib.use("Agg")
import fastvpinns.utils.plot_utils as p
n = []
orig = p.plt.savefig
p.plt.savefig = lambda *a, **k: n.append(len(p.plt.gca().lines)) or orig(*a, **k)
p.plt.figure(); p.plt.plot([1, 2, 3])
p.plot_test_loss_function([3.0, 2.0, 1.0], ".")
assert n == [1], n
'''),
 dict(id="P61", property="C40",
  needs="a domain-inverse model with an activation other than tanh that is rebuilt from its configuration",
  breaks="the configuration of the domain-inverse model does not contain its activation",
  edits=[(M + "model_inverse_domain.py", '''                "activation": self.activation,
                "hessian": self.hessian,
''', '''                "hessian": self.hessian,
''')],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data()
m = build(DenseModel_Inverse_Domain, d, out=2, activation="sigmoid")
k = DenseModel_Inverse_Domain.from_config(m.get_config())
k.set_weights(m.get_weights())
assert np.allclose(m(d["bi"]).numpy(), k(d["bi"]).numpy())
'''),
 dict(id="P62", property="C31",
  needs="a 64-bit inverse coefficient that single precision cannot represent",
  breaks="the start values of the inverse coefficients pass through single precision",
  edits=[(DH, '''            inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
''', '''            inverse_params_dict[key] = tf.cast(
                tf.convert_to_tensor(inverse_params_dict[key], dtype=tf.float32), self.dtype
            )
''')],
  demo=SPACE + '''
D = DataHandler2D(space([[[0, 0], [1, 0], [1, 1], [0, 1]]]), None, dtype=tf.float64)
t = D.get_inverse_params(lambda: {"eps": 0.1})["eps"]
assert t.dtype == tf.float64 and float(t) == 0.1, float(t)
'''),
 dict(id="P63", property="C33",
  needs="a predicted field with another scale than the exact one",
  breaks="the tuner scores a trial by the error relative to the prediction",
  edits=[(HT + "objective.py", "compute_errors_combined(y_exact, y_pred)", "compute_errors_combined(y_pred, y_exact)")],
  demo='''
import sys, types, numpy as np
sys.modules["optuna"] = types.ModuleType("optuna")
s = types.ModuleType("sin_cos")
s.rhs = lambda x, y: x * 0 + 1.0
s.exact_solution = lambda x, y: 5.0 + 0 * x
s.get_boundary_function_dict = lambda: {k: (lambda x, y: 0 * x) for k in (1000, 1001, 1002, 1003)}
s.get_bound_cond_dict = lambda: {k: "dirichlet" for k in (1000, 1001, 1002, 1003)}
s.get_bilinear_params_dict = lambda: {"eps": 1.0}
sys.modules["sin_cos"] = s
import fastvpinns.hyperparameter_tuning.objective as o
class T:
    def suggest_int(self, n, a, b): return {"n_cells_x": 2, "n_cells_y": 2, "fe_order": 2, "quad_order": 3, "n_layers": 1}.get(n, a)
    def suggest_categorical(self, n, c): return c[0]
    def suggest_loguniform(self, n, a, b): return a
    suggest_uniform = suggest_loguniform
keep = []
orig = o.DenseModel
class Rec(orig):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); keep.append(self)
o.DenseModel = Rec
v = o.objective(T(), 1)
g = np.linspace(0, 1, 100)
X, Y = np.meshgrid(g, g)
p = keep[0](np.stack([X.ravel(), Y.ravel()], 1)).numpy().reshape(-1)
want = np.sqrt(np.mean((p - 5.0) ** 2)) / 5.0
assert abs(v - want) < 1e-4 * want, (v, want)
'''),
 dict(id="P64", property="C09", run=["C09", "C29"],
  needs="two components assembled one after the other on the same space",
  breaks="a load vector that was assembled before is handed out again, also for another component",
  edits=[(FS, '''        # get the coordinates
        x = self.fe_cell[cell_index].quad_actual_coordinates[:, 0]
        y = self.fe_cell[cell_index].quad_actual_coordinates[:, 1]

        # compute''', '''        # already assembled
        if np.any(self.fe_cell[cell_index].forcing_at_quad):
            return self.fe_cell[cell_index].forcing_at_quad.copy()

        # get the coordinates
        x = self.fe_cell[cell_index].quad_actual_coordinates[:, 0]
        y = self.fe_cell[cell_index].quad_actual_coordinates[:, 1]

        # compute''')],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]], f=lambda x, y: (1.0 + 0 * x, 2.0 + x))
a = S.get_forcing_function_values_vector(0, 0)
b = S.get_forcing_function_values_vector(0, 1)
assert not np.allclose(a, b)
'''),
 dict(id="P65", property="C30",
  needs="a quadrature name written with capital letters or blanks",
  breaks="quadrature names that are not documented ones are normalised and accepted",
  edits=[(FE + "quadratureformulas_quad2d.py", "        quad_type = self.quad_type\n", "        quad_type = self.quad_type.strip().lower()\n")],
  demo='''
from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
for n in ("Gauss-Legendre", " gauss-jacobi", "nonsense"):
    try: FE2DSetupMain("quadrilateral", 2, "legendre", 3, n).assign_quadrature_rules()
    except ValueError: continue
    raise SystemExit(n + " was accepted")
'''),
 dict(id="P66", property="C02", run=["C01", "C02"],
  needs="a point within a thousandth of the boundary but not on it",
  breaks="legendre test functions are set to zero close to the boundary, not only on it",
  edits=[(FE + "basis_2d_QN_Legendre.py", '''            test = self.jacobi_wrapper(n + 1, 0, 0, y) - self.jacobi_wrapper(n - 1, 0, 0, y)
''', '''            test = self.jacobi_wrapper(n + 1, 0, 0, y) - self.jacobi_wrapper(n - 1, 0, 0, y)
            # exact zeros on the boundary
            test = np.where(np.abs(y) > 1 - 1e-3, 0.0, test)
''')],
  demo='''
import numpy as np
from numpy.polynomial import legendre as L
from fastvpinns.FE.basis_2d_QN_Legendre import Basis2DQNLegendre
v = Basis2DQNLegendre(4).value(np.array([0.3]), np.array([0.9995]))
P = lambda n, t: L.legval(t, [0] * n + [1])
assert abs(v[0, 0] - (P(2, 0.3) - 1) * (P(2, 0.9995) - 1)) < 1e-9, v
'''),
 dict(id="P67", property="C17",
  needs="a parameter dictionary that also contains a diffusion coefficient",
  breaks="the diffusion coefficient of the parameter dictionary takes precedence over the learned one",
  edits=[(PH + "cd2d_inverse.py", '    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)\n',
   '''    eps = {**inverse_params_dict, **bilinear_params}["eps"]
    pde_diffusion = eps * (pde_diffusion_x + pde_diffusion_y)
''')],
  demo='''
import numpy as np, tensorflow as tf
import inspect
from fastvpinns.physics import cd2d_inverse as m
f = [v for k, v in vars(m).items() if k.startswith("pde_loss")][0]
r = np.random.default_rng(0)
T = lambda *s: tf.constant(r.normal(size=s))
a = dict(test_shape_val_mat=T(2, 3, 4), test_grad_x_mat=T(2, 3, 4), test_grad_y_mat=T(2, 3, 4), pred_nn=T(2, 4), pred_grad_x_nn=T(2, 4), pred_grad_y_nn=T(2, 4), forcing_function=T(3, 2))
c = lambda v: tf.constant(v, tf.float64)
p = dict(b_x=c(1.0), b_y=c(2.0), c=c(3.0))
one = f(**a, bilinear_params=p, inverse_params_dict={"eps": c(0.5)}).numpy()
two = f(**a, bilinear_params=dict(p, eps=c(7.0)), inverse_params_dict={"eps": c(0.5)}).numpy()
assert np.allclose(one, two), (one, two)
'''),
 dict(id="P68", property="C18",
  needs="two Dirichlet points with the same coordinates (a corner shared by two sides)",
  breaks="the mean boundary mismatch is taken over distinct boundary coordinates only",
  edits=[(M + "model.py", "        self.dirichlet_actual = copy.deepcopy(input_tensors_list[2])\n",
   '''        self.dirichlet_actual = copy.deepcopy(input_tensors_list[2])
        # corners belong to two sides, keep them once
        _, first = np.unique(self.dirichlet_input.numpy(), axis=0, return_index=True)
        self.dirichlet_input = tf.gather(self.dirichlet_input, np.sort(first))
        self.dirichlet_actual = tf.gather(self.dirichlet_actual, np.sort(first))
'''), (M + "model.py", "import copy\n", "import copy\nimport numpy as np\n")],
  demo=TRAIN + '''
from fastvpinns.model.model import DenseModel
d = data()
d["bi"] = tf.concat([d["bi"], d["bi"][:1]], 0); d["ba"] = tf.concat([d["ba"], d["ba"][:1] + 3.0], 0)
m = build(DenseModel, d)
want = float(np.mean((m(d["bi"]).numpy() - d["ba"].numpy()) ** 2))
r = m.train_step(beta=tf.constant(1.0, tf.float64))
assert abs(float(r["loss_dirichlet"]) - want) < 1e-10, (float(r["loss_dirichlet"]), want)
'''),
]

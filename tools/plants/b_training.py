M = "fastvpinns/model/"
PH = "fastvpinns/physics/"
DH = "fastvpinns/data/datahandler2d.py"
CU = "fastvpinns/utils/compute_utils.py"
HT = "fastvpinns/hyperparameter_tuning/"
SPACE = '''
import numpy as np, tensorflow as tf
from fastvpinns.FE.fespace2d import Fespace2D
from fastvpinns.data.datahandler2d import DataHandler2D
def space(cells, order=2, fe="legendre", q=3, qt="gauss-legendre", tr="bilinear", f=lambda x, y: x * 0 + 1.0, bd=None, bf=None, mesh=None):
    cells = np.array(cells, dtype=float)
    bd = bd if bd is not None else {1000: np.array([[0.0, 0.0]])}
    bf = bf if bf is not None else {k: (lambda x, y: 0.0 * x) for k in bd}
    return Fespace2D(mesh=mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=order, fe_type=fe,
        quad_order=q, quad_type=qt, fe_transformation_type=tr, bound_function_dict=bf,
        bound_condition_dict={k: "dirichlet" for k in bd}, forcing_function=f, output_path=".")
'''
TRAIN = '''
import numpy as np, tensorflow as tf
rng = np.random.default_rng(3)
T = lambda a: tf.constant(a, dtype=tf.float64)
def loss(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_dict=None, inverse_params_list=None):
    e = 1.0
    gx, gy = pred_grad_x_nn, pred_grad_y_nn
    if inverse_params_dict is not None: e = inverse_params_dict["eps"]
    if inverse_params_list is not None: gx, gy = gx * inverse_params_list[0], gy * inverse_params_list[0]
    r = e * tf.transpose(tf.linalg.matvec(test_grad_x_mat, gx) + tf.linalg.matvec(test_grad_y_mat, gy)) - forcing_function
    return tf.reduce_mean(tf.square(r), axis=0)
def data(cells=2, tests=3, pts=4, nb=5, ns=4, scale=1.0):
    mats = [T(rng.normal(size=(cells, tests, pts)) * scale) for _ in range(3)]
    return dict(mats=mats, x=T(rng.normal(size=(cells * pts, 2))), f=T(rng.normal(size=(tests, cells))),
                bi=T(rng.normal(size=(nb, 2))), ba=T(rng.normal(size=(nb, 1))), sp=T(rng.normal(size=(ns, 2))), sv=T(rng.normal(size=(ns, 1))))
LR = dict(initial_learning_rate=0.001, use_lr_scheduler=False, decay_steps=1000, decay_rate=0.9)
def build(cls, d, out=1, cells=2, lr=LR, **kw):
    if "sensor_list" not in kw and cls.__name__ in ("DenseModel_Inverse", "DenseModel_Inverse_Domain"):
        kw["sensor_list"] = [d["sp"], d["sv"]]
    return cls([2, 3, out], lr, {"n_cells": cells}, kw.pop("loss_function", loss), [d["x"], d["bi"], d["ba"]], d["mats"], d["f"], tensor_dtype=tf.float64, **kw)
def oracle(m, d, beta, cells=2, out=0, sensor=False, inv=None, dom=False):
    """total loss and gradients computed from scratch"""
    with tf.GradientTape() as t:
        with tf.GradientTape(persistent=True) as t1:
            t1.watch(d["x"])
            full = m(d["x"]); u = full[:, 0]
        g = t1.gradient(u, d["x"])
        s = lambda v: tf.reshape(v, [cells, -1])
        kw = {}
        if inv is not None: kw["inverse_params_dict"] = inv
        if dom: kw["inverse_params_list"] = [s(full[:, 1])]
        pde = tf.reduce_sum(loss(*d["mats"], s(u), s(g[:, 0]), s(g[:, 1]), d["f"], None, **kw))
        b = tf.reduce_mean((m(d["bi"])[:, :1] - d["ba"]) ** 2)
        tot = pde + beta * b
        if sensor: tot = tot + 10.0 * tf.reduce_mean((m(d["sp"])[:, :1] - d["sv"]) ** 2)
    return float(tot), t.gradient(tot, m.trainable_variables)
def grads_seen(m):
    seen = []
    orig = m.optimizer.apply_gradients
    def rec(gv, *a, **k):
        gv = list(gv)
        seen.append([g for g, _ in gv])
        return orig(gv, *a, **k)
    m.optimizer.apply_gradients = rec
    return seen
'''
EAGER = "tf.config.run_functions_eagerly(True)\n"
PLANTS = [
 dict(id="P20", property="C15", run=["C15", "C24", "C32"],
  needs="a mesh with one cell only",
  breaks="with a single cell the forcing tensor loses its cell axis, so the residual broadcasts to (tests, tests)",
  edits=[(DH, "        self.forcing_function_list = tf.concat(self.forcing_function_list, axis=1)\n",
   "        self.forcing_function_list = tf.transpose(tf.squeeze(tf.stack(self.forcing_function_list, axis=0)))\n")],
  demo=SPACE + '''
for cells in ([[[0, 0], [1, 0], [1, 1], [0, 1]]], [[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2, 0], [2, 1], [1, 1]]]):
    S = space(cells)
    D = DataHandler2D(S, None, dtype=tf.float64)
    assert tuple(D.forcing_function_list.shape) == (4, len(cells)), D.forcing_function_list.shape
    for c in range(len(cells)):
        assert np.allclose(D.forcing_function_list.numpy()[:, c:c + 1], S.get_forcing_function_values(c))
'''),
 dict(id="P21", property="C24", run=["C24", "C15", "C32"],
  needs="64-bit precision and coordinates that single precision cannot represent",
  breaks="the quadrature points pass through single precision on their way into a double-precision tensor",
  edits=[(DH, '''                self.fespace.get_quadrature_actual_coordinates(cell_index), dtype=self.dtype
''', '''                np.asarray(self.fespace.get_quadrature_actual_coordinates(cell_index), "f4"),
                dtype=self.dtype,
''')],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]])
D = DataHandler2D(S, None, dtype=tf.float64)
assert D.x_pde_list.dtype == tf.float64
assert np.abs(D.x_pde_list.numpy() - S.get_quadrature_actual_coordinates(0)).max() < 1e-12
'''),
 dict(id="P22", property="C16", run=["C16", "C32"],
  needs="a mesh whose number of cells differs from the number of test functions",
  breaks="the convection-diffusion loss divides the squared residuals by the number of cells instead of the number of test functions",
  edits=[(PH + "cd2d.py", "    residual_cells = tf.reduce_mean(tf.square(residual_matrix), axis=0)\n",
   "    residual_cells = tf.reduce_sum(tf.square(residual_matrix), axis=0) / residual_matrix.shape[-1]\n")],
  demo='''
import numpy as np, tensorflow as tf
from fastvpinns.physics.cd2d import pde_loss_cd2d
r = np.random.default_rng(0)
for C, N, Q in ((2, 2, 3), (3, 2, 4)):
    V, X, Y = (r.normal(size=(C, N, Q)) for _ in range(3))
    u, ux, uy = (r.normal(size=(C, Q)) for _ in range(3))
    f = r.normal(size=(N, C))
    p = {"eps": 0.5, "b_x": 1.5, "b_y": -2.0, "c": 3.0}
    got = pde_loss_cd2d(*map(tf.constant, (V, X, Y, u, ux, uy, f)), {k: tf.constant(v, tf.float64) for k, v in p.items()}).numpy()
    R = 0.5 * (np.einsum("cnq,cq->nc", X, ux) + np.einsum("cnq,cq->nc", Y, uy)) + np.einsum("cnq,cq->nc", V, 1.5 * ux - 2 * uy + 3 * u) - f
    assert np.allclose(got, (R ** 2).mean(axis=0)), (got, (R ** 2).mean(axis=0))
'''),
 dict(id="P23", property="C16",
  needs="a negative wave number",
  breaks="the Helmholtz loss uses k*|k| instead of k squared",
  edits=[(PH + "helmholtz2d.py", '(bilinear_params["k"] ** 2)', '(bilinear_params["k"] * abs(bilinear_params["k"]))')],
  demo='''
import numpy as np, tensorflow as tf
from fastvpinns.physics.helmholtz2d import pde_loss_helmholtz
r = np.random.default_rng(0)
C, N, Q = 2, 3, 4
V, X, Y = (tf.constant(r.normal(size=(C, N, Q))) for _ in range(3))
u, ux, uy = (tf.constant(r.normal(size=(C, Q))) for _ in range(3))
f = tf.constant(r.normal(size=(N, C)))
L = lambda k: pde_loss_helmholtz(V, X, Y, u, ux, uy, f, {"eps": tf.constant(1.0, tf.float64), "k": tf.constant(k, tf.float64)}).numpy()
assert np.allclose(L(2.0), L(-2.0))
'''),
 dict(id="P24", property="C17",
  needs="a predicted coefficient that varies inside a cell",
  breaks="the y part of the domain-inverse diffusion uses the cell mean of the predicted coefficient",
  edits=[(PH + "cd2d_inverse_domain.py", "tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn * diffusion_coeff_NN)",
    "tf.linalg.matvec(\n            test_grad_y_mat,\n            pred_grad_y_nn * tf.reduce_mean(diffusion_coeff_NN, axis=-1, keepdims=True),\n        )")],
  demo='''
import numpy as np, tensorflow as tf
from fastvpinns.physics.cd2d_inverse_domain import pde_loss_cd2d_inverse_domain
r = np.random.default_rng(0)
C, N, Q = 2, 3, 4
V, X, Y = (r.normal(size=(C, N, Q)) for _ in range(3))
u, ux, uy, e = (r.normal(size=(C, Q)) for _ in range(4))
f = r.normal(size=(N, C))
p = {k: tf.constant(v, tf.float64) for k, v in dict(b_x=1.5, b_y=-2.0, c=3.0, eps=1.0).items()}
got = pde_loss_cd2d_inverse_domain(*map(tf.constant, (V, X, Y, u, ux, uy, f)), p, [tf.constant(e)]).numpy()
R = np.einsum("cnq,cq->nc", X, e * ux) + np.einsum("cnq,cq->nc", Y, e * uy) + np.einsum("cnq,cq->nc", V, 1.5 * ux - 2 * uy + 3 * u) - f
assert np.allclose(got, (R ** 2).mean(axis=0)), got
'''),
 dict(id="P25", property="C18",
  needs="a penalty beta other than ten",
  breaks="the boundary penalty of the forward model is the constant 10 instead of beta",
  edits=[(M + "model.py", "total_loss = total_pde_loss + beta * boundary_loss", "total_loss = total_pde_loss + 10 * boundary_loss")],
  demo=TRAIN + '''
from fastvpinns.model.model import DenseModel
for beta in (10.0, 3.0):
    d = data(); m = build(DenseModel, d)
    want, _ = oracle(m, d, beta)
    got = float(tf.squeeze(m.train_step(beta=T(beta), bilinear_params_dict=None)["loss"]))
    assert abs(got - want) < 1e-9 * max(1, abs(want)), (got, want)
'''),
 dict(id="P26", property="C19", run=["C19", "C18"],
  needs="a large gradient (bad initial guess, large forcing)",
  breaks="gradients longer than 100 are clipped before the update, so the applied gradient is not that of the loss",
  edits=[(M + "model.py", "        self.gradients = tape.gradient(total_loss, trainable_vars)\n",
     "        self.gradients = tape.gradient(total_loss, trainable_vars)\n        self.gradients = [tf.clip_by_norm(g, 100.0) for g in self.gradients]\n")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
for scale in (1e-3, 1e3):
    d = data(scale=scale); m = build(DenseModel, d)
    _, want = oracle(m, d, 2.0)
    seen = grads_seen(m)
    m.train_step(beta=T(2.0), bilinear_params_dict=None)
    assert len(seen) == 1
    for a, b in zip(seen[0], want):
        assert np.allclose(a, b, rtol=1e-8), (scale, a, b)
'''),
 dict(id="P27", property="C19",
  needs="a network with at least two hidden layers (more than three layers in all)",
  breaks="only the first two and the last layers' weights are updated when there are more",
  edits=[(M + "model.py", "        trainable_vars = self.trainable_variables\n",
    "        trainable_vars = self.trainable_variables\n        # kernels and biases of the outer layers\n        trainable_vars = trainable_vars[:4] + trainable_vars[max(4, len(trainable_vars) - 4) :]\n")],
  demo=TRAIN + '''
from fastvpinns.model.model import DenseModel
d = data()
m = DenseModel([2, 3, 3, 3, 3, 1], LR, {"n_cells": 2}, loss, [d["x"], d["bi"], d["ba"]], d["mats"], d["f"], tensor_dtype=tf.float64)
before = [v.numpy().copy() for v in m.trainable_variables]
m.train_step(beta=T(2.0), bilinear_params_dict=None)
for b, v in zip(before, m.trainable_variables):
    assert not np.allclose(b, v.numpy(), atol=1e-12), v.name
'''),
 dict(id="P28", property="C20",
  needs="a constraint that does not satisfy the Dirichlet data exactly",
  breaks="the boundary mismatch is added to the loss of the hard-constraint model",
  edits=[(M + "model_hard.py", "            boundary_loss = 0.0\n", """            boundary_loss = tf.reduce_mean(
                tf.square(self(self.dirichlet_input) - self.dirichlet_actual)
            )
"""), (M + "model_hard.py", "            total_loss = total_pde_loss\n", "            total_loss = total_pde_loss + beta * boundary_loss\n")],
  demo=TRAIN + '''
from fastvpinns.model.model_hard import DenseModel_Hard
for hard in (lambda x, y: y + 0.5, lambda x, y: x[:, :1] * (1 - x[:, :1]) * y + x[:, 1:]):
    d = data(); m = build(DenseModel_Hard, d, hard_constraint_function=hard)
    want, _ = oracle(m, d, 0.0)
    got = float(tf.squeeze(m.train_step(beta=T(7.0), bilinear_params_dict=None)["loss"]))
    assert abs(got - want) < 1e-9 * max(1, abs(want)), (got, want)
'''),
 dict(id="P29", property="C21",
  needs="a penalty beta other than ten",
  breaks="the sensor mismatch is weighted with beta instead of 10",
  edits=[(M + "model_inverse.py", "total_pde_loss + beta * boundary_loss + 10 * sensor_loss", "total_pde_loss + beta * (boundary_loss + sensor_loss)")],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse import DenseModel_Inverse
for beta in (10.0, 3.0):
    d = data(); m = build(DenseModel_Inverse, d, inverse_params_dict={"eps": T(1.3)})
    want, _ = oracle(m, d, beta, sensor=True, inv={"eps": T(1.3)})
    got = float(tf.squeeze(m.train_step(beta=T(beta), bilinear_params_dict=None)["loss"]))
    assert abs(got - want) < 1e-9 * max(1, abs(want)), (got, want)
'''),
 dict(id="P30", property="C22",
  needs="the gradient of the coefficient output's weights",
  breaks="the predicted coefficient enters the PDE loss as a constant: its output weights get no gradient from it",
  edits=[(M + "model_inverse_domain.py", "                inverse_params_list=[inverse_param_values],\n", "                inverse_params_list=[tf.stop_gradient(inverse_param_values)],\n")],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data(); m = build(DenseModel_Inverse_Domain, d, out=2)
_, want = oracle(m, d, 2.0, sensor=True, dom=True)
seen = grads_seen(m)
m.train_step(beta=T(2.0), bilinear_params_dict=None)
for a, b in zip(seen[0], want):
    assert np.allclose(0.0 if a is None else a, b, rtol=1e-8), (a, b)
'''),
 dict(id="P31", property="C22",
  needs="a coefficient output that differs from the solution output",
  breaks="the two network outputs are interleaved before the sensor values are cut off, so coefficient values are compared with sensor data",
  edits=[(M + "model_inverse_domain.py", "            predicted_sensor_values = tf.reshape(predicted_sensor_values[:, 0], [-1, 1])\n",
   "            predicted_sensor_values = tf.reshape(predicted_sensor_values, [-1, 1])[: self.sensor_values.shape[0]]\n")],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data(); m = build(DenseModel_Inverse_Domain, d, out=2)
want, _ = oracle(m, d, 2.0, sensor=True, dom=True)
got = float(tf.squeeze(m.train_step(beta=T(2.0), bilinear_params_dict=None)["loss"]))
assert abs(got - want) < 1e-9 * max(1, abs(want)), (got, want)
'''),
 dict(id="P32", property="C23",
  needs="a scheduler with fewer than 100 decay steps",
  breaks="the domain-inverse model never decays more often than every 100 steps",
  edits=[(M + "model_inverse_domain.py", '        decay_steps = learning_rate_dict["decay_steps"]\n', '        decay_steps = max(learning_rate_dict["decay_steps"], 100)\n')],
  demo=TRAIN + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data()
m = build(DenseModel_Inverse_Domain, d, out=2, lr=dict(initial_learning_rate=0.1, use_lr_scheduler=True, decay_steps=10, decay_rate=0.5))
m.optimizer.iterations.assign(20)
m.train_step(beta=T(2.0), bilinear_params_dict=None)
lr = float(m.optimizer.learning_rate)
assert abs(lr - 0.025) < 1e-6, lr
'''),
 dict(id="P33", property="C25",
  needs="an exact solution whose values are all negative (or whose largest magnitude is negative)",
  breaks="the relative maximum error divides by the magnitude of the largest value instead of the largest magnitude",
  edits=[(CU, "    linf_error_relative = linf_error / np.max(np.abs(u_exact))\n", "    linf_error_relative = linf_error / np.abs(np.max(u_exact))\n")],
  demo='''
import numpy as np
from fastvpinns.utils.compute_utils import compute_linf_error_relative as f
assert np.isclose(f(np.array([1.0, 4.0]), np.array([1.0, 3.0])), 0.25)
assert np.isclose(f(np.array([-1.0, -4.0]), np.array([-1.0, -3.0])), 0.25)
'''),
 dict(id="P34", property="C31",
  needs="a coefficient that is given as a vector",
  breaks="the bilinear parameters are flattened to their first entry",
  edits=[(DH, "            bilinear_params_dict[key] = tf.constant(bilinear_params_dict[key], dtype=self.dtype)\n",
   "            bilinear_params_dict[key] = tf.reshape(\n                tf.constant(bilinear_params_dict[key], dtype=self.dtype), [-1]\n            )[0]\n")],
  demo=SPACE + '''
D = DataHandler2D(space([[[0, 0], [1, 0], [1, 1], [0, 1]]]), None, dtype=tf.float64)
p = D.get_bilinear_params_dict_as_tensors(lambda: {"eps": 0.5, "b": [1.0, 2.0]})
assert np.allclose(p["eps"].numpy(), 0.5) and np.allclose(p["b"].numpy(), [1.0, 2.0]), p
'''),
 dict(id="P35", property="C33",
  needs="a trial whose numbers of cells in the two directions differ",
  breaks="the tuning objective builds the mesh with the suggested numbers of cells exchanged",
  edits=[(HT + "objective.py", 'n_cells_x=config["geometry"]["internal_mesh_params"]["n_cells_x"]', 'n_cells_x=config["geometry"]["internal_mesh_params"]["n_cells_y"]'),
         (HT + "objective.py", 'n_cells_y=config["geometry"]["internal_mesh_params"]["n_cells_y"]', 'n_cells_y=config["geometry"]["internal_mesh_params"]["n_cells_x"]')],
  demo='''
import sys, types, numpy as np
for name, attrs in (("optuna", {}), ("sin_cos", dict(
    rhs=lambda x, y: x * 0 + 1.0, exact_solution=lambda x, y: x + y + 1.0,
    get_boundary_function_dict=lambda: {k: (lambda x, y: 0.0) for k in (1000, 1001, 1002, 1003)},
    get_bound_cond_dict=lambda: {k: "dirichlet" for k in (1000, 1001, 1002, 1003)},
    get_bilinear_params_dict=lambda: {"eps": 1.0}))):
    m = types.ModuleType(name); m.__dict__.update(attrs); m.__all__ = list(attrs); sys.modules[name] = m
from fastvpinns.hyperparameter_tuning import objective as O
seen = []
orig = O.Geometry_2D.generate_quad_mesh_internal
def rec(self, *a, **k):
    seen.append(k)
    return orig(self, *a, **k)
O.Geometry_2D.generate_quad_mesh_internal = rec
class Trial:
    number = 0
    def suggest_int(self, n, a, b, **k): return {"n_cells_x": 2, "n_cells_y": 3, "n_layers": 1, "fe_order": 2, "quad_order": 3}.get(n, a)
    def suggest_categorical(self, n, c): return c[0]
    def suggest_loguniform(self, n, a, b): return a
    def suggest_uniform(self, n, a, b): return a
    def suggest_float(self, n, a, b, **k): return a
O.objective(Trial(), 1)
assert seen[0]["n_cells_x"] == 2 and seen[0]["n_cells_y"] == 3, seen
'''),
 dict(id="P36", property="C33",
  needs="counting the training steps of a trial",
  breaks="the objective trains one step less than requested",
  edits=[(HT + "objective.py", "    for epoch in range(num_epochs):\n", "    for epoch in range(1, num_epochs):\n")],
  demo='''
import sys, types, numpy as np
for name, attrs in (("optuna", {}), ("sin_cos", dict(
    rhs=lambda x, y: x * 0 + 1.0, exact_solution=lambda x, y: x + y + 1.0,
    get_boundary_function_dict=lambda: {k: (lambda x, y: 0.0) for k in (1000, 1001, 1002, 1003)},
    get_bound_cond_dict=lambda: {k: "dirichlet" for k in (1000, 1001, 1002, 1003)},
    get_bilinear_params_dict=lambda: {"eps": 1.0}))):
    m = types.ModuleType(name); m.__dict__.update(attrs); m.__all__ = list(attrs); sys.modules[name] = m
from fastvpinns.hyperparameter_tuning import objective as O
n = [0]
orig = O.DenseModel.train_step
class Counting(O.DenseModel):
    def train_step(self, *a, **k):
        n[0] += 1
        return super().train_step(*a, **k)
O.DenseModel = Counting
class Trial:
    number = 0
    def suggest_int(self, name, a, b, **k): return {"n_layers": 1, "fe_order": 2, "quad_order": 3}.get(name, a)
    def suggest_categorical(self, name, c): return c[0]
    def suggest_loguniform(self, name, a, b): return a
    def suggest_uniform(self, name, a, b): return a
    def suggest_float(self, name, a, b, **k): return a
O.objective(Trial(), 3)
assert n[0] == 3, n
'''),
]

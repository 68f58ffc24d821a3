from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("plants_c", os.path.join(os.path.dirname(__file__), "c_more.py"))
_c = module_from_spec(_s); _s.loader.exec_module(_c)
M, PH, DH, CU, HT, SPACE, TRAIN, EAGER = _c.M, _c.PH, _c.DH, _c.CU, _c.HT, _c.SPACE, _c.TRAIN, _c.EAGER
GE, FE, FS, PL, GEO = _c.GE, _c.FE, _c.FS, _c.PL, _c.GEO
PLANTS = [
 dict(id="P110", property="C04", run=["C04", "C05", "C08"],
  needs="a cell that is no parallelogram, with its vertices given as an array of integers",
  breaks="the bilinear part of the map of a cell with integer vertices is rounded to a whole number",
  edits=[(FE + "quad_bilinear.py", '''        self.xc3 = (self.x0 - self.x1 + self.x2 - self.x3) * 0.25
''', '''        twist = np.zeros_like(self.co_ordinates[0])
        twist[0] = (self.x0 - self.x1 + self.x2 - self.x3) * 0.25
        self.xc3 = twist[0]
''')],
  demo='''
import numpy as np
from fastvpinns.FE.quad_bilinear import QuadBilinear
X = [[0, 0], [3, 1], [5, 4], [1, 2]]
for t in (float, int):
    m = QuadBilinear(np.array(X, dtype=t))
    assert np.allclose(m.get_original_from_ref(1.0, -1.0), [3, 1]), t
'''),
 dict(id="P111", property="C08", run=["C08", "C07", "C15"],
  needs="cell coordinates stored column by column (a transposed or Fortran-ordered array)",
  breaks="the vertices of the cells are mixed up when the array of cells is not stored row by row",
  edits=[(FE + "fespace2d.py", '''                    self.cells[i],
                    self.cell_type,
''', '''                    self.cells.ravel(order="K").reshape(self.cells.shape)[i],
                    self.cell_type,
''')],
  demo='''
import numpy as np, tempfile
from fastvpinns.FE.fespace2d import Fespace2D
d = tempfile.mkdtemp()
C = np.array([[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2, 0.5], [2, 1.5], [1, 1]]], dtype=float)
def make(cells):
    return Fespace2D(mesh=None, cells=cells, boundary_points={}, cell_type="quadrilateral", fe_order=2, fe_type="legendre",
        quad_order=3, quad_type="gauss-legendre", fe_transformation_type="bilinear", bound_function_dict={},
        bound_condition_dict={}, forcing_function=lambda x, y: np.sin(x + y), output_path=d, generate_mesh_plot=False)
a, b = make(C), make(np.asfortranarray(C))
for i in (0, 1):
    assert np.allclose(a.get_shape_function_val(i), b.get_shape_function_val(i))
    assert np.allclose(a.get_quadrature_actual_coordinates(i), b.get_quadrature_actual_coordinates(i))
import shutil
shutil.rmtree(d)
'''),
 dict(id="P112", property="C18", run=["C18", "C19"],
  needs="more than a hundred training steps done before",
  breaks="the boundary penalty is doubled once the optimizer has done a hundred steps",
  edits=[(M + "model.py", "            total_loss = total_pde_loss + beta * boundary_loss\n", '''            # stress the boundary conditions late in the training
            late = tf.cast(self.optimizer.iterations > 100, boundary_loss.dtype)
            total_loss = total_pde_loss + beta * (1 + late) * boundary_loss
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model import DenseModel
d = data(); m = build(DenseModel, d)
for n in (0, 50, 5000):
    m.optimizer.build(m.trainable_variables)
    m.optimizer.iterations.assign(n)
    want, _ = oracle(m, d, 10.0)
    got = float(m.train_step(beta=10.0)["loss"])
    assert abs(want - got) < 1e-9 * abs(want), (n, got, want)
'''),
 dict(id="P113", property="C20", run=["C20", "C40"],
  needs="a later training step whose loss is larger than an earlier one",
  breaks="steps that increase the loss are not carried out: the gradients are scaled down to a thousandth",
  edits=[(M + "model_hard.py", '''        self.gradients = tape.gradient(total_loss, trainable_vars)
''', '''        self.gradients = tape.gradient(total_loss, trainable_vars)
        # guard against divergence: hold back while the loss is above the best one seen
        worse = tf.cast(total_loss > self.best_loss, total_loss.dtype)
        self.best_loss.assign(tf.minimum(self.best_loss, tf.cast(total_loss, self.tensor_dtype)))
        self.gradients = [
            None if g is None else g * (1 - 0.999 * worse) for g in self.gradients
        ]
'''), (M + "model_hard.py", "        self.build(input_shape=(None, self.layer_dims[0]))\n",
   '''        self.best_loss = tf.Variable(1e30, trainable=False, dtype=self.tensor_dtype)
        self.build(input_shape=(None, self.layer_dims[0]))
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_hard import DenseModel_Hard
d = data(); m = build(DenseModel_Hard, d, hard_constraint_function=lambda x, u: u)
m.train_step(beta=1.0); g1 = [np.array(g) for g in m.gradients if g is not None]
# the same data with another coefficient: a larger loss
v = [w.numpy() for w in m.trainable_variables]
for w in m.trainable_variables: w.assign(w * 3)
m.train_step(beta=1.0); g2 = [np.array(g) for g in m.gradients if g is not None]
n = build(DenseModel_Hard, d, hard_constraint_function=lambda x, u: u)
for a, b in zip(n.trainable_variables, v): a.assign(b * 3)
n.train_step(beta=1.0); g3 = [np.array(g) for g in n.gradients if g is not None]
assert all(np.allclose(a, b, rtol=1e-6) for a, b in zip(g2, g3))
'''),
 dict(id="P114", property="C22", run=["C22", "C40"],
  needs="a weight outside [-3, 3]",
  breaks="weights beyond three are cut off after every step",
  edits=[(M + "model_inverse_domain.py", "        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))\n",
   '''        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
        # large weights saturate the activation
        for weights in trainable_vars:
            weights.assign(tf.clip_by_value(weights, -3.0, 3.0))
''')],
  demo=TRAIN + EAGER + '''
from fastvpinns.model.model_inverse_domain import DenseModel_Inverse_Domain
d = data(); m = build(DenseModel_Inverse_Domain, d, out=2)
for s in (1.0, 10.0):
    for w in m.trainable_variables: w.assign(tf.ones_like(w) * 0.4 * s)
    m.train_step(beta=1.0)
    for w in m.trainable_variables: assert np.allclose(w.numpy(), 0.4 * s, atol=0.1), (s, w.numpy())
'''),
]

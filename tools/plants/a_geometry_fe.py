G = "fastvpinns/Geometry/geometry_2d.py"
FS = "fastvpinns/FE/fespace2d.py"
CELL = "fastvpinns/FE/FE2D_Cell.py"
SPACE = '''
import numpy as np
from types import SimpleNamespace
from fastvpinns.FE.fespace2d import Fespace2D
def space(cells, order=2, fe="legendre", q=4, qt="gauss-legendre", tr="bilinear", f=lambda x, y: x * 0 + 1.0, bd=None, bf=None, mesh=None):
    cells = np.array(cells, dtype=float)
    bd = bd if bd is not None else {1000: np.array([[0.0, 0.0]])}
    bf = bf if bf is not None else {k: (lambda x, y: 0.0 * x) for k in bd}
    return Fespace2D(mesh=mesh, cells=cells, boundary_points=bd, cell_type="quadrilateral", fe_order=order, fe_type=fe,
        quad_order=q, quad_type=qt, fe_transformation_type=tr, bound_function_dict=bf,
        bound_condition_dict={k: "dirichlet" for k in bd}, forcing_function=f, output_path=".")
'''
GEO = '''
import numpy as np
from fastvpinns.Geometry.geometry_2d import Geometry_2D
'''
MESHFILE = '''
import meshio
def write_mesh(name, pts, quads, lines, tags):
    pts = np.array(pts, dtype=float)
    pts = np.hstack([pts, np.zeros((len(pts), 1))])
    meshio.write(name, meshio.Mesh(pts, [("line", np.array(lines)), ("quad", np.array(quads))],
        cell_data={"medit:ref": [np.array(tags), np.ones(len(quads), dtype=int)]}), file_format="medit")
'''
PLANTS = [
 dict(id="P01", property="C11",
  needs="a rectangle whose y range differs from its x range",
  breaks="the samples of the right side are scaled with the x limits, so they leave the side when the domain is not square",
  edits=[(G, "y_right = _temp_bd_func(y_limits[0], y_limits[1], num_bound_per_side)",
             "y_right = _temp_bd_func(y_limits[0], y_limits[0] + (x_limits[1] - x_limits[0]), num_bound_per_side)")],
  demo=GEO + '''
g = Geometry_2D("quadrilateral", "internal", 5, 5, ".", is_optimized=True)
_, bd = g.generate_quad_mesh_internal((0.0, 4.0), (-1.0, 0.5), 2, 2, 40)
for tag, pts in bd.items():
    assert np.all((pts[:, 0] >= 0) & (pts[:, 0] <= 4) & (pts[:, 1] >= -1) & (pts[:, 1] <= 0.5)), (tag, pts)
'''),
 dict(id="P02", property="C12",
  needs="a cell more than about 10:1 elongated, so that two vertices lie within a tenth of a radian of each other seen from its centre",
  breaks="the polar angles are rounded before sorting, so thin cells lose their counter-clockwise order",
  edits=[(G, '''        # loop over all cells and rearrange the points in anticlockwise direction
        for i in range(num_cells):
            cell = cell_points[i]
            # get the centroid of the cell
            centroid = np.mean(cell, axis=0)
            # get the angle of each point with respect to the centroid
            angles = np.arctan2(cell[:, 1] - centroid[1], cell[:, 0] - centroid[0])
''', '''        # loop over all cells and rearrange the points in anticlockwise direction
        for i in range(num_cells):
            cell = cell_points[i]
            # get the centroid of the cell
            centroid = np.mean(cell, axis=0)
            # get the angle of each point with respect to the centroid
            # rounded, so that the order does not depend on round-off
            angles = np.round(np.arctan2(cell[:, 1] - centroid[1], cell[:, 0] - centroid[0]), 1)
''')],
  demo=GEO + MESHFILE + '''
g = Geometry_2D("quadrilateral", "external", 5, 5, ".", is_optimized=True)
for start in range(4):
  for rev in (1, -1):
    P = [[0, 0], [10, 0], [10, 0.3], [0, 0.3]]
    q = [[0, 1, 2, 3][(start + rev * i) % 4] for i in range(4)]
    write_mesh("m.mesh", P, [q], [[0, 1], [1, 2], [2, 3], [3, 0]], [1, 2, 3, 4])
    cells, _ = g.read_mesh("m.mesh", 1, "uniform", 0)
    c = cells[0]
    area = 0.5 * sum(c[i][0] * c[(i + 1) % 4][1] - c[(i + 1) % 4][0] * c[i][1] for i in range(4))
    assert abs(area - 3.0) < 1e-9, (q, c, area)
'''),
 dict(id="P03", property="C13",
  needs="a mesh given in small units: edge coordinates with more than six decimals",
  breaks="boundary samples are rounded to six decimals before duplicates are removed: they leave their edges, and on micro-scale meshes distinct samples merge",
  edits=[(G, "            val = np.unique(val, axis=0)\n", "            # samples shared by two edges differ by round-off\n            val = np.unique(np.round(val, 6), axis=0)\n")],
  demo=GEO + MESHFILE + '''
g = Geometry_2D("quadrilateral", "external", 5, 5, ".", is_optimized=True)
s = 2e-6
write_mesh("m.mesh", [[0, 0], [s, 0], [s, s], [0, s]], [[0, 1, 2, 3]], [[0, 1], [1, 2], [2, 3], [3, 0]], [1, 2, 3, 4])
_, bd = g.read_mesh("m.mesh", 2, "uniform", 0)
for tag, fixed, val in ((1, 1, 0.0), (2, 0, s), (3, 1, s), (4, 0, 0.0)):
    p = np.asarray(bd[tag])
    assert len(p) == 5, (tag, len(p))
    assert np.allclose(p[:, fixed], val, atol=1e-12), (tag, p)
    assert np.allclose(np.sort(p[:, 1 - fixed]), np.linspace(0, s, 5), atol=1e-12), (tag, p)
'''),
 dict(id="P04", property="C14",
  needs="vector-valued boundary data with a third component",
  breaks="the component of vector boundary data is taken as 'first or last but first', so component 2 returns component 1",
  edits=[(FS, '''                    self.bound_function_dict[bound_id](pt[0], pt[1])[component], dtype=np.float64
''', '''                    self.bound_function_dict[bound_id](pt[0], pt[1])[1 if component else 0], dtype=np.float64
''')],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]], bd={7: np.array([[0.25, 0.0], [0.5, 0.0]])}, bf={7: lambda x, y: [x, 2 * x, 3 * x]})
for c in range(3):
    X, Y = S.generate_dirichlet_boundary_data_vector(c)
    assert np.allclose(np.array(Y).reshape(-1), (c + 1) * np.array(X)[:, 0]), (c, Y)
'''),
 dict(id="P05", property="C26",
  needs="different numbers of test points in the two directions",
  breaks="the test grid of an internal mesh is walked column by column when it is wider than tall, so the x coordinate no longer varies fastest",
  edits=[(G, "            x_grid, y_grid = np.meshgrid(x, y)\n",
   '            x_grid, y_grid = np.meshgrid(x, y, indexing="ij" if len(x) > len(y) else "xy")\n')],
  demo=GEO + '''
g = Geometry_2D("quadrilateral", "internal", 4, 3, ".", is_optimized=True)
g.generate_quad_mesh_internal((0.0, 3.0), (0.0, 4.0), 1, 1, 8)
p = g.get_test_points()
want = np.array([[x, y] for y in (0, 2.0, 4.0) for x in (0, 1.0, 2.0, 3.0)])
assert np.allclose(p, want), p
'''),
 dict(id="P06", property="C05",
  needs="a cell whose vertices are listed clockwise",
  breaks="the bilinear gradient transformation divides by the absolute Jacobian, which flips the gradients of clockwise cells",
  edits=[("fastvpinns/FE/quad_bilinear.py", '''            rec_detjk = 1 / (
                (self.xc1 + self.xc3 * Eta) * (self.yc2 + self.yc3 * Xi)
                - (self.xc2 + self.xc3 * Xi) * (self.yc1 + self.yc3 * Eta)
            )
''', '''            rec_detjk = 1 / self.get_jacobian(Xi, Eta)
''')],
  demo='''
import numpy as np
from fastvpinns.FE.quad_bilinear import QuadBilinear
for cell in ([[0, 0], [2, 0], [2.5, 1], [0, 1.5]], [[0, 0], [0, 1.5], [2.5, 1], [2, 0]]):
    t = QuadBilinear(np.array(cell, dtype=float))
    xi, eta = np.array([0.3]), np.array([-0.2])
    h = 1e-6
    m = lambda a, b: np.array(t.get_original_from_ref(a, b)).reshape(2)
    J = np.array([(m(0.3 + h, -0.2) - m(0.3 - h, -0.2)) / (2 * h), (m(0.3, -0.2 + h) - m(0.3, -0.2 - h)) / (2 * h)])
    g = t.get_orig_from_ref_derivative(np.array([[1.0]]), np.array([[2.0]]), xi, eta)
    assert np.allclose(J @ np.array(g).reshape(2), [1.0, 2.0], atol=1e-6), cell
'''),
 dict(id="P07", property="C06",
  needs="a sheared parallelogram (both off-diagonal entries of its map nonzero), where yc1*xc2 does not vanish",
  breaks="the mixed coefficient of the second-derivative system drops one of its two products",
  edits=[("fastvpinns/FE/quad_affine.py", "        GeoData[1, 1] = self.yc1 * self.xc2 + self.xc1 * self.yc2\n",
          "        GeoData[1, 1] = self.xc1 * self.yc2\n")],
  demo='''
import numpy as np
from fastvpinns.FE.quad_affine import QuadAffin
t = QuadAffin(np.array([[0, 0], [2, 1], [3, 3], [1, 2]], dtype=float))
J = np.array([[1, 0.5], [0.5, 1]])  # d(x,y)/d(xi), d(x,y)/d(eta)
H = np.array([[2.0, -1.0], [-1.0, 3.0]])
R = J @ H @ J.T
xx, xy, yy = t.get_orig_from_ref_second_derivative(np.array([[R[0, 0]]]), np.array([[R[0, 1]]]), np.array([[R[1, 1]]]), 0, 0)
assert np.allclose([xx[0, 0], xy[0, 0], yy[0, 0]], [2.0, -1.0, 3.0]), (xx, xy, yy)
'''),
 dict(id="P08", property="C08", run=["C07", "C08", "C09", "C32"],
  needs="a cell that is not a parallelogram (its bilinear Jacobian varies inside the cell)",
  breaks="the cell's Jacobian is evaluated at the centre only, so weights of irregular cells are wrong pointwise (their sum still is the area)",
  edits=[(CELL, '''        self.jacobian = self.fetransformation.get_jacobian(self.quad_xi, self.quad_eta).reshape(
            -1, 1
        )
''' if False else '''self.fetransformation.get_jacobian(self.quad_xi, self.quad_eta)''',
     '''self.fetransformation.get_jacobian(0.0 * self.quad_xi, 0.0 * self.quad_eta)''')],
  demo=SPACE + '''
S = space([[[0, 0], [2, 0], [1.5, 1], [0, 3]]])
c = S.fe_cell[0]
W = S.get_quadrature_weights(0).reshape(-1)
J = c.fetransformation.get_jacobian(c.quad_xi, c.quad_eta)
assert np.allclose(W, c.quad_weight * J), (W, c.quad_weight * J)
'''),
 dict(id="P09", property="C09",
  needs="two calls on one cell: the load of one component, then of another",
  breaks="the vector load assembly returns the stored load of the cell when there is one, whichever component was asked for",
  edits=[(FS, '''        # get the coordinates
        x = self.fe_cell[cell_index].quad_actual_coordinates[:, 0]
''', '''        # the load is kept with the cell once it has been assembled
        if np.any(self.fe_cell[cell_index].forcing_at_quad):
            return self.fe_cell[cell_index].forcing_at_quad.copy()

        # get the coordinates
        x = self.fe_cell[cell_index].quad_actual_coordinates[:, 0]
''')],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]], f=lambda x, y: [1.0 + 0 * x, 5.0 + 0 * x])
a = S.get_forcing_function_values_vector(0, 0)
b = S.get_forcing_function_values_vector(0, 1)
assert np.allclose(b, 5 * a), (a, b)
'''),
 dict(id="P10", property="C29",
  needs="the caller modifies the returned weights of a cell and asks again",
  breaks="get_quadrature_weights hands out the cell's own array",
  edits=[(FS, "        return self.fe_cell[cell_index].mult.copy()\n", "        return np.asarray(self.fe_cell[cell_index].mult)\n")],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]])
a = S.get_quadrature_weights(0)
keep = a.copy()
a *= 0
assert np.allclose(S.get_quadrature_weights(0), keep)
'''),
 dict(id="P11", property="C28",
  needs="a sensor file with further columns after the value column",
  breaks="the values are taken from the last column of the file instead of the third",
  edits=[(FS, "exact_sol = df.iloc[:, 2].values", "exact_sol = df.iloc[:, -1].values")],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]]])
open("s.csv", "w").write("x,y,u,noise\\n" + "".join("%g,%g,%g,99\\n" % (i, 2 * i, 3 * i) for i in range(5)))
p, v = S.get_sensor_data_external(None, 20, "s.csv")
assert np.allclose(v, 3 * p[:, 0]), v
'''),
 dict(id="P12", property="C30",
  needs="the test-function order 999 or the quadrature order 9999 (upper end of the accepted range)",
  breaks="the accepted range of the test-function order ends one early",
  edits=[("fastvpinns/FE/fe2d_setup_main.py", "self.fe_order <= 1 or self.fe_order >= 1e3", "self.fe_order <= 1 or self.fe_order + 1 >= 1e3")],
  demo='''
from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
FE2DSetupMain("quadrilateral", 999, "legendre", 3, "gauss-legendre").assign_basis_function()
for bad in (1, 1000):
    try:
        FE2DSetupMain("quadrilateral", bad, "legendre", 3, "gauss-legendre")
    except ValueError:
        continue
    raise SystemExit("order %d accepted" % bad)
'''),
 dict(id="P13", property="C02", run=["C01", "C02", "C32"],
  needs="the special Legendre family with order 8 or more",
  breaks="the value of high test functions is built from the recurrence with the wrong lower polynomial above degree 8, so they no longer vanish on the boundary",
  edits=[("fastvpinns/FE/basis_2d_QN_Legendre_Special.py", '''            obj1 = legendre(n + 1)
            obj2 = legendre(n - 1)
''', '''            obj1 = legendre(n + 1)
            obj2 = legendre(min(n - 1, 6))
''')],
  demo='''
import numpy as np
from fastvpinns.FE.basis_2d_QN_Legendre_Special import Basis2DQNLegendreSpecial
for n in range(2, 11):
    v = Basis2DQNLegendreSpecial(n * n).value(np.array([1.0, -1.0, 0.3]), np.array([0.2, -0.4, 1.0]))
    assert np.abs(v).max() < 1e-8, (n, np.abs(v).max())
'''),
 dict(id="P14", property="C01",
  needs="the plain Jacobi family at order 7 or more, xx or yy derivatives",
  breaks="from the seventh mode on the second derivative is built by a recurrence with an index off by one",
  edits=[("fastvpinns/FE/basis_2d_QN_Jacobi.py", '''            d1test = self.djacobi(n - 1, 0, 0, x, 2)
''', '''            # the recurrence P''_n = P''_{n-2} + (2n-1) P'_{n-1} avoids high derivatives
            if n > 6:
                d1test = d1test_total[n - 3] + (2 * n - 1) * self.djacobi(n - 2, 0, 0, x, 1)
            else:
                d1test = self.djacobi(n - 1, 0, 0, x, 2)
''')],
  demo='''
import numpy as np
from fastvpinns.FE.basis_2d_QN_Jacobi import Basis2DQNJacobi
x, y, h = np.array([0.3, -0.6]), np.array([0.1, 0.7]), 1e-5
for n in range(2, 12):
    b = Basis2DQNJacobi(n * n)
    fd = (b.gradx(x + h, y) - b.gradx(x - h, y)) / (2 * h)
    assert np.allclose(b.gradxx(x, y), fd, rtol=1e-5, atol=1e-4), n
'''),
 dict(id="P15", property="C03", run=["C03", "C32", "C07"],
  needs="a Lobatto rule of order 10 or more",
  breaks="the interior weights of the Lobatto rule use the polynomial of the wrong degree from order 10 on (endpoint weights are right)",
  edits=[("fastvpinns/FE/quadratureformulas_quad2d.py", "                    W = 2 / ((Q - 1) * (Q) * (jacobi_wrapper(Q - 1, 0, 0, X) ** 2))\n",
   "                    W = 2 / ((Q - 1) * (Q) * (jacobi_wrapper(min(Q - 1, 8), 0, 0, X) ** 2))\n")],
  demo='''
import numpy as np
from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D
for q in range(3, 16):
    w, x, y = Quadratureformulas_Quad2D(q, "gauss-jacobi").get_quad_values()
    assert abs(w.sum() - 4) < 1e-9, (q, w.sum())
    assert abs((w * x**2 * y**2).sum() - 4 / 9) < 1e-9, q
'''),
 dict(id="P16", property="C07", run=["C07", "C08", "C09"],
  needs="a mesh with two cells that differ by more than a translation, the first one being reused",
  breaks="cells with the same edge vector along the bottom are taken as congruent and share the first one's transformation-independent weights",
  edits=[(FS, '''            # obtain the shape of the basis function (n_test, N_quad)
''', '''            # a cell congruent to the previous one has the same quadrature weights
            if i > 0 and np.allclose(
                self.cells[i][1] - self.cells[i][0], self.cells[i - 1][1] - self.cells[i - 1][0]
            ):
                self.fe_cell[i].mult = self.fe_cell[i - 1].mult

            # obtain the shape of the basis function (n_test, N_quad)
''')],
  demo=SPACE + '''
S = space([[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2, 0], [2, 3], [1, 3]]])
assert abs(S.get_quadrature_weights(0).sum() - 1) < 1e-9
assert abs(S.get_quadrature_weights(1).sum() - 3) < 1e-9, S.get_quadrature_weights(1).sum()
'''),
 dict(id="P17", property="C27",
  needs="a base VTK file whose cell data comes before its point data",
  breaks="the copy of the base file stops at the first data section, so a file with cell data first loses its point-data header",
  edits=[(G, '                if "POINT_DATA" in line.strip():\n', '                if "_DATA" in line.strip():\n')],
  demo=GEO + '''
g = Geometry_2D("quadrilateral", "internal", 2, 2, ".", is_optimized=True)
base = "# vtk DataFile Version 4.2\\nx\\nASCII\\nDATASET UNSTRUCTURED_GRID\\nPOINTS 2 double\\n0 0 0\\n1 0 0\\nCELL_DATA 1\\nSCALARS old float\\nLOOKUP_TABLE default\\n1\\nPOINT_DATA 2\\nSCALARS gone float\\n"
open("internal.vtk", "w").write(base)
g.write_vtk(np.array([[1.5], [2.5]]), ".", "out.vtk", ["u"])
out = open("out.vtk").read()
head = base[: base.index("SCALARS gone")]
assert out.startswith(head), out
assert "SCALARS u float" in out[len(head):]
'''),
 dict(id="P18", property="C04", run=["C04", "C05"],
  needs="a parallelogram cell whose bottom edge is not horizontal",
  breaks="the centre of the affine map takes its y coordinate from the left edge instead of a diagonal, so sheared cells are shifted vertically",
  edits=[("fastvpinns/FE/quad_affine.py", "        self.yc0 = (self.y1 + self.y3) * 0.5\n", "        self.yc0 = (self.y0 + self.y3) * 0.5\n")],
  demo='''
import numpy as np
from fastvpinns.FE.quad_affine import QuadAffin
c = np.array([[0, 0], [2, 1], [3, 3], [1, 2]], dtype=float)
t = QuadAffin(c)
for (a, b), v in zip(((-1, -1), (1, -1), (1, 1), (-1, 1)), c):
    assert np.allclose(np.array(t.get_original_from_ref(a, b)).reshape(2), v), v
'''),
]

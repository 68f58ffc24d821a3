"""build finite element spaces in check bodies"""
from .geo import *
from .polys import *
import types


class MeshStub:
    def __init__(self, points):
        self.points = points


def bquad(h, name, kind, orient=1, R=10.0):
    """quad() with coordinates bounded by R (needed where rounding allowances are absolute)"""
    def smp(r):
        p = parallelogram(r) if kind == "affine" else convex_quad(r)
        m = max(abs(v) for q in p for v in q)
        f = min(1.0, 0.9 * R / m) if m else 1.0
        p = [(x * f, y * f) for x, y in p]
        return p if orient > 0 else [p[0], p[3], p[2], p[1]]
    if kind == "affine":
        base = h.reals(name, (3, 2), -R, R, sampler=lambda r: (lambda p: [p[0], p[1], p[3]])(smp(r)), bounded=True)
        h.assume(cross2(base[0], base[1], base[2]) * orient > 0)
        p = [base[0], base[1], base[1] + base[2] - base[0], base[2]]
        return h.array([[q[0], q[1]] for q in p])
    X = h.reals(name, (4, 2), -R, R, sampler=smp, bounded=True)
    for i in range(4):
        h.assume(cross2(X[i], X[(i + 1) % 4], X[(i + 2) % 4]) * orient > 0)
    return X


def many(h, n, kind):
    """n different cells of fixed shape, all moved by one arbitrary translation"""
    t = h.reals("shift", (2,), -1.0, 1.0, bounded=True)
    out = []
    for i in range(n):
        x, y, s = i % 7, i // 7, (i * i) % 5
        w, v = 1 + s * 0.125, 1 - s * 0.125
        P = [(x, y), (x + w, y + 0.25), (x + w - 0.125 * s, y + 0.25 + v), (x - 0.125 * s, y + v)]
        if kind == "bilinear":
            P[2] = (P[2][0] + 0.25, P[2][1] + 0.0625 * (i % 3))
        out.append(h.array([[a + t[0], b + t[1]] for a, b in P]))
    return out


def cells_array(h, Xs, form=None):
    """the cells as one array; form "columns": stored column by column; integer vertices stay integers"""
    if all(isinstance(X, np.ndarray) and X.dtype.kind == "i" for X in Xs):
        return np.array(Xs, dtype=int)
    a = h.array([[[X[k][0], X[k][1]] for k in range(4)] for X in Xs])
    return np.array(a, order="F", subok=True) if form == "columns" else a


def space(h, cells, kind, fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre",
          boundary=None, bfun=None, bcond=None, forcing=None, mesh=None):
    F = h.module("FE.fespace2d").Fespace2D
    return F(mesh=mesh, cells=cells, boundary_points=boundary or {}, cell_type="quadrilateral",
             fe_order=fe_order, fe_type=fe_type, quad_order=quad_order, quad_type=quad_type,
             fe_transformation_type=kind, bound_function_dict=bfun or {}, bound_condition_dict=bcond or {},
             forcing_function=forcing if forcing is not None else (lambda x, y: 0.0 * x),
             output_path=h.tmp() or ".", generate_mesh_plot=False)


def rule(q, kind):
    """reference rule (weights, xi, eta), computed here from numpy's Legendre polynomials"""
    from numpy.polynomial import legendre as L
    if kind == "gauss-legendre":
        x, w = L.leggauss(q)
    else:
        c = np.zeros(q)
        c[q - 1] = 1.0
        x = np.concatenate([[-1.0], np.sort(L.legroots(L.legder(c)).real), [1.0]])
        w = 2.0 / (q * (q - 1) * L.legval(x, c) ** 2)
    X, Y = np.meshgrid(x, x)
    return (w[:, None] * w).reshape(-1), X.reshape(-1), Y.reshape(-1)


def ref_rule(h, q, kind):
    """the code's own reference rule (checked by C03)"""
    return h.module("FE.quadratureformulas_quad2d").Quadratureformulas_Quad2D(q, kind).get_quad_values()


def basis1d(family, n, xs, m=0):
    """(n, len(xs)) float values of the documented 1-D functions (m-th derivative)"""
    out = np.zeros((n, len(xs)))
    for k in range(1, n + 1):
        c = dcoeffs(phi_coeffs(family, k), m)
        for j, x in enumerate(xs):
            q = Fraction(float(x))
            r = Fraction(0)
            for v in reversed(c):
                r = r * q + v
            out[k - 1, j] = float(r)
    return out


def basis2d(family, n, xi, eta, mx=0, my=0):
    A, B = basis1d(family, n, xi, mx), basis1d(family, n, eta, my)
    return np.array([A[i] * B[j] for i in range(n) for j in range(n)])


def floats(a):
    return np.array([float(v) for v in a])


def shoelace(X):
    s = 0.0
    for i in range(4):
        j = (i + 1) % 4
        s = s + X[i][0] * X[j][1] - X[j][0] * X[i][1]
    return s * 0.5

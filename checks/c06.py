from .geo import *
from .c04 import make

INFO = dict(
    bounds="parallelogram vertex coordinates and reference second derivatives unbounded reals; up to 3 test functions x 2 points, both orientations; 144 (thorough 300) test functions, 80 (144) points; also cells with whole coordinates given as integer arrays",
    assumptions=["real arithmetic: floating-point rounding is not modelled (concrete runs use the real floats)",
                 "non-degenerate parallelogram"],
    jobs=1, concrete=6, scales=(1e-2, 1e-4, 1e-7, 1e4))


def configs(tier):
    shapes = [(1, 1), (2, 2), (3, 2), (144, 1), (1, 80)] if tier == "quick" else [(a, b) for a in range(1, 5) for b in range(1, 4)] + [(300, 1), (1, 144)]
    return [dict(orient=o, nt=a, npts=b) for o in (1, -1) for a, b in shapes] + [dict(orient=1, nt=2, npts=2, ints=True)]


def body(h, orient, nt, npts, ints=False):
    X = whole("affine", orient) if ints else quad(h, "X", "affine", orient)
    T = make(h, "affine", X)
    xi, eta = h.reals("xi", npts, -1, 1), h.reals("eta", npts, -1, 1)
    xx, xy, yy = (h.reals(n, (nt, npts)) for n in ("xx", "xy", "yy"))
    keep = [xx.copy(), xy.copy(), yy.copy()]
    r = T.get_orig_from_ref_second_derivative(xx, xy, yy, xi, eta)
    h.eq("three-results", [len(r)], [3])
    A, B, C = r
    h.eq("inputs-unchanged", [xx, xy, yy], keep)
    (a, b), (c, d) = map_jac(X, 0.0, 0.0)      # x_xi, x_eta, y_xi, y_eta
    P, Q, R = [], [], []
    for i in range(nt):
        P.append([a * a * A[i][q] + 2 * a * c * B[i][q] + c * c * C[i][q] for q in range(npts)])
        Q.append([a * b * A[i][q] + (a * d + b * c) * B[i][q] + c * d * C[i][q] for q in range(npts)])
        R.append([b * b * A[i][q] + 2 * b * d * B[i][q] + d * d * C[i][q] for q in range(npts)])
    t = None if h.symbolic else 1e-5
    h.eq("pull-back-xx", P, keep[0], tol=t)
    h.eq("pull-back-xy", Q, keep[1], tol=t)
    h.eq("pull-back-yy", R, keep[2], tol=t)

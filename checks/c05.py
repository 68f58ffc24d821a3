from .geo import *
from .c04 import make

INFO = dict(
    bounds="vertex coordinates, evaluation points and reference gradients unbounded reals; up to 3 test functions x 3 points, both orientations; 144 (thorough 300) test functions, 80 (144) points; also cells with whole coordinates given as integer arrays",
    assumptions=["real arithmetic: floating-point rounding is not modelled (concrete runs use the real floats)",
                 "bilinear: strictly convex quadrilateral and evaluation points where the determinant does not vanish; affine: non-degenerate parallelogram"],
    jobs=1, concrete=6, scales=(1e-2, 1e-4, 1e-7, 1e4))


def configs(tier):
    shapes = [(1, 1), (2, 3), (3, 2), (2, 2), (144, 1), (1, 80)] if tier == "quick" else [(a, b) for a in range(1, 5) for b in range(1, 5)] + [(300, 1), (1, 144)]
    return [dict(kind=k, orient=o, nt=a, npts=b) for k in ("affine", "bilinear") for o in (1, -1) for a, b in shapes] + [
        dict(kind=k, orient=1, nt=2, npts=2, ints=True) for k in ("affine", "bilinear")]


def body(h, kind, orient, nt, npts, ints=False):
    X = whole(kind, orient) if ints else quad(h, "X", kind, orient)
    T = make(h, kind, X)
    xi, eta = h.reals("xi", npts, -1, 1), h.reals("eta", npts, -1, 1)
    gx, gy = h.reals("gx", (nt, npts)), h.reals("gy", (nt, npts))
    gx0, gy0 = gx.copy(), gy.copy()
    xi0, eta0 = xi.copy(), eta.copy()
    for again in (0, 1):
        r = T.get_orig_from_ref_derivative(gx, gy, xi, eta)
        h.eq("shape", [len(r)], [2])
        Gx, Gy = r
        h.eq("inputs-unchanged", [gx, gy], [gx0, gy0])
        h.eq("points-unchanged", [xi, eta], [xi0, eta0])
        lx, ly = [], []
        for i in range(nt):
            lx.append([])
            ly.append([])
            for q in range(npts):
                J = map_jac(X, xi[q], eta[q])
                lx[-1].append(J[0][0] * Gx[i][q] + J[1][0] * Gy[i][q])
                ly[-1].append(J[0][1] * Gx[i][q] + J[1][1] * Gy[i][q])
        h.eq("chain-rule-xi", lx, gx0, tol=None if h.symbolic else 1e-6)
        h.eq("chain-rule-eta", ly, gy0, tol=None if h.symbolic else 1e-6)
        # interleave with other uses of the same map object
        T.get_jacobian(xi, eta)
        T.get_original_from_ref(xi[0], eta[0])

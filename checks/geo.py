"""shared geometry helpers for check bodies"""
import math
import numpy as np


def cross2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def convex_quad(rng):
    """random strictly convex quadrilateral, counter-clockwise"""
    while True:
        base = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
        s = 10 ** rng.uniform(-0.7, 0.7)
        th = rng.uniform(0, 2 * math.pi)
        ax, ay = rng.uniform(0.4, 1.6), rng.uniform(0.4, 1.6)
        cx, cy = rng.uniform(-3, 3), rng.uniform(-3, 3)
        p = []
        for x, y in base:
            x = ax * (x + rng.uniform(-0.45, 0.45))
            y = ay * (y + rng.uniform(-0.45, 0.45))
            p.append((s * (x * math.cos(th) - y * math.sin(th)) + cx, s * (x * math.sin(th) + y * math.cos(th)) + cy))
        if all(cross2(p[i], p[(i + 1) % 4], p[(i + 2) % 4]) > 0.05 * s * s for i in range(4)):
            return p


def parallelogram(rng):
    while True:
        cx, cy = rng.uniform(-3, 3), rng.uniform(-3, 3)
        u = (rng.uniform(-2, 2), rng.uniform(-2, 2))
        v = (rng.uniform(-2, 2), rng.uniform(-2, 2))
        if u[0] * v[1] - u[1] * v[0] > 0.2:
            return [(cx, cy), (cx + u[0], cy + u[1]), (cx + u[0] + v[0], cy + u[1] + v[1]), (cx + v[0], cy + v[1])]


INTEGERS = dict(affine=[[0, 0], [3, 1], [4, 3], [1, 2]], bilinear=[[0, 0], [3, 1], [5, 4], [1, 2]])


def whole(kind, orient=1, by=0):
    """vertices with whole coordinates, as an integer array"""
    p = INTEGERS[kind]
    return np.array([[x + by, y - by] for x, y in (p if orient > 0 else [p[0], p[3], p[2], p[1]])], dtype=int)


def quad(h, name, kind, orient=1, assume=True):
    """4x2 vertex array: 'affine' (parallelogram) or 'bilinear' (convex); orient +1 ccw, -1 cw"""
    if kind == "affine":
        base = h.reals(name, (3, 2), sampler=lambda r: (lambda p: [p[0], p[1] if orient > 0 else p[3], p[3] if orient > 0 else p[1]])(parallelogram(r)))
        p = [base[0], base[1], base[1] + base[2] - base[0], base[2]]
        det = cross2(base[0], base[1], base[2])
        if assume:
            h.assume(det * orient > 0)
        return h.array([[q[0], q[1]] for q in p])
    X = h.reals(name, (4, 2), sampler=lambda r: convex_quad(r) if orient > 0 else [convex_quad_cw(r)][0])
    if assume:
        for i in range(4):
            h.assume(cross2(X[i], X[(i + 1) % 4], X[(i + 2) % 4]) * orient > 0)
    return X


def convex_quad_cw(r):
    p = convex_quad(r)
    return [p[0], p[3], p[2], p[1]]


def magnitude(h, *Xs):
    """the largest coordinate of the cells (concrete runs: the scale rounding errors are measured by)"""
    return None if h.symbolic else max(float(np.max(np.abs(np.asarray(X, dtype=float)))) for X in Xs)


def corner_dets(X):
    """Jacobian determinant of the bilinear map at the four reference vertices (times 4)"""
    return [cross2(X[0], X[1], X[3]), cross2(X[1], X[2], X[0]), cross2(X[2], X[3], X[1]), cross2(X[3], X[0], X[2])]


REF = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]


def bilinear_N(xi, eta):
    return [(1 + s * xi) * (1 + t * eta) * 0.25 for s, t in REF]


def map_point(X, xi, eta):
    """textbook isoparametric map sum_k N_k X_k"""
    N = bilinear_N(xi, eta)
    return sum(N[k] * X[k][0] for k in range(4)), sum(N[k] * X[k][1] for k in range(4))


def map_jac(X, xi, eta):
    """((x_xi, x_eta), (y_xi, y_eta)) of the isoparametric map"""
    dxi = [s * (1 + t * eta) * 0.25 for s, t in REF]
    det = [t * (1 + s * xi) * 0.25 for s, t in REF]
    return ((sum(dxi[k] * X[k][0] for k in range(4)), sum(det[k] * X[k][0] for k in range(4))),
            (sum(dxi[k] * X[k][1] for k in range(4)), sum(det[k] * X[k][1] for k in range(4))))


def det2(J):
    return J[0][0] * J[1][1] - J[0][1] * J[1][0]

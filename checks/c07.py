from .fes import *

INFO = dict(
    bounds="one or two cells with arbitrary vertex coordinates in [-10,10] (convex quadrilaterals for the bilinear map, parallelograms for the affine map, both orientations), both rules, orders 3..4 (quick) / 3..8 (thorough); 40 cells of fixed shape under an arbitrary common translation, and rules of order 11; cells given as integers or stored column by column",
    assumptions=["real arithmetic: geometry is exact, allowances of a relative 1e-9 (sums) and 1e-9 (inequalities) absorb floating-point rounding of nodes and weights"],
    jobs=4, concrete=3, scales=(1e-2, 1e-4, 1e-7))


def configs(tier):
    out = []
    for kind in ("affine", "bilinear"):
        for orient in (1, -1):
            for rule_ in ("gauss-legendre", "gauss-jacobi"):
                for q in ((3, 4) if tier == "quick" else (3, 4, 5, 6, 7, 8)):
                    out.append(dict(kind=kind, orient=orient, qr=rule_, q=q, ncells=1))
    for kind in ("affine", "bilinear"):
        out.append(dict(kind=kind, orient=1, qr="gauss-legendre", q=3, ncells=2))
        out.append(dict(kind=kind, orient=0, qr="gauss-jacobi", q=3, ncells=2))
        # more cells and points than any block the code might have
        out.append(dict(kind=kind, orient=1, qr="gauss-legendre", q=3, ncells=40, fixed=True))
        out.append(dict(kind=kind, orient=1, qr="gauss-jacobi", q=11, ncells=2, fixed=True))
        out.append(dict(kind=kind, orient=0, qr="gauss-legendre", q=3, ncells=2, form="ints"))
        out.append(dict(kind=kind, orient=1, qr="gauss-legendre", q=3, ncells=3, form="columns", fixed=True))
    return out


def body(h, kind, orient, qr, q, ncells, fixed=False, form=None):
    ors = [orient] * ncells if orient else [1, -1][:ncells]
    Xs = [whole(kind, o, i) for i, o in enumerate(ors)] if form == "ints" else many(h, ncells, kind) if fixed else [bquad(h, "X%d" % i, kind, o) for i, o in enumerate(ors)]
    S = space(h, cells_array(h, Xs, form), kind, quad_order=q, quad_type=qr)
    w, xi, eta = ref_rule(h, q, qr)
    w, xi, eta = floats(w), floats(xi), floats(eta)
    for c, X in enumerate(Xs):
        W = S.get_quadrature_weights(c)
        P = S.get_quadrature_actual_coordinates(c)
        h.eq("count", [list(W.shape), [P.shape[0]]][0], [q * q])
        h.eq("coordinates-shape", list(P.shape), [q * q, 2])
        h.eq("points-are-images", P, [list(map_point(X, xi[k], eta[k])) for k in range(q * q)], mag=magnitude(h, X))
        area = shoelace(X) * ors[c]
        h.eq("weights-sum-to-area", sum(W[k] for k in range(q * q)), area, tol=None if h.symbolic else 1e-6 * magnitude(h, X) ** 2)
        for k in range(q * q):
            h.lt("weight-positive", 0.0, W[k])
            for i in range(4):
                h.le("inside", 0.0, ors[c] * cross2(X[i], X[(i + 1) % 4], P[k]))

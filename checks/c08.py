from .fes import *

INFO = dict(
    bounds="meshes of 1..3 cells with arbitrary vertex coordinates in [-10,10] (convex quadrilaterals / parallelograms, mixed orientations); orders 2..3 of all five families; both rules, order 3; a second finite element space of another configuration built in between; 40 cells, 81 test functions or 121 points with cells of fixed shape under an arbitrary common translation; cells given as integers or stored column by column",
    assumptions=["real arithmetic: a relative 1e-9 of coefficients absorbs floating-point rounding of basis values, nodes and weights",
                 "scipy.special's jacobi/legendre polynomials are replaced by the exact polynomials (compared with scipy's values on every run)"],
    jobs=4, concrete=2, scales=(1e-2, 1e-4, 1e-7))


def configs(tier):
    out = []
    for kind in ("bilinear", "affine"):
        for fam in FAMILIES:
            out.append(dict(kind=kind, fam=fam, n=2, qr="gauss-legendre", q=3, ors=(1, -1)))
        out.append(dict(kind=kind, fam="legendre", n=3, qr="gauss-jacobi", q=3, ors=(1,)))
        out.append(dict(kind=kind, fam="jacobi", n=2, qr="gauss-jacobi", q=3, ors=(-1, 1, 1)))
        # more cells, test functions and points than any block the code might have
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ors=(1,) * 40, fixed=True))
        out.append(dict(kind=kind, fam="jacobi", n=9, qr="gauss-jacobi", q=3, ors=(1, 1), fixed=True))
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=11, ors=(1, 1), fixed=True))
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ors=(1, -1), form="ints"))
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ors=(1, 1, 1), form="columns", fixed=True))
        if tier != "quick":
            for fam in FAMILIES:
                out.append(dict(kind=kind, fam=fam, n=3, qr="gauss-jacobi", q=4, ors=(1, -1)))
            out.append(dict(kind=kind, fam="legendre", n=4, qr="gauss-legendre", q=5, ors=(1,)))
            out.append(dict(kind=kind, fam="legendre_special", n=2, qr="gauss-legendre", q=4, ors=(1, -1, 1, 1)))
    return out


def check_space(h, tag, S, Xs, ors, kind, fam, n, qr, q):
    w, xi, eta = [floats(v) for v in ref_rule(h, q, qr)]
    phi = basis2d(fam, n, xi, eta)
    px, py = basis2d(fam, n, xi, eta, 1, 0), basis2d(fam, n, xi, eta, 0, 1)
    nt, nq = phi.shape
    for c in reversed(range(len(Xs))):
        X = Xs[c]
        Js = [map_jac(X, xi[k], eta[k]) for k in range(nq)]
        D = [det2(J) * ors[c] for J in Js]          # positive on convex cells
        V, GX, GY = S.get_shape_function_val(c), S.get_shape_function_grad_x(c), S.get_shape_function_grad_y(c)
        t = None if h.symbolic else 1e-6 * magnitude(h, X) ** 2 * n ** 2
        h.eq(tag + "value", V, [[phi[i, k] * (w[k] * D[k]) for k in range(nq)] for i in range(nt)], atol=1e-12, tol=t)
        h.eq(tag + "grad-shape", [list(GX.shape), list(GY.shape)], [[nt, nq]] * 2)
        # chain rule, premultiplied: J^T G = reference gradient * weight * |J|
        lx = [[Js[k][0][0] * GX[i][k] + Js[k][1][0] * GY[i][k] for k in range(nq)] for i in range(nt)]
        ly = [[Js[k][0][1] * GX[i][k] + Js[k][1][1] * GY[i][k] for k in range(nq)] for i in range(nt)]
        h.eq(tag + "grad-xi", lx, [[px[i, k] * (w[k] * D[k]) for k in range(nq)] for i in range(nt)], atol=1e-12, tol=t and 10 * t)
        h.eq(tag + "grad-eta", ly, [[py[i, k] * (w[k] * D[k]) for k in range(nq)] for i in range(nt)], atol=1e-12, tol=t and 10 * t)
        h.eq(tag + "ref-grad-x", S.get_shape_function_grad_x_ref(c), px, atol=1e-12, tol=None if h.symbolic else 1e-7 * n ** 4)
        h.eq(tag + "ref-grad-y", S.get_shape_function_grad_y_ref(c), py, atol=1e-12, tol=None if h.symbolic else 1e-7 * n ** 4)


def body(h, kind, fam, n, qr, q, ors, fixed=False, form=None):
    Xs = [whole(kind, o, i) for i, o in enumerate(ors)] if form == "ints" else many(h, len(ors), kind) if fixed else [bquad(h, "X%d" % i, kind, o) for i, o in enumerate(ors)]
    cells = cells_array(h, Xs, form)
    keep = cells.copy()
    S = space(h, cells, kind, n, fam, q, qr)
    check_space(h, "", S, Xs, ors, kind, fam, n, qr, q)
    # another space on other cells, other configuration, in the same process
    Ys = [bquad(h, "Y", kind, 1)]
    fam2 = "legendre" if fam != "legendre" else "chebyshev_2"
    S2 = space(h, cells_array(h, Ys), kind, 2, fam2, 3, "gauss-legendre" if qr == "gauss-jacobi" else "gauss-jacobi")
    check_space(h, "second-", S2, Ys, [1], kind, fam2, 2, "gauss-legendre" if qr == "gauss-jacobi" else "gauss-jacobi", 3)
    check_space(h, "again-", S, Xs, ors, kind, fam, n, qr, q)
    h.eq("cells-unchanged", cells, keep)

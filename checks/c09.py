from .fes import *

INFO = dict(
    bounds="every forcing function (uninterpreted; in the quick tier also a cubic polynomial with arbitrary coefficients); 1..3 cells with arbitrary vertex coordinates in [-10,10]; order 2 families, 3x3 points; scalar and 3-component forcing; 40 cells, 81 test functions or 121 points with cells of fixed shape under an arbitrary common translation; cells given as integers or stored column by column",
    assumptions=["real arithmetic: a relative 1e-9 of coefficients absorbs floating-point rounding of basis values, nodes and weights",
                 "the forcing function may be called with scalars or with arrays; it acts pointwise"],
    jobs=4, concrete=2, scales=(1e-2, 1e-4, 1e-7))


def configs(tier):
    out = []
    for kind in ("bilinear", "affine"):
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ncells=2))
        out.append(dict(kind=kind, fam="jacobi_plain", n=2, qr="gauss-jacobi", q=3, ncells=1))
        out.append(dict(kind=kind, fam="chebyshev_2", n=2, qr="gauss-legendre", q=3, ncells=3))
        # more cells, test functions and points than any block the code might have
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ncells=40, fixed=True))
        out.append(dict(kind=kind, fam="legendre", n=9, qr="gauss-jacobi", q=4, ncells=1, fixed=True))
        out.append(dict(kind=kind, fam="jacobi", n=2, qr="gauss-legendre", q=11, ncells=2, fixed=True))
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ncells=2, form="ints"))
        out.append(dict(kind=kind, fam="legendre", n=2, qr="gauss-legendre", q=3, ncells=2, form="columns", fixed=True))
        if tier != "quick":
            out.append(dict(kind=kind, fam="legendre_special", n=3, qr="gauss-legendre", q=4, ncells=2))
            out.append(dict(kind=kind, fam="jacobi", n=3, qr="gauss-jacobi", q=5, ncells=1))
    return out


def body(h, kind, fam, n, qr, q, ncells, fixed=False, form=None):
    Xs = [whole(kind, 1, i) for i in range(ncells)] if form == "ints" else many(h, ncells, kind) if fixed else [bquad(h, "X%d" % i, kind, 1) for i in range(ncells)]
    f = h.fn("f")
    g = h.fn("g", nout=3)
    w, xi, eta = [floats(v) for v in ref_rule(h, q, qr)]
    phi = basis2d(fam, n, xi, eta)
    nt, nq = phi.shape
    cells = cells_array(h, Xs, form)
    S = space(h, cells, kind, n, fam, q, qr, forcing=f)
    V = space(h, cells, kind, n, fam, q, qr, forcing=g)
    order = list(range(ncells)) + [0]
    for c in order:
        X = Xs[c]
        pts = [map_point(X, xi[k], eta[k]) for k in range(nq)]
        m = [w[k] * det2(map_jac(X, xi[k], eta[k])) for k in range(nq)]
        fv = [f(x, y) for x, y in pts]
        gv = [g(x, y) for x, y in pts]
        t = None if h.symbolic else 1e-6 * magnitude(h, X) ** 2 * nq * (
            1 + max([abs(float(a)) for a in fv] + [abs(float(b)) for a in gv for b in a]))
        want = [[sum(fv[k] * (phi[i, k] * m[k]) for k in range(nq))] for i in range(nt)]
        h.eq("load", S.get_forcing_function_values(c), want, tol=t, atol=1e-12)
        for comp in (1, 2, 0):
            want = [[sum(gv[k][comp] * (phi[i, k] * m[k]) for k in range(nq))] for i in range(nt)]
            h.eq("load-component", V.get_forcing_function_values_vector(c, comp), want, tol=t, atol=1e-12)
    h.eq("weights-kept", S.get_shape_function_val(0),
         [[phi[i, k] * (w[k] * det2(map_jac(Xs[0], xi[k], eta[k]))) for k in range(nq)] for i in range(nt)],
         tol=None if h.symbolic else 1e-5 * magnitude(h, Xs[0]) ** 2, atol=1e-12)

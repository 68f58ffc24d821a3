from .polys import *
from lib import symcore as sc
from lib import symnumpy as sn

INFO = dict(
    bounds="families legendre, jacobi, legendre_special, chebyshev_2, jacobi_plain; orders 2..12 (quick: all orders with 1 point, 2 points up to order 5); evaluation points are unbounded real symbols; order 16 (thorough 20) with 1 point",
    assumptions=["real arithmetic: polynomial coefficients may differ by a relative 1e-9 (floating-point rounding of the normalisation constants)",
                 "scipy.special's jacobi/legendre polynomials are replaced by the exact polynomials (compared with scipy's values on every run)"],
    jobs=4, concrete=2)


def configs(tier):
    out = []
    for fam in FAMILIES:
        for n in ([16] if tier == "quick" else [20, 16]) + list(range(12, 1, -1)):
            out.append(dict(fam=fam, n=n, npts=1))
            if n <= (5 if tier == "quick" else 9):
                out.append(dict(fam=fam, n=n, npts=2))
                if tier != "quick":
                    out.append(dict(fam=fam, n=n, npts=4))
    return out


def deriv(h, f, n, xi, eta, kx, ky):
    """derivative (orders kx, ky) of the value evaluation itself"""
    if h.symbolic:
        V = f(xi, eta)
        out = V.copy()
        for i in range(V.shape[0]):
            for q in range(V.shape[1]):
                d = sc.as_sym(V[i, q])
                for _ in range(kx):
                    d = sc.diff(d, xi[q])
                for _ in range(ky):
                    d = sc.diff(d, eta[q])
                out[i, q] = d
        return out
    # the values are polynomials of degree <= n+1 in each variable: differentiate the interpolant
    N = n + 3
    t = np.cos(np.pi * (np.arange(N) + 0.5) / N)
    out = np.zeros((n * n, len(xi)))
    from numpy.polynomial import chebyshev as C
    A, B = np.meshgrid(t, t, indexing="ij")
    V = np.asarray(f(A.reshape(-1), B.reshape(-1))).reshape(n * n, N, N)
    W = C.chebvander(t, N - 1)
    Wi = np.linalg.inv(W)
    for i in range(n * n):
        c = Wi @ V[i] @ Wi.T
        cx = C.chebder(c, kx, axis=0) if kx else c
        cx = C.chebder(cx, ky, axis=1) if ky else cx
        for q in range(len(xi)):
            out[i, q] = C.chebval2d(xi[q], eta[q], cx)
    return out


def body(h, fam, n, npts):
    b = setup(h, fam, n).assign_basis_function()
    xi, eta = h.reals("xi", npts, -1, 1), h.reals("eta", npts, -1, 1)
    x0, e0 = xi.copy(), eta.copy()
    # evaluated before, at other points and by another instance
    other = setup(h, fam, n + 1 if n < 12 else 2).assign_basis_function()
    for f in (other, b):
        for g in ("value", "gradx", "grady", "gradxx", "gradxy", "gradyy"):
            getattr(f, g)(e0.copy(), x0.copy())
    fns = [("x", b.gradx, 1, 0), ("y", b.grady, 0, 1), ("xx", b.gradxx, 2, 0), ("xy", b.gradxy, 1, 1), ("yy", b.gradyy, 0, 2)]
    for name, g, kx, ky in fns:
        want = deriv(h, b.value, n, x0, e0, kx, ky)
        tol = None if h.symbolic else 1e-6 * (1 + float(np.max(np.abs(want)))) + 1e-8 * n ** 6
        h.eq("d" + name, g(xi, eta), want, tol=tol)
    h.eq("points-unchanged", [xi, eta], [x0, e0])
    # single-point and repeated evaluations agree
    g2 = b.gradx(eta, xi)
    h.eq("dx-swapped", g2, deriv(h, b.value, n, e0, x0, 1, 0), tol=None if h.symbolic else 1e-6 * (1 + n ** 6))

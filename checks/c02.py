from .polys import *

INFO = dict(
    bounds="families legendre, jacobi, legendre_special, chebyshev_2, jacobi_plain; orders 2..12; 1..2 (quick) evaluation points as unbounded real symbols; whole boundary of the reference cell (one coordinate symbolic); order 16 (thorough 20) with 1 point",
    assumptions=["real arithmetic: coefficients may differ by a relative 1e-9; boundary values by 1e-9 for points in [-1,1]",
                 "scipy.special's jacobi/legendre polynomials are replaced by the exact polynomials (compared with scipy's values on every run)"],
    jobs=4, concrete=2)


def configs(tier):
    out = []
    for fam in FAMILIES:
        for n in ([16] if tier == "quick" else [20, 16]) + list(range(12, 1, -1)):
            out.append(dict(fam=fam, n=n, npts=1))
            if n <= (4 if tier == "quick" else 9):
                out.append(dict(fam=fam, n=n, npts=2))
                if tier != "quick":
                    out.append(dict(fam=fam, n=n, npts=n))
    return out


def body(h, fam, n, npts):
    b = setup(h, fam, n).assign_basis_function()
    xi, eta = h.reals("xi", npts, -1, 1), h.reals("eta", npts, -1, 1)
    C = [phi_coeffs(fam, k) for k in range(1, n + 1)]
    V = b.value(xi, eta)
    px = [[ev(h, c, xi[q]) for q in range(npts)] for c in C]
    py = [[ev(h, c, eta[q]) for q in range(npts)] for c in C]
    want = [[px[i][q] * py[j][q] for q in range(npts)] for i in range(n) for j in range(n)]
    h.eq("value", V, want)
    if fam != "jacobi_plain":
        t = xi[0]
        for s in (-1.0, 1.0):
            z = [[0.0, 0.0]] * (n * n)
            a = h.array([s, t])
            e = h.array([t, s])
            h.eq("vanishes-on-boundary", b.value(a, e), z, atol=1e-9 if n <= 12 else 1e-7, tol=None if h.symbolic else (1e-8 if n <= 12 else 1e-6))
    # another family built in between leaves this one alone
    other = setup(h, "jacobi_plain" if fam != "jacobi_plain" else "legendre", n).assign_basis_function()
    other.value(xi, eta)
    h.eq("value-again", b.value(xi, eta), want)

import numpy as np
from .polys import setup

INFO = dict(
    bounds="orders 3..16 (thorough ..24), both rules; polynomials with arbitrary coefficients in [-1,1] of the stated degree",
    assumptions=["the nodes and weights themselves are the floating-point numbers the code computes; exactness is up to a relative 1e-9 (rounding)"],
    jobs=4, concrete=2)


def configs(tier):
    return [dict(rule=r, q=q) for r in ("gauss-legendre", "gauss-jacobi") for q in range(16 if tier == "quick" else 24, 2, -1)]


def body(h, rule, q):
    d = 2 * q - 1 if rule == "gauss-legendre" else 2 * q - 3
    # other rules of the same and of other orders were built before
    other = "gauss-jacobi" if rule == "gauss-legendre" else "gauss-legendre"
    for o, k in ((q, other), (q + 1, rule), (3, other), (q - 1 if q > 3 else 5, rule)):
        setup(h, "legendre", 2, o, k).assign_quadrature_rules()
    s = setup(h, "legendre", 2, q, rule)
    w, xi, eta = s.assign_quadrature_rules()
    h.eq("number-of-points", [len(w), len(xi), len(eta)], [q * q] * 3)
    h.true("positive-weights", all(float(v) > 0 for v in w), "a weight is not positive")
    h.true("points-in-cell", all(abs(float(v)) <= 1 + 1e-12 for v in list(xi) + list(eta)), "a point is outside the reference cell")
    # all (a, b) monomials at once: the polynomial has a free coefficient for each
    step = 8
    for a0 in range(0, d + 1, step):
        As = range(a0, min(d + 1, a0 + step))
        c = {(a, b): h.real("c[%d,%d]" % (a, b), -1, 1) for a in As for b in range(d + 1)}
        X = np.array([float(v) for v in xi])
        Y = np.array([float(v) for v in eta])
        W = np.array([float(v) for v in w])
        got = 0.0
        want = 0.0
        for (a, b), k in c.items():
            got = got + k * float(np.sum(W * X ** a * Y ** b))
            ia = 2.0 / (a + 1) if a % 2 == 0 else 0.0
            ib = 2.0 / (b + 1) if b % 2 == 0 else 0.0
            want = want + k * (ia * ib)
        h.eq("exact-integration", got, want, atol=1e-10)
    # the same rule through the quadrature class, and built a second time
    Q = h.module("FE.quadratureformulas_quad2d").Quadratureformulas_Quad2D(q, rule)
    w2, xi2, eta2 = Q.get_quad_values()
    h.eq("class-agrees", [list(w2), list(xi2), list(eta2)], [list(w), list(xi), list(eta)])
    h.eq("count", [Q.get_num_quad_points()], [q * q])

from .geo import *

INFO = dict(
    bounds="vertex coordinates and reference points unbounded reals; arrays of up to 3 reference points; both orientations; 80 (thorough 300) reference points; also cells with whole coordinates given as integer arrays",
    assumptions=["real arithmetic: floating-point rounding is not modelled (concrete runs use the real floats)",
                 "bilinear: strictly convex quadrilateral; affine: non-degenerate parallelogram"],
    jobs=1, concrete=6, scales=(1e-2, 1e-4, 1e-7, 1e4))


def configs(tier):
    out = []
    for kind in ("affine", "bilinear"):
        for orient in (1, -1):
            for npts in ((0, 1, 3, 80) if tier == "quick" else (0, 1, 2, 3, 4, 5, 80, 300)):
                out.append(dict(kind=kind, orient=orient, npts=npts))
    out += [dict(kind=k, orient=o, npts=n, ints=True) for k in ("affine", "bilinear") for o in (1, -1) for n in (0, 3)]
    return out


def make(h, kind, X):
    if kind == "affine":
        return h.module("FE.quad_affine").QuadAffin(X)
    return h.module("FE.quad_bilinear").QuadBilinear(X)


def body(h, kind, orient, npts, ints=False):
    X = whole(kind, orient) if ints else quad(h, "X", kind, orient)
    T = make(h, kind, X)
    m = magnitude(h, X)
    m2 = m and m * m
    if npts == 0:
        for k, (s, t) in enumerate(REF):
            h.eq("vertex", T.get_original_from_ref(s, t), X[k], mag=m)
        xi, eta = h.real("xi", -1, 1), h.real("eta", -1, 1)
        h.eq("map", T.get_original_from_ref(xi, eta), list(map_point(X, xi, eta)), mag=m)
        J = det2(map_jac(X, xi, eta))
        h.eq("jacobian", T.get_jacobian(xi, eta), h.abs(J), mag=m2)
        # a second cell built afterwards does not disturb the first
        Y = quad(h, "Y", kind, orient)
        U = make(h, kind, Y)
        h.eq("map-second", U.get_original_from_ref(xi, eta), list(map_point(Y, xi, eta)))
        h.eq("jacobian-second", U.get_jacobian(eta, xi), h.abs(det2(map_jac(Y, eta, xi))))
        h.eq("map-again", T.get_original_from_ref(xi, eta), list(map_point(X, xi, eta)), mag=m)
        h.eq("jacobian-again", T.get_jacobian(xi, eta), h.abs(J), mag=m2)
        return
    xi = h.reals("xi", npts, -1, 1)
    eta = h.reals("eta", npts, -1, 1)
    P = T.get_original_from_ref(xi, eta)
    want = [map_point(X, xi[i], eta[i]) for i in range(npts)]
    h.eq("map-array", P, [[w[0] for w in want], [w[1] for w in want]], mag=m)
    J = T.get_jacobian(xi, eta)
    ref = [h.abs(det2(map_jac(X, xi[i], eta[i]))) for i in range(npts)]
    if kind == "affine":      # constant: one number or one per point
        for i in range(npts):
            h.eq("jacobian-array", J if not getattr(J, "shape", ()) else J[i], ref[i], mag=m2)
    else:
        h.eq("jacobian-array", J, ref, mag=m2)

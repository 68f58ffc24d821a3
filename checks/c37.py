"""mesh pictures and reported totals"""
from .fes import *
from .plots import *
import os

INFO = dict(
    bounds="1..3 arbitrary convex cells, rules of order 3..4, 1..17 boundary tags with 1..3 arbitrary points; residual pictures of 1..4 arbitrary cells with arbitrary, not all equal, residuals; also 12 cells of fixed shape under an arbitrary translation, 40 tags",
    assumptions=["matplotlib's drawing functions are recorders: a picture is the curves, points and polygons drawn between figure() and savefig(); colours are (map name, normalised value)"],
    jobs=4, concrete=4)


def configs(tier):
    out = [dict(what="mesh", nc=c, q=q, tags=t, kind=k) for c, q, t, k in
           ((1, 3, 1, "affine"), (2, 3, 2, "bilinear"), (3, 3, 4, "bilinear"), (1, 4, 15, "affine"), (1, 3, 17, "bilinear"), (2, 3, 1, "affine"))]
    out += [dict(what="residual", nc=c, q=0, tags=0, kind="bilinear") for c in (2, 3)]
    out += [dict(what="mesh", nc=12, q=3, tags=2, kind="bilinear", fixed=True), dict(what="mesh", nc=1, q=3, tags=40, kind="affine", fixed=True),
            dict(what="residual", nc=12, q=0, tags=0, kind="bilinear", fixed=True)]
    if tier != "quick":
        out += [dict(what="mesh", nc=c, q=q, tags=t, kind=k) for c in (4, 6) for q in (3, 5) for t, k in ((4, "bilinear"), (40, "affine"))]
        out += [dict(what="residual", nc=c, q=0, tags=0, kind="bilinear") for c in (4,)]
    return out


def closed(h, label, got, X):
    """a closed polygon through the vertices"""
    n = len(X)
    h.true(label + "-closed", len(got["x"]) == len(got["y"]) and len(got["x"]) in (n, n + 1), "%d points" % len(got["x"]))
    for i in range(len(got["x"])):
        h.eq(label, [got["x"][i], got["y"][i]], [X[i % n][0], X[i % n][1]])


def body(h, what, nc, q, tags, kind, fixed=False):
    R = Recorder(h)
    if h.choose("left-open", [False, True]):
        R.leave_open(h.real("old", 1, 2))
    root = h.tmp() or "."
    Xs = many(h, nc, kind) if fixed else [bquad(h, "X%d" % i, kind) for i in range(nc)]
    cells = cells_array(h, Xs)
    if what == "residual":
        return residual(h, R, root, Xs, cells)
    np_of = lambda i: 1 + (i * 7 + 1) % 3
    bp = {1000 + 3 * i: h.reals("p%d" % i, (np_of(i), 2)) for i in range(tags)}
    out = os.path.join(root, h.choose("folder", ["out", "a b"]))
    os.makedirs(out, exist_ok=True) if not h.symbolic else None
    F = h.module("FE.fespace2d").Fespace2D
    plot = h.choose("when", ["at-construction", "later", "never"])
    g = h.fn("g")
    S = F(mesh=None, cells=cells, boundary_points=bp, cell_type="quadrilateral", fe_order=2, fe_type="legendre",
          quad_order=q, quad_type="gauss-legendre", fe_transformation_type=kind, bound_function_dict={k: g for k in bp},
          bound_condition_dict={k: "dirichlet" for k in bp}, forcing_function=h.fn("f"), output_path=out,
          generate_mesh_plot=plot == "at-construction")
    nb = sum(len(v) for v in bp.values())
    h.eq("totals", [S.n_cells, S.total_dofs, S.total_dirichlet_dofs], [nc, nc * q * q, nb])
    if plot == "later":
        h.true("not-drawn-unasked", not R.saved, "pictures %s without being asked" % [n for n, _ in R.saved])
        S.generate_plot(out)
    if plot == "never":
        h.true("not-drawn-unasked", not R.saved, "pictures %s without being asked" % [n for n, _ in R.saved])
        return
    h.eq("totals-after-plot", [S.n_cells, S.total_dofs, S.total_dirichlet_dofs, S.total_boundary_dofs], [nc, nc * q * q, nb, nb])
    for ext in ("png", "svg"):
        pic = R.picture(h, os.path.join(out, "mesh." + ext))
        shapes = pic["lines"] + pic["polygons"]
        h.true("one-outline-per-cell", len(shapes) == nc, "%d outlines for %d cells" % (len(shapes), nc))
        for c in range(nc):
            closed(h, "outline", shapes[c], Xs[c])
        x = [v for p in pic["points"] for v in p["x"]]
        y = [v for p in pic["points"] for v in p["y"]]
        want = [S.get_quadrature_actual_coordinates(c)[k] for c in range(nc) for k in range(q * q)]
        want += [p for v in bp.values() for p in v]
        h.true("points-drawn-once", len(x) == len(y) == len(want), "%d points drawn instead of %d" % (len(x), len(want)))
        h.eq("points", h.array([x, y]), h.array([[p[0] for p in want], [p[1] for p in want]]))
        for k, v in bp.items():
            m = [p for p in pic["points"] if str(k) in str(p["label"])]
            h.true("tag-shown", len(m) == 1, "%d groups of points are labelled %d" % (len(m), k))
            h.eq("tag-points", h.array([m[0]["x"], m[0]["y"]]), h.array([[p[0] for p in v], [p[1] for p in v]]))


def residual(h, R, root, Xs, cells):
    n = len(Xs)
    G = h.module("Geometry.geometry_2d").Geometry_2D("quadrilateral", "internal", 3, 3, root)
    if n > 4:
        a, b = h.real("a", 0.0, 1.0), h.real("b", 0.5, 2.0)
        h.assume(b > 0)
        r = h.array([a + b * (i * 7 % n) for i in range(n)])
    else:
        r = h.reals("r", (n,), 0.0, 5.0)
    h.assume(r[0] < r[1])
    name = h.choose("name", [None, "res"])
    epoch = h.choose("epoch", [0, 120])
    cl = cells if h.choose("array", [True, False]) else [cells[i] for i in range(n)]
    G.plot_adaptive_mesh(cl, r if h.choose("residual-array", [True, False]) else list(r), epoch, *([name] if name else []))
    pic = R.picture(h, os.path.join(root, "%s_%d.png" % (name or "cell_residual", epoch)))
    h.true("one-patch-per-cell", len(pic["polygons"]) == n, "%d patches" % len(pic["polygons"]))
    lo, hi = r[0], r[0]
    for v in r[1:]:
        lo = v if h.branch(v < lo) else lo
        hi = v if h.branch(v > hi) else hi
    for i in range(n):
        closed(h, "patch", pic["polygons"][i], Xs[i])
        c = pic["polygons"][i]["color"]
        h.true("colour", isinstance(c, Color), "colour %r does not depend on the residual" % (c,))
        h.eq("colour-value", [c[1] * (hi - lo)], [r[i] - lo])
    for c, L in enumerate(pic["lines"]):
        closed(h, "outline", L, Xs[c])

"""test points"""
from .fes import *
from .meshes import mesh_file, geometry, strip, fixed_strip

INFO = dict(
    bounds="internal: arbitrary rectangle, 1..4 x 1..4 cells and 2..5 x 2..5 test points; external: one or two convex cells with arbitrary vertices plus unused vertices, files with 2 or 3 coordinates; float64 and float32 tensors; 17 x 13 points; 70 external cells of fixed shape under an arbitrary translation",
    assumptions=["meshio's file writer and parser are replaced by an in-memory mesh in symbolic runs (concrete runs write and read real files)",
                 "TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces"],
    jobs=8, concrete=2)


def configs(tier):
    out = [dict(kind="internal", nx=2, ny=3, dtype="float64"), dict(kind="internal", nx=4, ny=2, dtype="float32"),
           dict(kind="internal", nx=3, ny=3, dtype="float64"), dict(kind="internal", nx=5, ny=4, dtype="float64"),
           dict(kind="external", nx=1, ny=3, dtype="float64"), dict(kind="external", nx=2, ny=3, dtype="float64"),
           dict(kind="external", nx=1, ny=2, dtype="float32")]
    out += [dict(kind="internal", nx=17, ny=13, dtype="float64"), dict(kind="external", nx=70, ny=3, dtype="float64")]
    if tier != "quick":
        out += [dict(kind="internal", nx=7, ny=2, dtype="float64"), dict(kind="internal", nx=2, ny=9, dtype="float32"),
                dict(kind="external", nx=3, ny=3, dtype="float64")]
    return out


def body(h, kind, nx, ny, dtype):
    import tensorflow as tf
    if kind == "internal":
        x0, x1, y0, y1 = (h.real(k, lo, lo + 2) for k, lo in (("x0", -3), ("x1", 1), ("y0", -3), ("y1", 1)))
        h.assume(x0 < x1)
        h.assume(y0 < y1)
        dom = geometry(h, "internal", nx, ny)
        cells, bp = dom.generate_quad_mesh_internal(x_limits=[x0, x1], y_limits=[y0, y1], n_cells_x=h.choose("cx", [1, 3]),
                                                    n_cells_y=h.choose("cy", [2, 1]), num_boundary_points=8)
        want = [[x0 + (x1 - x0) * h.frac(i, nx - 1), y0 + (y1 - y0) * h.frac(j, ny - 1)] for j in range(ny) for i in range(nx)]
    else:
        P, quads = fixed_strip(h, nx) if nx > 5 else strip(h, "P", nx)
        from lib import symnumpy as sn
        sn.FLAT_UNIQUE_SYNTACTIC = True
        for i in range(0, 0 if nx > 5 else 2 * nx + 2, 2):
            h.assume(P[i][1] < -0.5)
            h.assume(P[i + 1][1] > 0.5)
        extra = h.reals("Q", (1, 2))
        pts = [[P[i][0], P[i][1]] for i in range(2 * nx + 2)] + [[extra[0][0], extra[0][1]]]
        f = mesh_file(h, pts, quads, [(0, 1), (2, 3)], [1000, 1001], dim=ny)
        dom = geometry(h, "external", 3, 3)
        dom.read_mesh(f, 0, "uniform", 0)
        want = pts
    got = dom.get_test_points()
    h.eq("test-points", got, h.array(want))
    h.eq("same-again", dom.get_test_points(), h.array(want))
    # the same object generates or reads another mesh
    if kind == "internal":
        z = [h.real(k, lo, lo + 2) for k, lo in (("u0", -3), ("u1", 1), ("v0", -3), ("v1", 1))]
        h.assume(z[0] < z[1])
        h.assume(z[2] < z[3])
        dom.generate_quad_mesh_internal(x_limits=z[:2], y_limits=z[2:], n_cells_x=2, n_cells_y=1, num_boundary_points=8)
        want = [[z[0] + (z[1] - z[0]) * h.frac(i, nx - 1), z[2] + (z[3] - z[2]) * h.frac(j, ny - 1)] for j in range(ny) for i in range(nx)]
    else:
        e = h.reals("R", (2, 2))
        want = [[h.frac(v, 1) for v in p] for p in ((-1, -1), (2, -1), (2, 1), (-1, 1))] + [[e[i][0], e[i][1]] for i in range(2)]
        dom.read_mesh(mesh_file(h, want, [[0, 1, 2, 3]], [(0, 1)], [1000], dim=ny, name="n.mesh"), 0, "uniform", 0)
    h.eq("test-points-of-the-new-mesh", dom.get_test_points(), h.array(want))
    S = space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", forcing=h.fn("f"))
    D = h.module("data.datahandler2d").DataHandler2D(S, dom, dtype=tf.as_dtype(dtype))
    t = D.get_test_points()
    h.true("dtype", h.dtype_name(t) == dtype, h.dtype_name(t))
    h.eq("tensor", h.npy(t), h.cast(h.array(want), dtype), **({} if h.symbolic else dict(tol=1e-12 if dtype == "float64" else 1e-5)))

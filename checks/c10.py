from .geo import *
from .meshes import geometry

INFO = dict(
    bounds="1..3 x 1..3 cells (quick), up to 5 x 4 (thorough); arbitrary limits x0 < x1, y0 < y1; also 9 x 8, 40 x 1 and 1 x 40 cells",
    assumptions=["real arithmetic: a relative 1e-9 of coefficients absorbs floating-point rounding of linspace",
                 "gmsh (visualisation mesh) and meshio's file writers are inert stand-ins"],
    jobs=4, concrete=3)


def configs(tier):
    g = [(1, 1), (2, 1), (1, 3), (3, 2), (9, 8), (40, 1), (1, 40)]
    g += [] if tier == "quick" else [(a, b) for a in range(1, 6) for b in range(1, 5)]
    return [dict(nx=a, ny=b, optimized=True) for a, b in g] + [dict(nx=2, ny=2, optimized=False, again=True)]


def limits(h, tag=""):
    x0, y0 = h.real("x0" + tag, -5, 5, bounded=True), h.real("y0" + tag, -5, 5, bounded=True)
    x1, y1 = h.real("x1" + tag, -5, 5, bounded=True), h.real("y1" + tag, -5, 5, bounded=True)
    h.assume(x1 > x0)
    h.assume(y1 > y0)
    if not h.symbolic:
        h.assume(x1 - x0 > 1e-3)
        h.assume(y1 - y0 > 1e-3)
    return x0, x1, y0, y1


def check(h, tag, dom, lim, nx, ny):
    x0, x1, y0, y1 = lim
    h.eq(tag + "shape", list(dom.cell_points.shape), [nx * ny, 4, 2])
    C = dom.cell_points
    free = {(i, j) for i in range(nx) for j in range(ny)}
    hx, hy = (x1 - x0) * h.frac(1, nx), (y1 - y0) * h.frac(1, ny)
    for c in range(nx * ny):
        cell = C[c]
        hit = None
        for i, j in sorted(free):
            a, b = x0 + hx * i, x0 + hx * (i + 1)
            s, t = y0 + hy * j, y0 + hy * (j + 1)
            ref = [(a, s), (b, s), (b, t), (a, t)]
            for r in range(4):
                w = [list(ref[(k + r) % 4]) for k in range(4)]
                if h.same(cell, h.array(w)):
                    hit = (i, j, w)
                    break
            if hit:
                break
        h.true(tag + "cell-is-a-grid-cell", hit is not None, "cell %d is no counter-clockwise grid cell" % c)
        h.eq(tag + "cell", cell, hit[2])
        free.discard(hit[:2])
    # every grid cell used once: no gap, no overlap
    h.true(tag + "covers", not free, "grid cells missing: %s" % sorted(free))
    m = dom.mesh
    q = m.cells_dict["quad"]
    h.eq(tag + "mesh-cells", list(np.shape(q)), [nx * ny, 4])
    idx = np.asarray(q)
    h.true(tag + "connectivity-integer", idx.dtype.kind in "iu", "connectivity holds %s values" % idx.dtype)
    h.true(tag + "connectivity-range", bool((idx >= 0).all() and (idx < len(m.points)).all()), "point numbers out of range")
    h.eq(tag + "mesh-reproduces-cells", m.points[idx.reshape(-1)], C.reshape(-1, 2))


def body(h, nx, ny, optimized, again=False):
    lim = limits(h)
    dom = geometry(h, "internal", 4, 4, optimized)
    cells, bd = dom.generate_quad_mesh_internal([lim[0], lim[1]], [lim[2], lim[3]], nx, ny, 8)
    check(h, "", dom, lim, nx, ny)
    h.eq("returned-cells", cells, dom.cell_points)
    if again:
        lim2 = limits(h, "b")
        dom.generate_quad_mesh_internal([lim2[0], lim2[1]], [lim2[2], lim2[3]], 1, 2, 8)
        check(h, "regenerated-", dom, lim2, 1, 2)
        dom2 = geometry(h, "internal", 4, 4, True)
        dom2.generate_quad_mesh_internal((lim[0], lim[1]), (lim[2], lim[3]), 2, 1, 4)
        check(h, "other-", dom2, lim, 2, 1)
        check(h, "unchanged-", dom, lim2, 1, 2)

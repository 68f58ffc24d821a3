from .geo import *
from .meshes import mesh_file, geometry, strip, fixed_strip

INFO = dict(
    bounds="1..2 (quick) / 1..3 (thorough) convex cells sharing edges, arbitrary vertex coordinates in [-10,10], every starting vertex and both directions of listing, 2-D and 3-D files, edges before or after cells in the file; 40 cells of fixed shape under an arbitrary common translation",
    assumptions=["meshio's file parser is replaced by an in-memory mesh in symbolic runs (concrete runs read real .mesh files)",
                 "arctan2 is compared exactly (half-planes and cross products)"],
    jobs=6, concrete=3, max_paths=20000, scales=(1e-2, 1e-4, 1e-6))


def configs(tier):
    out = []
    for rot in range(4):
        for rev in (False, True):
            out.append(dict(n=1, lst=[(rot, rev)], dim=3 if rot % 2 else 2, first=rot < 2))
    out.append(dict(n=2, lst=[(1, True), (3, False)], dim=3, first=True, split=True))
    out.append(dict(n=2, lst=[(2, False), (0, True)], dim=2, first=False, split=True))
    # more cells than any block the code might have
    out.append(dict(n=40, lst=[(i * 3 % 4, i * i % 3 == 1) for i in range(40)], dim=3, first=True, fixed=True))
    if tier != "quick":
        out.append(dict(n=3, lst=[(1, True), (3, False), (2, True)], dim=3, first=True, split=True))
        out.append(dict(n=2, lst=[(0, True), (0, False)], dim=3, first=True, split=True))
    return out


def body(h, n, lst, dim, first, split=False, early=True, fixed=False):
    from lib import symnumpy as sn
    sn.FLAT_UNIQUE_SYNTACTIC = True
    P, quads = fixed_strip(h, n) if fixed else strip(h, "P", n)
    if split:
        # several cells: fix the rotational position of the points so that the paths stay few
        for i in range(0, 2 * n + 2, 2):
            h.assume(P[i][1] < 0)
            h.assume(P[i + 1][1] > 0)
    listed = []
    for q, (rot, rev) in zip(quads, lst):
        c = [q[(k + rot) % 4] for k in range(4)]
        listed.append(c[::-1] if rev else c)
    lines = [(0, 2), (2 * n + 1, 2 * n - 1)]
    f = mesh_file(h, P, listed, lines, [1000, 1001], first, dim)
    dom = geometry(h, "external", 3, 3)
    if early:
        # the same object has read another file with as many cells
        Z = [(1.5 * (i // 2) - 3, -2.0 if i % 2 == 0 else 2.0) for i in range(2 * n + 2)]
        dom.read_mesh(mesh_file(h, Z, quads, lines, [1000, 1001], first, dim, name="early.mesh"), 0, "uniform", 0)
    cells, bd = dom.read_mesh(f, 1, "uniform", 1)
    h.eq("shape", list(cells.shape), [n, 4, 2])
    h.eq("stored", dom.cell_points, cells)
    for c, q in enumerate(quads):
        ok = None
        for r in range(4):
            w = h.array([[P[q[(k + r) % 4]][0], P[q[(k + r) % 4]][1]] for k in range(4)])
            if h.same(cells[c], w):
                ok = w
        h.true("counter-clockwise-cell", ok is not None, "cell %d is not the file's cell in counter-clockwise order" % c)
        h.eq("vertices-unmoved", cells[c], ok)

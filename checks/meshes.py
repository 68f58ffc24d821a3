"""mesh files for check bodies: a real .mesh file in concrete runs, an in-memory mesh in symbolic ones"""
import os
import numpy as np
from lib import symnumpy as sn


def mesh_file(h, points, quads, lines, tags, edges_first=True, dim=3, name="m.mesh", quad_refs=None):
    """points: list of (x, y); quads, lines: vertex numbers; tags: reference per line element"""
    path = os.path.join(h.tmp(), name)
    quad_refs = quad_refs or [7 + i for i in range(len(quads))]
    if h.symbolic:
        import meshio
        cells = [("line", np.array(lines, dtype=int).reshape(-1, 2)), ("quad", np.array(quads, dtype=int).reshape(-1, 4))]
        refs = [np.array(tags, dtype=int), np.array(quad_refs, dtype=int)]
        if not edges_first:
            cells, refs = cells[::-1], refs[::-1]
        p = [[x, y] + ([0.0] if dim == 3 else []) for x, y in points]
        m = meshio.Mesh(np.zeros((len(p), dim)), cells, cell_data={"medit:ref": refs},
                        point_data={"medit:ref": np.ones(len(p), dtype=int)})
        m.points = sn.sarr(p)
        h.loader.stubs["meshio"].files[path] = m
        return path
    s = ["MeshVersionFormatted 2", "Dimension %d" % dim, "Vertices", str(len(points))]
    s += ["%r %r %s1" % (float(x), float(y), "0 " if dim == 3 else "") for x, y in points]
    e = ["Edges", str(len(lines))] + ["%d %d %d" % (a + 1, b + 1, t) for (a, b), t in zip(lines, tags)]
    q = ["Quadrilaterals", str(len(quads))] + [" ".join(str(v + 1) for v in c) + " %d" % r for c, r in zip(quads, quad_refs)]
    s += (e + q if edges_first else q + e) + ["End", ""]
    with open(path, "w") as fh:
        fh.write("\n".join(s))
    return path


def geometry(h, kind, nx=3, ny=3, optimized=False):
    G = h.module("Geometry.geometry_2d").Geometry_2D
    return G("quadrilateral", kind, nx, ny, h.tmp() or ".", optimized)


def fixed_strip(h, n):
    """strip() of fixed shape, moved by an arbitrary translation"""
    t = h.reals("shift", (2,), -1.0, 1.0, bounded=True)
    P = []
    for i in range(n + 1):
        P += [[i + 0.125 * (i % 3) + t[0], -1 + 0.125 * (i % 2) + t[1]], [i - 0.125 * (i % 4) + t[0], 1 + 0.25 * (i % 3) + t[1]]]
    return h.array(P), [[2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1] for i in range(n)]


def strip(h, tag, n, orient=1, R=10.0):
    """n convex cells in a row sharing edges: 2(n+1) vertices, all quads strictly convex"""
    def smp(r):
        x, out = r.uniform(-3, 3), []
        for i in range(n + 1):
            out += [(x + r.uniform(-.2, .2), r.uniform(-1.2, -0.8)), (x + r.uniform(-.2, .2), r.uniform(0.8, 1.2))]
            x += r.uniform(1.0, 2.0)
        return out
    P = h.reals(tag, (2 * n + 2, 2), -R, R, sampler=smp, bounded=True)
    from .geo import cross2
    quads = []
    for i in range(n):
        q = [2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1]
        for k in range(4):
            h.assume(cross2(P[q[k]], P[q[(k + 1) % 4]], P[q[(k + 2) % 4]]) > 0)
        quads.append(q)
    return P, quads

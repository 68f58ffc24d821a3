from .geo import *
from .meshes import mesh_file, geometry, strip, fixed_strip

INFO = dict(
    bounds="one or two convex cells with arbitrary vertices in [-10,10], up to 4 (quick) / 6 boundary edges with 1..3 tags, refinement levels 0..2 (quick) / 0..3, uniform and lhs sampling, 2-D and 3-D files, edges before or after the cells; 28 edges of 14 cells of fixed shape under an arbitrary translation, refinement 4 of one edge",
    assumptions=["meshio's file parser is replaced by an in-memory mesh in symbolic runs (concrete runs read real .mesh files)",
                 "pyDOE.lhs(d, n) returns arbitrary values, one in each of n equal strata of [0,1) per dimension",
                 "np.unique returns the distinct rows (their order is not part of the property)"],
    jobs=8, concrete=3, max_paths=20000, scales=(1e-2, 1e-4, 1e-6))


def configs(tier):
    out = []
    L2 = [(0, 2), (2, 3), (3, 1), (1, 0)]
    lev = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
    for m in ("uniform", "lhs"):
        for r in lev:
            out.append(dict(n=1, lines=L2, tags=[1000, 1001, 1002, 1003], m=m, r=r, dim=3, first=True))
        out.append(dict(n=1, lines=L2[:3], tags=[5, 9, 5], m=m, r=1, dim=2, first=False))
        out.append(dict(n=1, lines=[(2, 0), (3, 2)], tags=[4, 4], m=m, r=1 if m == "uniform" else 0, dim=3, first=False))
        # more edges than any block the code might have
        out.append(dict(n=14, lines=[(2 * i, 2 * i + 2) for i in range(14)] + [(2 * i + 3, 2 * i + 1) for i in range(14)],
                        tags=[(7, 3, 3)[i % 3] for i in range(14)] + [3] * 14, m=m, r=0, dim=3, first=True, fixed=True))
        out.append(dict(n=1, lines=L2[:1], tags=[8], m=m, r=4 if m == "uniform" else 3, dim=2, first=True, fixed=True))
        if tier != "quick":
            out.append(dict(n=1, lines=L2, tags=[2, 2, 2, 2], m=m, r=1, dim=3, first=True))
            out.append(dict(n=2, lines=[(0, 2), (2, 4), (4, 5), (5, 3)], tags=[1, 1, 3, 2], m=m, r=1, dim=3, first=True))
    return out


def body(h, n, lines, tags, m, r, dim, first, fixed=False):
    from lib import symnumpy as sn
    sn.FLAT_UNIQUE_SYNTACTIC = True
    P, quads = fixed_strip(h, n) if fixed else strip(h, "P", n)
    for i in range(0, 0 if fixed else 2 * n + 2, 2):
        h.assume(P[i][1] < 0)
        h.assume(P[i + 1][1] > 0)
    for i in range(0, 0 if fixed else 2 * n, 2):
        h.assume(P[i][0] < P[i + 2][0])
        h.assume(P[i + 1][0] < P[i + 3][0])
    f = mesh_file(h, P, quads, lines, tags, first, dim)
    dom = geometry(h, "external", 3, 3)
    # the same object has read another file before, with the same tags and edges
    Z = [(1.5 * (i // 2) - 3, -2.0 if i % 2 == 0 else 2.0) for i in range(2 * n + 2)]
    dom.read_mesh(mesh_file(h, Z, quads, lines, tags, first, dim, name="early.mesh"), r, "uniform", 0)
    cells, bd = dom.read_mesh(f, r, m, 1)
    h.true("keys", sorted(int(t) for t in bd) == sorted(set(tags)), "keys %s for tags %s" % (sorted(bd), tags))
    K = 2 ** r + 1
    mag = 1.0 if h.symbolic else magnitude(h, P)
    eps = 1e-13 if h.symbolic else 1e-13 * mag
    eps2 = 1e-13 if h.symbolic else 1e-12 * mag * mag
    for tag in sorted(set(tags)):
        S = bd[tag]
        es = [l for l, t in zip(lines, tags) if t == tag]
        N = S.shape[0]
        nu = 0
        for i in range(N):
            on = []
            for a, b in es:
                A, B = P[a], P[b]
                cr = cross2(A, B, S[i])
                dot = (S[i][0] - A[0]) * (B[0] - A[0]) + (S[i][1] - A[1]) * (B[1] - A[1])
                L = (B[0] - A[0]) ** 2 + (B[1] - A[1]) ** 2
                on.append(h.all([cr <= eps2, -eps2 <= cr, -eps2 <= dot, dot <= L + eps2]))
            h.some("on-an-edge-of-the-tag", on, "sample %d of tag %d lies on no edge of that tag" % (i, tag))
            for j in range(i):
                h.true("no-duplicates", h.any([S[i][0] != S[j][0], S[i][1] != S[j][1]]), "samples %d and %d of tag %d coincide" % (i, j, tag))
        if m == "uniform":
            want = []
            for a, b in es:
                for k in range(K):
                    t = h.frac(k, K - 1)
                    w = [P[a][0] + (P[b][0] - P[a][0]) * t, P[a][1] + (P[b][1] - P[a][1]) * t]
                    if not any(h.same(h.array(w), h.array(v)) for v in want):
                        want.append(w)
            h.eq("uniform-count", [N], [len(want)])
            for w in want:
                h.some("uniform-points", [h.all([S[i][0] <= w[0] + eps, w[0] <= S[i][0] + eps, S[i][1] <= w[1] + eps,
                                                 w[1] <= S[i][1] + eps]) for i in range(N)],
                       "an equally spaced point of tag %d is missing" % tag)
        else:
            # two samples of edges meeting in a vertex may coincide there, and are then listed once
            meet = sum(1 for i in range(len(es)) for j in range(i) if set(es[i]) & set(es[j]))
            h.true("lhs-count", K * len(es) - meet <= N <= K * len(es), "%d lhs samples for %d edges of tag %d" % (N, len(es), tag))

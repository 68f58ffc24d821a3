from .geo import *
from .meshes import geometry
from .c10 import limits
from lib import loader as ld

INFO = dict(
    bounds="1..2 cells per direction, arbitrary limits, every number N of boundary points in 4..11 (quick) / 4..19 (thorough), every latin hypercube draw in identity order plus, for N = 8..11, every order of the strata; also N = 276",
    assumptions=["pyDOE.lhs(1, n) returns one arbitrary value in each of the n equal strata of [0,1)",
                 "gmsh is an inert stand-in"],
    jobs=4, concrete=4)


def configs(tier):
    out = [dict(lo=4, hi=11 if tier == "quick" else 19, n=1, perm=0)]
    out.append(dict(lo=8, hi=9, n=2, perm=2))
    # more samples per side than any block the code might draw them in
    out.append(dict(lo=276, hi=276, n=1, perm=0))
    if tier != "quick":
        out.append(dict(lo=12, hi=13, n=1, perm=6, _opts=dict(max_paths=6000)))
    return out


def body(h, lo, hi, n, perm):
    ld.LHS_PERMUTE = 0
    x0, x1, y0, y1 = limits(h)
    N = h.int("N", lo, hi)
    dom = geometry(h, "internal", 4, 4, True)
    # an earlier mesh of the same object: other limits, another number of samples
    dom.generate_quad_mesh_internal([-7.0, 8.0], [-9.0, 6.0], n, n, 13)
    ld.LHS_PERMUTE = perm
    cells, bd = dom.generate_quad_mesh_internal([x0, x1], [y0, y1], n, n, N)
    ld.LHS_PERMUTE = 0
    k = int(N) // 4
    h.true("tags", sorted(int(t) for t in bd) == [1000, 1001, 1002, 1003], "tags are %s" % sorted(bd))
    sides = {1000: (1, y0, 0, x0, x1), 1001: (0, x1, 1, y0, y1), 1002: (1, y1, 0, x0, x1), 1003: (0, x0, 1, y0, y1)}
    for tag, (fix, val, run, a, b) in sides.items():
        P = bd[tag]
        h.eq("count", list(P.shape), [k, 2])
        h.eq("on-side-line", P[:, fix], [val] * k)
        sl = 1e-9
        for i in range(k):
            h.le("on-side-segment", a, P[i][run])
            h.le("on-side-segment", P[i][run], b)
        # of many strata the first, the last and those around likely block sizes
        for s in range(k) if k < 40 else [0, 1, 15, 16, 31, 32, 33, 49, 50, 63, 64, 65, k - 1]:
            l, u = a + (b - a) * h.frac(s, k), a + (b - a) * h.frac(s + 1, k)
            h.true("one-per-stratum", h.any([h.all([l <= P[i][run] + sl, P[i][run] <= u + sl]) for i in range(k)]),
                   "no sample in sub-interval %d of side %d" % (s, tag))

"""Dirichlet boundary data"""
from .fes import *

INFO = dict(
    bounds="boundary dictionaries of 1..4 tags with 0..3 arbitrary points each (2 or 3 coordinates), arbitrary boundary functions per tag (scalar or three-component, every component), float64 and float32 trainers; also 211 points of three tags and 80 points of 40 tags",
    assumptions=["boundary functions are arbitrary functions of the point (uninterpreted)",
                 "TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces"],
    jobs=6, concrete=6)


def configs(tier):
    out = [dict(tags=[1000, 1001, 1002, 1003], n=[2, 1, 2, 1], dim=2, dtype="float64", vec=None),
           dict(tags=[1003, 1000, 1002], n=[1, 3, 2], dim=2, dtype="float32", vec=None),
           dict(tags=[7], n=[3], dim=3, dtype="float64", vec=None),
           dict(tags=[5, 2], n=[0, 2], dim=3, dtype="float64", vec=None),
           dict(tags=[1000, 1001], n=[2, 2], dim=2, dtype="float64", vec=0),
           dict(tags=[1001, 1000, 3], n=[2, 1, 1], dim=2, dtype="float64", vec=1),
           dict(tags=[1001, 8], n=[1, 2], dim=3, dtype="float64", vec=2),
           dict(tags=[3, 1], n=[2, 2], dim=2, dtype="float64", vec="const"),
           dict(tags=[1000, 1001, 1002], n=[2, 2, 2], dim=2, dtype="float64", vec=None, corner=True),
           dict(tags=[1, 2], n=[2, 2], dim=2, dtype="float64", vec=1, corner=True),
           dict(tags=[3, 1], n=[2, 3], dim=2, dtype="float64", vec="const", corner=True),
           dict(tags=[3, 1, 2], n=[2, 2, 1], dim=2, dtype="float64", vec=None, onefn=True),
           dict(tags=[4, 2], n=[5, 4], dim=2, dtype="float64", vec=None),
           dict(tags=[4, 2], n=[4, 6], dim=2, dtype="float64", vec=1)]
    # sizes beyond any block the code might have
    out += [dict(tags=[4, 2, 9], n=[70, 130, 11], dim=2, dtype="float64", vec=None),
            dict(tags=[4, 2, 9], n=[70, 130, 11], dim=2, dtype="float64", vec=2),
            dict(tags=[4, 2, 9], n=[130, 11, 70], dim=3, dtype="float64", vec="const"),
            dict(tags=list(range(40, 0, -1)), n=[2] * 40, dim=2, dtype="float32", vec=None)]
    if tier != "quick":
        out += [dict(tags=list(range(6, 0, -1)), n=[4, 3, 0, 2, 5, 1], dim=2, dtype="float64", vec=None),
                dict(tags=list(range(6)), n=[4, 3, 0, 2, 5, 1], dim=3, dtype="float32", vec=None),
                dict(tags=[4, 9, 2, 1], n=[4, 3, 2, 1], dim=3, dtype="float64", vec=2)]
    return out


def body(h, tags, n, dim, dtype, vec, corner=False, onefn=False):
    pts = {t: h.reals("p%d" % t, (k, dim)) if k else h.array([]).reshape(0, dim) for t, k in zip(tags, n)}
    if corner:
        # the last point of each tag is the first of the next, and listed a second time by the last tag
        for t, s in zip(tags, tags[1:]):
            pts[t] = h.array([[v for v in p] for p in list(pts[t][:-1]) + [pts[s][0]]])
        t = tags[-1]
        pts[t] = h.array([[v for v in p] for p in list(pts[t]) + [pts[t][0]]])
    comp = vec if isinstance(vec, int) else None
    if vec == "const":
        cst = {t: h.real("c%d" % t) for t in tags}
        fs = {t: (lambda x, y, v=cst[t]: v) for t in tags}
    else:
        fs = {t: h.fn("g%d" % t, nout=None if comp is None else 3) for t in tags}
    if onefn:
        fs = {t: fs[tags[0]] for t in tags}
    # the function dictionary is listed in another order than the points
    bf = {t: fs[t] for t in sorted(tags)}
    S = space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", boundary=pts, bfun=bf,
              bcond={t: "dirichlet" for t in tags}, forcing=h.fn("f"))
    if comp is None:
        x, y = S.generate_dirichlet_boundary_data()
    else:
        x, y = S.generate_dirichlet_boundary_data_vector(comp)
    X = [pts[t][i] for t in tags for i in range(pts[t].shape[0])]
    val = lambda t, p: fs[t](p[0], p[1]) if comp is None else fs[t](p[0], p[1])[comp]
    Y = [val(t, pts[t][i]) for t in tags for i in range(pts[t].shape[0])]
    h.true("every-point-once", len(x) == len(X) and len(y) == len(Y), "%d points, %d values for %d boundary points" % (len(x), len(y), len(X)))
    h.eq("points", h.array([[p[0], p[1]] for p in x]), h.array([[p[0], p[1]] for p in X]))
    h.eq("values", h.array(list(y)).reshape(-1), h.array(Y).reshape(-1))
    if comp is None:
        import tensorflow as tf
        D = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.as_dtype(dtype))
        a, b = D.get_dirichlet_input()
        h.true("dtype", h.dtype_name(a) == dtype and h.dtype_name(b) == dtype, "%s, %s" % (h.dtype_name(a), h.dtype_name(b)))
        h.eq("trainer-points", h.npy(a), h.cast(h.array([[p[0], p[1]] for p in X]), dtype))
        h.eq("trainer-values", h.npy(b), h.cast(h.array([[v] for v in Y]), dtype))

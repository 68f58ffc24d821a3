"""sensor data"""
from .fes import *
import os
import types

INFO = dict(
    bounds="internal: mesh of 4..6 points with arbitrary coordinates, 2..5 requested points, arbitrary exact solution; file: 1..3 rows (quick) / 4 of arbitrary values with extra columns, 1..2 (3) requested points, every draw of the row numbers; float64 and float32 tensors",
    assumptions=["pyDOE.lhs(d, n) returns arbitrary values, one in each of n equal strata of [0,1) per dimension",
                 "np.random.randint returns arbitrary values of its range", "pandas.read_csv is replaced by a frame of symbols in symbolic runs (concrete runs read real files)",
                 "the exact solution is an arbitrary function of the point", "TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces"],
    jobs=8, concrete=3)


def configs(tier):
    out = [dict(kind="internal", k=4, n=3, dim=2, dtype="float64"), dict(kind="internal", k=5, n=2, dim=3, dtype="float64"),
           dict(kind="internal", k=4, n=5, dim=3, dtype="float32"),
           dict(kind="external", k=3, n=2, dim=3, dtype="float64"), dict(kind="external", k=1, n=2, dim=3, dtype="float64"),
           dict(kind="external", k=2, n=3, dim=4, dtype="float32"), dict(kind="external", k=3, n=1, dim=3, dtype="float64")]
    if tier != "quick":
        out += [dict(kind="internal", k=6, n=7, dim=3, dtype="float64"), dict(kind="external", k=4, n=3, dim=5, dtype="float64")]
    return out


def body(h, kind, k, n, dim, dtype):
    import tensorflow as tf
    u = h.fn("u")
    exact = 1e-12 if dtype == "float64" else 1e-5
    M = None
    if kind == "internal":
        P = h.reals("P", (k, dim), -3, 3)
        M = MeshStub(P)
    S = space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", forcing=h.fn("f"), mesh=M)
    D = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.as_dtype(dtype))
    if kind == "internal":
        raw = S.get_sensor_data(u, n)
        # what the space hands to the data handler
        keep, orig = [], S.get_sensor_data

        def sensors(*a, **kw):
            keep.append(orig(*a, **kw))
            return keep[-1]
        S.get_sensor_data = sensors
        pts, vals = D.get_sensor_data(u, n, "internal")
        if keep:
            h.eq("tensor-points", h.npy(pts), h.cast(h.array(keep[-1][0]), dtype), **({} if h.symbolic else dict(tol=exact)))
            h.eq("tensor-values", h.npy(vals).reshape(-1), h.cast(h.array(keep[-1][1]), dtype).reshape(-1), **({} if h.symbolic else dict(tol=5 * exact)))
    else:
        R = h.reals("R", (k, dim))
        fn = os.path.join(h.tmp(), "sensors.csv")
        cols = ["x", "y", "u", "aux", "more"][:dim]
        if h.symbolic:
            import pandas as pd

            def read_csv(path, *a, **kw):
                if str(path) != fn:
                    raise FileNotFoundError(path)
                return pd.DataFrame({c: np.array([R[i][j] for i in range(k)], dtype=object) for j, c in enumerate(cols)})
            h.patch("pandas", "read_csv", read_csv)
        else:
            with open(fn, "w") as fh:
                fh.write(",".join(cols) + "\n" + "".join(",".join(repr(float(v)) for v in r) + "\n" for r in R))
        raw = S.get_sensor_data_external(u, n, fn)
        pts, vals = D.get_sensor_data(u, n, "external", file_name=fn)
    for lab, p, v, dt in (("array", h.array(raw[0]), h.array(raw[1]), "float64"), ("tensor", h.npy(pts), h.npy(vals), dtype)):
        N = p.shape[0]
        if lab == "tensor":
            h.true("dtype", h.dtype_name(pts) == dtype and h.dtype_name(vals) == dtype, "%s %s" % (h.dtype_name(pts), h.dtype_name(vals)))
            h.true("tensor-shapes", tuple(p.shape) == (N, 2) and tuple(v.shape) == (N, 1), "%s, %s" % (tuple(p.shape), tuple(v.shape)))
        v = v.reshape(-1)
        h.true("one-value-per-point", v.shape[0] == N, "%d values for %d points" % (v.shape[0], N))
        f4 = dt == "float32"
        tol = {} if h.symbolic else dict(tol=1e-4 if f4 else 1e-11)
        if kind == "internal":
            h.true("some-points", 1 <= N, "no sensor points")
            for i in range(N):
                q = [[P[j][c] for j in range(k)] for c in (0, 1)]
                if f4 and h.symbolic:
                    continue
                for c in (0, 1):
                    h.true("in-the-bounding-box", h.any([w <= p[i][c] + 1e-6 for w in q[c]]), "a sensor point is outside the mesh")
                    h.true("in-the-bounding-box", h.any([p[i][c] <= w + 1e-6 for w in q[c]]), "a sensor point is outside the mesh")
                h.eq("value-at-its-own-point", [v[i]], [u(p[i][0], p[i][1])], **tol)
        else:
            h.true("as-many-as-requested", N == n, "%d points instead of %d" % (N, n))
            c = lambda x: h.cast(h.array([x]), dt)[0]
            if h.symbolic:
                near = lambda a, b: h.all([a <= b, b <= a])
            else:
                near = lambda a, b: abs(a - b) <= (1e-6 if f4 else 1e-12)
            for i in range(N):
                h.some("a-row-of-the-file", [h.all([near(p[i][0], c(R[j][0])), near(p[i][1], c(R[j][1])), near(v[i], c(R[j][2]))]) for j in range(k)],
                       "a sensor is no row of the file")

"""trainer tensors"""
from .fes import *

INFO = dict(
    bounds="spaces of 1..3 cells of arbitrary shape (affine and bilinear), orders 2..3, 9..16 points per cell, arbitrary forcing function, float64 and float32; 40 or 130 cells, 144 test functions x 144 points with cells of fixed shape under an arbitrary common translation; cells given as integers or stored column by column",
    assumptions=["TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces",
                 "the space's own accessors are the oracle (their content is the subject of C04-C09)"],
    jobs=6, concrete=3)


def configs(tier):
    out = [dict(n=1, kind="affine", o=2, q=3, dtype="float64"),
           dict(n=2, kind="affine", o=2, q=3, dtype="float64"),
           dict(n=3, kind="affine", o=2, q=3, dtype="float32"),
           dict(n=2, kind="bilinear", o=2, q=3, dtype="float64"),
           dict(n=2, kind="affine", o=3, q=3, dtype="float64"),
           dict(n=1, kind="affine", o=2, q=4, dtype="float32")]
    # more cells, test functions and points than any block the code might have
    out += [dict(n=40, kind="affine", o=2, q=3, dtype="float64", fixed=True), dict(n=2, kind="affine", o=12, q=12, dtype="float64", fixed=True),
            dict(n=130, kind="bilinear", o=2, q=3, dtype="float32", fixed=True)]
    out += [dict(n=2, kind=k, o=2, q=3, dtype=d, form="ints") for k, d in (("affine", "float64"), ("bilinear", "float32"))]
    out += [dict(n=3, kind="bilinear", o=2, q=3, dtype="float64", fixed=True, form="columns")]
    if tier != "quick":
        out += [dict(n=3, kind="bilinear", o=2, q=3, dtype="float64"), dict(n=2, kind="bilinear", o=3, q=4, dtype="float32"),
                dict(n=4, kind="affine", o=3, q=4, dtype="float64")]
    return out


def body(h, n, kind, o, q, dtype, fixed=False, form=None):
    import tensorflow as tf
    if form == "ints":
        X = [whole(kind, 1, i) for i in range(n)]
    elif fixed:
        X = many(h, n, kind)
    else:
        X = [bquad(h, "X%d" % i, kind) for i in range(n)]
    f = h.fn("f")
    S = space(h, cells_array(h, X, form), kind, fe_order=o, quad_order=q, forcing=f)
    D = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.as_dtype(dtype))
    nt, nq = o * o, q * q
    c = lambda a: h.cast(a, dtype)
    crel = 1e-11 if dtype == "float64" else 3e-7
    T = dict(val=D.shape_val_mat_list, gx=D.grad_x_mat_list, gy=D.grad_y_mat_list, f=D.forcing_function_list, x=D.x_pde_list)
    for k, t in T.items():
        h.true("dtype", h.dtype_name(t) == dtype, "%s is %s" % (k, h.dtype_name(t)))
    A = {k: h.npy(t) for k, t in T.items()}
    for k, want in dict(val=(n, nt, nq), gx=(n, nt, nq), gy=(n, nt, nq), f=(nt, n), x=(n * nq, 2)).items():
        h.true("shape", tuple(A[k].shape) == want, "%s has shape %s instead of %s" % (k, tuple(A[k].shape), want))
    for i in range(n):
        h.eq("value-matrix", A["val"][i], c(S.get_shape_function_val(i)), crel=crel)
        h.eq("x-gradient-matrix", A["gx"][i], c(S.get_shape_function_grad_x(i)), crel=crel)
        h.eq("y-gradient-matrix", A["gy"][i], c(S.get_shape_function_grad_y(i)), crel=crel)
        h.eq("forcing", A["f"][:, i], c(h.array(S.get_forcing_function_values(i)).reshape(-1)), crel=crel)
        h.eq("points", A["x"][i * nq:(i + 1) * nq], c(S.get_quadrature_actual_coordinates(i)), crel=crel)

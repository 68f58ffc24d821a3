"""precision of the data and of the training steps (TF_GRAPH)"""
from .nets import *
from .fes import space, bquad, cells_array, MeshStub
from .nets import Constraint

INFO = dict(
    bounds="training steps of the four models on networks with up to 2 hidden layers of up to 2 neurons, up to 2 cells x 2 test functions x 2 points; trainer tensors of spaces of 1..2 affine cells; float64 and float32, arbitrary weights, data, coefficients and beta; sensor tensors",
    assumptions=["a conversion to a lower precision is an arbitrary (uninterpreted) rounding function; arithmetic within one precision is exact",
                 "TF_GRAPH: tensor operations are interpreted from the graph TensorFlow traces"],
    jobs=8, concrete=3)


def configs(tier):
    out = []
    for dt in ("float64", "float32"):
        out += [dict(what="plain", dims=[2, 2, 1], nc=2, nq=1, nt=2, nb=2, dtype=dt, steps=2),
                dict(what="hard", dims=[2, 2, 1], nc=1, nq=2, nt=2, nb=1, dtype=dt, steps=1),
                dict(what="inverse", dims=[2, 2, 1], nc=1, nq=2, nt=1, nb=2, dtype=dt, steps=1),
                dict(what="domain", dims=[2, 2, 2], nc=1, nq=2, nt=1, nb=2, dtype=dt, steps=1),
                dict(what="data", dims=None, nc=2, nq=3, nt=2, nb=2, dtype=dt, steps=0)]
    if tier != "quick":
        for dt in ("float64", "float32"):
            out += [dict(what=k, dims=[2, 2, 2, 2 if k == "domain" else 1], nc=2, nq=2, nt=2, nb=2, dtype=dt, steps=2 if k == "plain" else 1)
                    for k in MODELS]
            out += [dict(what=k, dims=[2, 2, 2 if k == "domain" else 1], nc=2, nq=2, nt=1, nb=2, dtype=dt, steps=1, loss="repo")
                    for k in MODELS]
    return out


def body(h, what, dims, nc, nq, nt, nb, dtype, steps, loss="own"):
    if what == "data":
        return data(h, nc, nq, nt, nb, dtype)
    p = Problem(h, what, dims, nc, nq, nt, nb, act="tanh", dtype=dtype, bits=52 if dtype == "float64" else 20,
                hard=Constraint("distance") if what == "hard" else None, loss=loss)
    name = lambda d: d if isinstance(d, str) else d.name
    for v, _ in p.vars:
        h.true("variable-dtype", name(v.dtype) == dtype, "%s is %s" % (v.name, name(v.dtype)))
    res = p.step(steps, rounding={"f4", "f2"} if dtype == "float64" else {"f2"})
    D = p.info["dtypes"]
    keys = ["loss_pde", "loss"] + ([] if what == "hard" else ["loss_dirichlet"]) + (["sensor_loss"] if what in ("inverse", "domain") else [])
    for o in D if isinstance(D, list) else [D]:
        for k in keys:
            h.true("reported-dtype", o[k] is not None and name(o[k]) == dtype, "%s is %s" % (k, o[k]))
    for c in p.info["grad_dtypes"]:
        for x in c:
            h.true("gradient-dtype", x == dtype, "a gradient is %s" % x)
    rel = 1e-10 if dtype == "float64" else 5e-5
    for k, (outs, g) in enumerate(res):
        vals = p.versions(k)
        if not h.symbolic:
            # the numbers the model was given, at its precision
            p_ = lambda a: np.asarray(np.asarray(a, dtype=dtype), dtype=float)
            vals = [p_(v) for v in vals]
            if dtype == "float32":
                for n in ("X", "B", "D", "V", "GX", "GY", "F", "S", "SV"):
                    setattr(p, n, p_(getattr(p, n)))
        ref = p.reference(vals, k)
        for key in ref:
            got = flat1(h, outs[key])
            h.eq("value-" + key, [got], [ref[key]], **({} if h.symbolic else dict(tol=rel * (1 + abs(ref[key])))))
        G = p.gradients(ref["loss"], vals, k)
        big = 1 if h.symbolic else max([np.max(np.abs(x)) for x in G] + [abs(ref["loss"])])
        for gr, i in g:
            h.eq("gradient", gr, G[i], **({} if h.symbolic else dict(tol=rel * (1 + big))))


class Domain:
    def __init__(self, pts):
        self.pts = pts

    def get_test_points(self):
        return self.pts


def data(h, nc, nq, nt, nb, dtype):
    import tensorflow as tf
    X = [bquad(h, "X%d" % i, "affine") for i in range(nc)]
    bp = {1000: h.reals("p", (nb, 2)), 1001: h.reals("q", (1, 2))}
    g = h.fn("g")
    pts = h.reals("t", (3, 2))
    P = h.reals("mesh", (5, 2), -3, 3)
    S = space(h, cells_array(h, X), "affine", mesh=MeshStub(P), fe_order=nt, quad_order=nq, forcing=h.fn("f"), boundary=bp,
              bfun={1000: g, 1001: g}, bcond={1000: "dirichlet", 1001: "dirichlet"})
    D = h.module("data.datahandler2d").DataHandler2D(S, Domain(pts), dtype=tf.as_dtype(dtype))
    c = lambda a: h.cast(a, dtype)
    flat = lambda a: h.array(a).reshape(-1)
    par = {k: h.real(k) for k in ("eps", "b_x", "big")}
    B = D.get_bilinear_params_dict_as_tensors(lambda: dict(par))
    I = D.get_inverse_params(lambda: dict(par))
    a, b = D.get_dirichlet_input()
    t = D.get_test_points()
    keep, orig = [], S.get_sensor_data

    def sensors(*a, **kw):
        keep.append(orig(*a, **kw))
        return keep[-1]
    S.get_sensor_data = sensors
    sp, sv = D.get_sensor_data(h.fn("u"), 2, "internal")
    T = dict(val=D.shape_val_mat_list, gx=D.grad_x_mat_list, gy=D.grad_y_mat_list, f=D.forcing_function_list, x=D.x_pde_list,
             dirichlet_input=a, dirichlet_actual=b, test=t, sensor_points=sp, sensor_values=sv, **{"bil_" + k: v for k, v in B.items()}, **{"inv_" + k: v for k, v in I.items()})
    for k, v in T.items():
        h.true("dtype", h.dtype_name(v) == dtype, "%s is %s" % (k, h.dtype_name(v)))
    want = dict(dirichlet_input=h.array([[p[0], p[1]] for q in bp.values() for p in q]),
                dirichlet_actual=h.array([g(p[0], p[1]) for q in bp.values() for p in q]), test=pts)
    if keep:
        want.update(sensor_points=h.array(keep[-1][0]), sensor_values=h.array(keep[-1][1]))
    for k in par:
        want["bil_" + k] = want["inv_" + k] = h.array([par[k]])
    for n, m in dict(val="get_shape_function_val", gx="get_shape_function_grad_x", gy="get_shape_function_grad_y",
                     x="get_quadrature_actual_coordinates").items():
        want[n] = h.array([v for i in range(nc) for v in h.array(getattr(S, m)(i)).reshape(-1)])
    f = [h.array(S.get_forcing_function_values(i)).reshape(-1) for i in range(nc)]
    want["f"] = h.array([f[i][j] for j in range(nt * nt) for i in range(nc)])
    for k, w in want.items():
        h.eq("exact-" + k, h.npy(T[k]).reshape(-1), c(flat(w)),
             **({} if h.symbolic else dict(tol=(1e-14 if dtype == "float64" else 1e-6) * (1e-300 + float(np.max(np.abs(w)))))))

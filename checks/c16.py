"""forward PDE losses"""
INFO = dict(
    bounds="arbitrary real predictions, gradients, matrices, forcing and coefficients for tensors of up to 2 cells x 4 test functions x 4 points (quick) / 3 x 4 x 5; also 140 cells, 140 test functions or 130 points (with 130 points every eleventh input is arbitrary and the others are fixed numbers)",
    assumptions=["real arithmetic instead of floating point (TF_GRAPH: the graph TensorFlow traces from the loss function is interpreted op by op)",
                 "coefficients are scalars"],
    jobs=8, concrete=5)

SH = [(1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 3, 1), (3, 2, 2), (2, 4, 4)]
# sizes beyond any block the code might have
BIG = [(140, 2, 2), (2, 140, 2), (2, 2, 130)]


def configs(tier):
    sh = SH + BIG if tier == "quick" else SH + BIG + [(3, 4, 5), (4, 2, 3), (4, 4, 2), (5, 1, 1)]
    return [dict(kind=k, c=c, t=t, q=q) for c, t, q in sh for k in ("poisson", "helmholtz", "cd")]


def mixed(h, name, shape, every=11):
    """every eleventh entry arbitrary, fixed numbers between them"""
    n = 1
    for k in shape:
        n *= k
    a = [h.real("%s{%d}" % (name, i)) if i % every == len(name) % every else h.frac((7 * i + 3 * len(name)) % 19 - 9, 8) for i in range(n)]
    return h.array(a).reshape(shape)


def data(h, c, t, q):
    if q > 50:
        return dict(V=mixed(h, "V", (c, t, q)), GX=mixed(h, "GX", (c, t, q)), GY=mixed(h, "GYY", (c, t, q)),
                    u=mixed(h, "uuuu", (c, q)), ux=mixed(h, "uxxxx", (c, q)), uy=mixed(h, "uyyyyy", (c, q)), F=h.reals("F", (t, c)))
    return dict(V=h.reals("V", (c, t, q)), GX=h.reals("GX", (c, t, q)), GY=h.reals("GY", (c, t, q)),
                u=h.reals("u", (c, q)), ux=h.reals("ux", (c, q)), uy=h.reals("uy", (c, q)), F=h.reals("F", (t, c)))


def tensors(h, d):
    return dict(test_shape_val_mat=h.tensor(d["V"]), test_grad_x_mat=h.tensor(d["GX"]), test_grad_y_mat=h.tensor(d["GY"]),
                pred_nn=h.tensor(d["u"]), pred_grad_x_nn=h.tensor(d["ux"]), pred_grad_y_nn=h.tensor(d["uy"]),
                forcing_function=h.tensor(d["F"]))


def want(d, weak):
    """weak(cell, test, point) -> integrand; mean over tests of the squared residual"""
    c, t, q = d["V"].shape
    out = []
    for i in range(c):
        s = 0.0
        for j in range(t):
            r = -d["F"][j][i]
            for k in range(q):
                r = r + weak(i, j, k)
            s = s + r * r
        out.append(s / t)
    return out


def body(h, kind, c, t, q):
    d = data(h, c, t, q)
    V, GX, GY, u, ux, uy = (d[k] for k in ("V", "GX", "GY", "u", "ux", "uy"))
    eps = h.real("eps")
    T = tensors(h, d)
    if kind == "poisson":
        f = h.module("physics.poisson2d").pde_loss_poisson
        P = {"eps": eps}
        w = lambda i, j, k: eps * (GX[i][j][k] * ux[i][k] + GY[i][j][k] * uy[i][k])
    elif kind == "helmholtz":
        f = h.module("physics.helmholtz2d").pde_loss_helmholtz
        P = {"eps": eps, "k": h.real("k")}
        w = lambda i, j, k: -eps * (GX[i][j][k] * ux[i][k] + GY[i][j][k] * uy[i][k]) + P["k"] * P["k"] * V[i][j][k] * u[i][k]
    else:
        f = h.module("physics.cd2d").pde_loss_cd2d
        P = {"eps": eps, "b_x": h.real("bx"), "b_y": h.real("by"), "c": h.real("c")}
        w = lambda i, j, k: eps * (GX[i][j][k] * ux[i][k] + GY[i][j][k] * uy[i][k]) + \
            V[i][j][k] * (P["b_x"] * ux[i][k] + P["b_y"] * uy[i][k] + P["c"] * u[i][k])
    W = want(d, w)
    L = f(bilinear_params={k: h.tensor(v) for k, v in P.items()}, **T)
    h.eq("mean-squared-residual-per-cell", h.npy(L), h.array(W))

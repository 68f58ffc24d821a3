"""inverse PDE losses"""
from .c16 import data, tensors, want, SH, BIG, INFO as I16

INFO = dict(
    bounds=I16["bounds"] + "; each loss is called with the keyword arguments its inverse model uses",
    assumptions=I16["assumptions"],
    jobs=8, concrete=5)
# TF_GRAPH


def configs(tier):
    sh = SH + BIG if tier == "quick" else SH + BIG + [(3, 4, 5), (4, 2, 3), (4, 4, 2), (5, 1, 1)]
    return [dict(kind=k, c=c, t=t, q=q) for c, t, q in sh for k in ("poisson", "cd", "domain")]


def body(h, kind, c, t, q):
    d = data(h, c, t, q)
    V, GX, GY, u, ux, uy = (d[k] for k in ("V", "GX", "GY", "u", "ux", "uy"))
    T = tensors(h, d)
    dec = h.real("eps_decoy")        # the parameter dictionary may hold an unrelated value
    B = {"b_x": h.real("bx"), "b_y": h.real("by"), "c": h.real("c"), "eps": dec}
    cd = lambda i, j, k: V[i][j][k] * (B["b_x"] * ux[i][k] + B["b_y"] * uy[i][k] + B["c"] * u[i][k])
    dif = lambda i, j, k: GX[i][j][k] * ux[i][k] + GY[i][j][k] * uy[i][k]
    bp = {k: h.tensor(v) for k, v in B.items()}
    if kind == "domain":
        e = h.reals("e", (c, q))
        f = h.module("physics.cd2d_inverse_domain").pde_loss_cd2d_inverse_domain
        W = want(d, lambda i, j, k: e[i][k] * dif(i, j, k) + cd(i, j, k))
        L = f(bilinear_params=bp, inverse_params_list=[h.tensor(e)], **T)
    else:
        eps = h.real("eps")
        if kind == "poisson":
            f = h.module("physics.poisson2d_inverse").pde_loss_poisson_inverse
            W = want(d, lambda i, j, k: eps * dif(i, j, k))
        else:
            f = h.module("physics.cd2d_inverse").pde_loss_cd2d
            W = want(d, lambda i, j, k: eps * dif(i, j, k) + cd(i, j, k))
        L = f(bilinear_params=bp, inverse_params_dict={"eps": h.tensor(eps)}, **T)
    h.eq("mean-squared-residual-per-cell", h.npy(L), h.array(W))

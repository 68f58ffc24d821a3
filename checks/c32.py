"""the whole discretisation pipeline on exact solutions"""
from .fes import *

INFO = dict(
    bounds="listed fixed cells, and 1..2 cells of arbitrary shape with vertex coordinates in [-10,10], every linear (bilinear cells) or quadratic (affine cells) solution, every eps, b, c; orders 2..3, rules exact for the integrands; 40 cells, orders up to 9 and rules up to 11 with cells of fixed shape under an arbitrary translation",
    assumptions=["real arithmetic: residual coefficients below 1e-9 count as rounding of nodes, weights and basis values",
                 "TF_GRAPH: data handler and losses are interpreted from the graph TensorFlow traces",
                 "predictions are the exact solution at the trainer's own points"],
    jobs=8, concrete=3, config_s={"quick": 150, "thorough": 1500})


def configs(tier):
    out = [dict(eq=eq, kind=k, n=2, qr="gauss-legendre", q=3, ncells=2, fam="legendre", fixed=True) for eq in ("poisson", "cd", "helmholtz") for k in ("bilinear", "affine")]
    out += [dict(eq=eq, kind=k, n=2, qr="gauss-legendre", q=3, ncells=40, fam="legendre", fixed="many") for eq, k in (("poisson", "bilinear"), ("cd", "affine"), ("helmholtz", "affine"))]
    out += [dict(eq=eq, kind="affine", n=n, qr="gauss-legendre", q=q, ncells=1, fam="legendre", fixed="many") for eq, n, q in (("cd", 9, 7), ("helmholtz", 2, 11), ("poisson", 5, 9))]
    for eq in ("poisson", "cd", "helmholtz"):
        out += [dict(eq=eq, kind="affine", n=2, qr="gauss-legendre", q=3, ncells=2, fam="legendre"),
                dict(eq=eq, kind="bilinear", n=2, qr="gauss-legendre", q=3, ncells=2, fam="legendre")]
    out += [dict(eq="cd", kind="affine", n=2, qr="gauss-jacobi", q=4, ncells=1, fam="chebyshev_2"),
            dict(eq="cd", kind="bilinear", n=2, qr="gauss-jacobi", q=4, ncells=1, fam="jacobi"),
            dict(eq="poisson", kind="affine", n=3, qr="gauss-legendre", q=4, ncells=1, fam="legendre_special")]
    if tier != "quick":
        out += [dict(eq=eq, kind=k, n=3, qr="gauss-legendre", q=4, ncells=2, fam="legendre") for eq in ("poisson", "cd", "helmholtz") for k in ("affine", "bilinear")]
        out += [dict(eq="cd", kind=k, n=3, qr="gauss-jacobi", q=5, ncells=1, fam="chebyshev_2") for k in ("affine", "bilinear")]
    return out


# fixed cells: shapes for which a broken pipeline is decided quickly (the solution and the coefficients stay arbitrary)
SHAPES = {"bilinear": [[[[0, 0], [2, .5], [2.5, 2], [-.5, 1]], [[2, .5], [4, 0], [3.5, 3], [2.5, 2]]],
                       [[[-1, -2], [1, -1.5], [.5, 1], [-2, .5]], [[1, 1], [3, 1], [3, 4], [1, 2]]]],
          "affine": [[[[0, 0], [2, .5], [3, 2.5], [1, 2]], [[2, .5], [3, .5], [4, 2.5], [3, 2.5]]],
                     [[[1, -3], [2, -1], [0, 0], [-1, -2]], [[0, 0], [.5, 0], [.5, 3], [0, 3]]]]}
LOSS = {"poisson": ("physics.poisson2d", "pde_loss_poisson"), "cd": ("physics.cd2d", "pde_loss_cd2d"), "helmholtz": ("physics.helmholtz2d", "pde_loss_helmholtz")}


def body(h, eq, kind, n, qr, q, ncells, fam, fixed=False):
    import tensorflow as tf
    if fixed == "many":
        X = many(h, ncells, kind)
    elif fixed:
        X = [h.array(p) for p in h.choose("cells", SHAPES[kind])]
    else:
        X = [bquad(h, "X%d" % i, kind) for i in range(ncells)]
    a = [h.real("a%d" % i, -2, 2) for i in range(6 if kind == "affine" else 3)] + [0.0] * 3
    u = lambda x, y: a[0] + a[1] * x + a[2] * y + a[3] * x * x + a[4] * x * y + a[5] * y * y
    ux = lambda x, y: a[1] + 2 * a[3] * x + a[4] * y
    uy = lambda x, y: a[2] + a[4] * x + 2 * a[5] * y
    lap = 2 * a[3] + 2 * a[5]
    eps = h.real("eps", -2, 2)
    P = {"eps": eps}
    if eq == "cd":
        P.update(b_x=h.real("bx", -2, 2), b_y=h.real("by", -2, 2), c=h.real("c", -2, 2))
        f = lambda x, y: -eps * lap + P["b_x"] * ux(x, y) + P["b_y"] * uy(x, y) + P["c"] * u(x, y)
    elif eq == "helmholtz":
        P.update(k=h.real("k", -2, 2))
        f = lambda x, y: eps * lap + P["k"] * P["k"] * u(x, y)
    else:
        f = lambda x, y: -eps * lap + 0.0 * x
    S = space(h, cells_array(h, X), kind, fe_order=n, fe_type=fam, quad_order=q, quad_type=qr, forcing=f)
    D = h.module("data.datahandler2d").DataHandler2D(S, None, dtype=tf.float64)
    pts = h.npy(D.x_pde_list)
    rows = [[(pts[c * q * q + k][0], pts[c * q * q + k][1]) for k in range(q * q)] for c in range(ncells)]
    T = lambda g: h.tensor(h.array([[g(x, y) for x, y in r] for r in rows]))
    loss = getattr(h.module(LOSS[eq][0]), LOSS[eq][1])
    L = loss(test_shape_val_mat=D.shape_val_mat_list, test_grad_x_mat=D.grad_x_mat_list, test_grad_y_mat=D.grad_y_mat_list,
             pred_nn=T(u), pred_grad_x_nn=T(ux), pred_grad_y_nn=T(uy), forcing_function=D.forcing_function_list,
             bilinear_params={k: h.tensor(v) for k, v in P.items()})
    h.eq("zero-residual", h.npy(L), h.array([0.0] * ncells), atol=1e-9)

"""per-cell accessors"""
from .fes import *

INFO = dict(
    bounds="spaces of 1..3 cells of arbitrary shape (affine and bilinear), orders 2..3; every integer cell index (unbounded); every accessor, modified results, repetitions in two orders; also 12 and 40 cells of fixed shape under an arbitrary translation, order 9",
    assumptions=["real arithmetic instead of floating point", "the forcing function is an arbitrary function of the point"],
    jobs=8, concrete=6)

ACC = ["get_shape_function_val", "get_shape_function_grad_x", "get_shape_function_grad_x_ref", "get_shape_function_grad_y",
       "get_shape_function_grad_y_ref", "get_quadrature_actual_coordinates", "get_quadrature_weights", "get_forcing_function_values"]


def configs(tier):
    out = [dict(what="index", n=n, kind=k, o=2, rev=False) for n, k in ((1, "affine"), (2, "affine"), (3, "bilinear"))]
    out += [dict(what="copy", n=n, kind=k, o=2, rev=r) for n, k, r in ((1, "affine", False), (2, "affine", True), (2, "bilinear", False))]
    out.append(dict(what="copy", n=2, kind="affine", o=3, rev=False))
    out += [dict(what=w, n=n, kind=k, o=2, rev=False, fixed=True) for w, n, k in (("index", 12, "bilinear"), ("copy", 40, "affine"))]
    out.append(dict(what="copy", n=2, kind="affine", o=9, rev=True, fixed=True))
    if tier != "quick":
        out += [dict(what="index", n=6, kind="affine", o=3, rev=True), dict(what="copy", n=3, kind="bilinear", o=2, rev=True)]
    return out


def body(h, what, n, kind, o, rev, fixed=False):
    X = many(h, n, kind) if fixed else [bquad(h, "X%d" % i, kind) for i in range(n)]
    f = h.fn("f", nout=2)
    g = h.fn("g")
    single = [space(h, cells_array(h, [x]), kind, fe_order=o, forcing=g) for x in X]
    vector = [space(h, cells_array(h, [x]), kind, fe_order=o, forcing=f) for x in X]
    S = space(h, cells_array(h, X), kind, fe_order=o, forcing=g)
    V = space(h, cells_array(h, X), kind, fe_order=o, forcing=f)
    calls = [(lambda T, i, a=a: getattr(T, a)(i), S, single) for a in ACC]
    calls += [(lambda T, i, c=c: T.get_forcing_function_values_vector(i, c), V, vector) for c in (0, 1)]
    if what == "index":
        i = h.int("cell", None, None, -3, n + 2)
        bad = h.branch(h.any([i < 0, i >= n]))
        for call, T, one in calls:
            if bad:
                h.raises("rejects-bad-index", ValueError, lambda: call(T, i))
            else:
                a = h.raises("accepts-good-index", None, lambda: call(T, i))
                h.eq("that-cell's-data", a, call(one[int(i)], 0))
        return
    # modify whatever is handed out, repeat everything
    want = [[call(one[c], 0) for c in range(n)] for call, _, one in calls]
    junk = h.real("junk", 5, 9)
    idx = list(range(len(calls)))
    for rounds in range(2):
        for m in idx[::-1] if rev else idx:
            call, T, _ = calls[m]
            for c in range(n):
                r = call(T, c)
                h.eq("same-again", r, want[m][c])
                try:
                    r[...] = r * 0 + junk
                except ValueError:
                    pass            # a read-only result cannot be modified
                h.eq("private-copy", call(T, c), want[m][c])

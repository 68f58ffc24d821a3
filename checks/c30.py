"""configuration validation"""
from .fes import *
from .meshes import mesh_file, geometry

INFO = dict(
    bounds="every integer test-function and quadrature order (unbounded), every string as family, quadrature, transformation, cell, mesh type, mesh generation and sampling name; listed file names and non-dtype objects",
    assumptions=["the library routines computing quadrature nodes are not executed for arbitrary orders: reaching them counts as acceptance",
                 "names are compared as whole strings"],
    jobs=8, concrete=12)

FAM = ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"]
QUAD = ["gauss-legendre", "gauss-jacobi"]
TRA = ["affine", "bilinear"]
ODD = ["", "Legendre", "gauss", "triangle", "quadrilateral", "affine", "legendre", "internal", "external", "uniform", "lhs", "bilinear ", " gauss-jacobi", "GAUSS-JACOBI", "gauss_legendre", "Uniform", "External"]
KINDS = ("plain", "hard", "inverse", "domain")


def configs(tier):
    out = [dict(what="fe-order", arg=f) for f in FAM] + [dict(what="quad-order", arg=q) for q in QUAD]
    out += [dict(what="small-orders", arg=q) for q in QUAD]
    out += [dict(what=w, arg=None) for w in ("names", "setup-names", "mesh-type", "sampling", "suffix", "data-dtype")]
    out += [dict(what="model-dtype", arg=k) for k in KINDS]
    return out


class Reached(Exception):
    """a library routine was asked for the nodes of an arbitrary order"""


class Trap:
    """the node routines, for orders that are symbolic or large"""

    def __init__(self, h):
        import scipy.special as sp
        from numpy.polynomial import legendre as L
        q = h.module("FE.quadratureformulas_quad2d")
        self.at = [(L, "leggauss"), (sp, "roots_jacobi"), (sp, "roots_legendre")]
        self.at += [(q, n) for n in ("leggauss", "roots_jacobi", "roots_legendre") if hasattr(q, n)]

    def __enter__(self):
        self.old = [(o, n, getattr(o, n)) for o, n in self.at]

        def wrap(f):
            def g(n, *a, **k):
                if not isinstance(n, (int, np.integer)) or n > 60:
                    raise Reached()
                return f(n, *a, **k)
            return g
        for o, n, f in self.old:
            setattr(o, n, wrap(f))

    def __exit__(self, *a):
        for o, n, f in self.old:
            setattr(o, n, f)


def outcome(thunk):
    try:
        thunk()
    except ValueError:
        return "ValueError"
    except Reached:
        pass
    return "accepted"


def expect(h, label, ok, thunk):
    """ValueError exactly when not ok"""
    want = "accepted" if h.branch(ok) else "ValueError"
    got = outcome(thunk)
    h.true(label, got == want, "%s, expected %s" % (got, want))


class Opaque:
    pass


def body(h, what, arg):
    if what in ("fe-order", "quad-order", "setup-names"):
        M = h.module("FE.fe2d_setup_main").FE2DSetupMain
    if what == "fe-order":
        o = h.int("order", None, None, -5, 1005)
        expect(h, "fe-order", h.all([o >= 2, o <= 999]),
               lambda: M("quadrilateral", o, arg, 3, "gauss-legendre").assign_basis_function())
    elif what == "quad-order":
        q = h.int("order", None, None, -5, 10050)
        with Trap(h):
            expect(h, "quadrature-order", h.all([q >= 3, q <= 9999]),
                   lambda: M("quadrilateral", 2, "legendre", q, arg).assign_quadrature_rules())
    elif what == "small-orders":
        o, q = h.int("fe_order", -1, 4), h.int("quad_order", -1, 5)
        ok = h.branch(h.all([o >= 2, q >= 3]))
        o, q = (next(v for v in range(a, b) if v == b - 1 or h.branch(x == v)) for x, a, b in ((o, -1, 5), (q, -1, 6)))
        expect(h, "whole-space", ok,
               lambda: space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", fe_order=o, quad_order=q, quad_type=arg, forcing=h.fn("f")))
    elif what == "names":
        F = h.module("FE.fespace2d").Fespace2D
        fam, quad, tra, cell = (h.string(n, k, ODD) for n, k in (("family", FAM), ("quadrature", QUAD), ("transformation", TRA), ("cell", ["quadrilateral"])))
        ok = [any([s == k for k in ks]) for s, ks in ((fam, FAM), (quad, QUAD), (tra, TRA), (cell, ["quadrilateral"]))]
        expect(h, "names", h.all(ok),
               lambda: F(mesh=None, cells=h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), boundary_points={}, cell_type=cell, fe_order=2, fe_type=fam,
                         quad_order=3, quad_type=quad, fe_transformation_type=tra, bound_function_dict={}, bound_condition_dict={},
                         forcing_function=h.fn("f"), output_path=h.tmp() or "."))
    elif what == "setup-names":
        fam, quad, tra, cell = (h.string(n, k, ODD) for n, k in (("family", FAM), ("quadrature", QUAD), ("transformation", TRA), ("cell", ["quadrilateral"])))
        is_cell = cell == "quadrilateral"
        okf, okq, okt = (any([s == k for k in ks]) for s, ks in ((fam, FAM), (quad, QUAD), (tra, TRA)))
        if is_cell:
            expect(h, "setup-family", okf, lambda: M(cell, 2, fam, 3, "gauss-legendre").assign_basis_function())
        expect(h, "setup-quadrature", h.all([is_cell, okq]), lambda: M(cell, 2, "legendre", 3, quad).assign_quadrature_rules())
        X = h.array([[0, 0], [1, 0], [1, 1], [0, 1]])
        expect(h, "setup-transformation", h.all([is_cell, okt]), lambda: M(cell, 2, "legendre", 3, "gauss-legendre").assign_fe_transformation(tra, X))
    elif what == "mesh-type":
        G = h.module("Geometry.geometry_2d").Geometry_2D
        mt, mg = h.string("mesh_type", ["quadrilateral"], ODD), h.string("method", ["internal", "external"], ODD)
        expect(h, "mesh-names", h.all([mt == "quadrilateral", mg == "internal" or mg == "external"]), lambda: G(mt, mg, 3, 3, h.tmp() or "."))
    elif what == "sampling":
        m = h.string("sampling", ["uniform", "lhs"], ODD)
        f = mesh_file(h, [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], [[0, 1, 2, 3]], [(0, 1)], [1000])
        expect(h, "sampling", m == "uniform" or m == "lhs", lambda: geometry(h, "external").read_mesh(f, 0, m, 0))
    elif what == "suffix":
        n = h.choose("file", ["m.mesh", "m.msh", "m.mesh.vtk", "mesh", "m.Mesh", "m.mesh2", "m.", "a.b.mesh", "m.xmesh"])
        f = mesh_file(h, [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], [[0, 1, 2, 3]], [(0, 1)], [1000], name=n)
        got = outcome(lambda: geometry(h, "external").read_mesh(f, 0, "uniform", 0))
        h.true("suffix", got == ("accepted" if n.endswith(".mesh") else "ValueError"), "%s: %s" % (n, got))
    else:
        import tensorflow as tf
        dts = [tf.float64, tf.float32, "float32", np.float32, float, None, 32, Opaque(), "tf.float32", [tf.float32]]
        k = h.choose("dtype", list(range(len(dts))))
        dt = dts[k]
        if what == "data-dtype":
            S = space(h, h.array([[[0, 0], [1, 0], [1, 1], [0, 1]]]), "affine", forcing=h.fn("f"))
            D = h.module("data.datahandler2d").DataHandler2D
            make = lambda: D(S, None, dtype=dt)
        else:
            from . import nets
            import importlib
            mod, cls = nets.MODELS[arg]
            M = getattr(importlib.import_module("fastvpinns." + mod), cls)
            T = lambda *s: tf.zeros(s, dtype=dt if k < 2 else tf.float32)
            kw = dict(layer_dims=[2, 2, 2 if arg == "domain" else 1], learning_rate_dict=dict(nets.LR), params_dict={"n_cells": 1},
                      loss_function=nets.loss_fn(arg), input_tensors_list=[T(1, 2), T(1, 2), T(1, 1)],
                      orig_factor_matrices=[T(1, 1, 1)] * 3, force_function_list=T(1, 1), tensor_dtype=dt, use_attention=False)
            if arg in ("inverse", "domain"):
                kw["sensor_list"] = [T(1, 2), T(1, 1)]
            if arg == "inverse":
                kw["inverse_params_dict"] = {"eps": tf.constant(1.0, dtype=dt if k < 2 else tf.float32)}

            def make():
                with nets.quiet():
                    M(**kw)
        h.raises("dtype", None if k < 2 else TypeError, make)

"""one training step of each of the four models, and the reference it is compared with"""
from contextlib import contextmanager
import numpy as np

MODELS = {"plain": ("model.model", "DenseModel"), "hard": ("model.model_hard", "DenseModel_Hard"),
          "inverse": ("model.model_inverse", "DenseModel_Inverse"),
          "domain": ("model.model_inverse_domain", "DenseModel_Inverse_Domain")}

LR = dict(initial_learning_rate=0.001, use_lr_scheduler=False, decay_steps=1000, decay_rate=0.9, staircase=True)


def loss_fn(kind, linear=False):
    """a weak-form loss in the documented calling convention (the repository's own are C16/C17's subject)"""
    import tensorflow as tf

    def loss(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn,
             forcing_function, bilinear_params, inverse_params_dict=None, inverse_params_list=None):
        def term(M, v):
            return tf.einsum("ctq,cq->tc", M, v)
        P = bilinear_params
        e = inverse_params_list[0] if kind == "domain" else inverse_params_dict["eps"] if kind == "inverse" else P["eps"]
        r = term(test_grad_x_mat, pred_grad_x_nn * e) + term(test_grad_y_mat, pred_grad_y_nn * e)
        r = r + P["b_x"] * term(test_shape_val_mat, pred_grad_x_nn) + P["b_y"] * term(test_shape_val_mat, pred_grad_y_nn)
        r = r + P["c"] * term(test_shape_val_mat, pred_nn)
        if kind == "inverse" and "mu" in inverse_params_dict:
            r = r + inverse_params_dict["mu"] * term(test_shape_val_mat, pred_nn * pred_grad_y_nn)
        r = r - forcing_function
        return tf.reduce_mean(r if linear else tf.square(r), axis=0)
    return loss


def repo_loss(kind):
    """the repository's convection-diffusion loss for this kind of model"""
    import importlib
    mod, name = {"plain": ("cd2d", "pde_loss_cd2d"), "hard": ("cd2d", "pde_loss_cd2d"),
                 "inverse": ("cd2d_inverse", "pde_loss_cd2d"),
                 "domain": ("cd2d_inverse_domain", "pde_loss_cd2d_inverse_domain")}[kind]
    return getattr(importlib.import_module("fastvpinns.physics." + mod), name)


@contextmanager
def quiet():
    from lib.harness import Quiet
    with Quiet():
        yield


class Problem:
    """data, weights and a model of the real package holding them"""

    def __init__(self, h, kind, dims, nc, nq, nt, nb, ns=2, act="tanh", dtype="float64", bits=20, hard=None, loss="own", lr=None, dup=False):
        self.h, self.kind, self.dims, self.act, self.dtype = h, kind, dims, act, dtype
        self.nc, self.nq, self.nt = nc, nq, nt
        R = lambda n, s: h.reals(n, s, -1.0, 1.0)
        self.X = R("X", (nc * nq, 2))
        self.B = R("B", (nb, 2))
        self.D = R("D", (nb, 1))
        self.V, self.GX, self.GY = (R(n, (nc, nt, nq)) for n in ("V", "GX", "GY"))
        self.F = R("F", (nt, nc))
        self.W = [(R("W%d" % i, (dims[i], dims[i + 1])), R("b%d" % i, (dims[i + 1],))) for i in range(len(dims) - 1)]
        self.S = R("S", (ns, 2))
        self.SV = R("SV", (ns, 1))
        if dup:
            # corners, points on common edges and sensors listed twice (with data of their own)
            again = lambda P: h.array([[v for v in p] for p in list(P[:-1]) + [P[0]]])
            self.X, self.B, self.S = again(self.X), again(self.B), again(self.S)
        self.betas, self.pars = [], []
        self.inputs(0)
        self.inv = {"eps": h.real("inv_eps", -1.0, 2.0)}
        if loss != "repo":
            self.inv["mu"] = h.real("inv_mu", -2.0, 1.0)
        # linear: a weak form without the squares, which keeps many points within reach
        self.linear = loss == "linear"
        self.loss = repo_loss(kind) if loss == "repo" else loss_fn(kind, self.linear)
        self.hardfn = hard
        self.lr = LR if lr is None else lr
        self.bits = bits
        self.extra = None
        self.build()

    def inputs(self, k):
        """penalty and coefficients handed to step k"""
        while len(self.betas) <= k:
            n = "" if not self.betas else "-step%d" % len(self.betas)
            self.betas.append(self.h.real("beta" + n, 0.5, 3.0))
            self.pars.append({c: self.h.real(c + n) for c in ("eps", "b_x", "b_y", "c")})
        return self.betas[k], self.pars[k]

    def build(self):
        import tensorflow as tf
        import importlib
        h = self.h
        if h.symbolic:
            from lib import tfstep
            self.values = tfstep.Values(7, self.bits)
            num = self.values.take
        else:
            num = lambda a: np.asarray(a, dtype=np.float64)
        self.num = num
        dt = tf.as_dtype(self.dtype)
        T = lambda a: tf.constant(num(a), dtype=dt)
        tf.keras.backend.clear_session()
        mod, cls = MODELS[self.kind]
        if h.symbolic:
            path, _ = h.loader.path_of("fastvpinns." + mod)
            from lib.loader import _code
            h.loader.files[path] = _code(path)[1]
        M = getattr(importlib.import_module("fastvpinns." + mod), cls)
        kw = dict(layer_dims=list(self.dims), learning_rate_dict=dict(self.lr), params_dict={"n_cells": self.nc},
                  loss_function=self.loss, input_tensors_list=[T(self.X), T(self.B), T(self.D)],
                  orig_factor_matrices=[T(self.V), T(self.GX), T(self.GY)], force_function_list=T(self.F),
                  tensor_dtype=dt, use_attention=False, activation=self.act, hessian=False)
        if self.kind == "hard" and self.hardfn is not None:
            kw["hard_constraint_function"] = self.hardfn.tf
        if self.kind in ("inverse", "domain"):
            kw["sensor_list"] = [T(self.S), T(self.SV)]
        if self.kind == "inverse":
            self.inv_num = {k: float(num(v)) for k, v in self.inv.items()}
            kw["inverse_params_dict"] = {k: tf.constant(v, dtype=dt) for k, v in self.inv_num.items()}
        self.cls, self.kw = M, kw
        with quiet():
            self.model = M(**kw)
        self.vars = self.adopt(self.model)
        self.restore_weights()

    def adopt(self, m):
        """the model's variables, paired with their symbols: [(variable, symbols)]"""
        import tensorflow as tf
        h = self.h
        # the weights and biases of the network, wherever in the object the layers are kept
        inverse = [id(v) for v in getattr(m, "inverse_params_dict", {}).values()] if self.kind == "inverse" else []
        wb = [v for v in m.trainable_variables if id(v) not in inverse]
        h.true("layers", [tuple(v.shape) for v in wb] ==
               [s for i in range(len(self.dims) - 1) for s in ((self.dims[i], self.dims[i + 1]), (self.dims[i + 1],))],
               "weights %s for dimensions %s" % ([tuple(v.shape) for v in wb], self.dims))
        out = []
        for i, (k, b) in enumerate(self.W):
            out += [(wb[2 * i], k), (wb[2 * i + 1], b)]
        if self.kind == "inverse":
            for k, v in self.inv.items():
                var = m.inverse_params_dict[k]
                h.true("coefficient-is-a-variable", isinstance(var, tf.Variable) and var.trainable,
                       "the coefficient %s is not a trainable variable" % k)
                h.true("coefficient-starts-at-the-given-value",
                       abs(float(var.numpy()) - self.inv_num[k]) <= 1e-6 * max(1.0, abs(self.inv_num[k])), "%s starts at %r" % (k, var.numpy()))
                out.append((var, v))
        return out

    def restore_weights(self):
        for v, s in self.vars[:2 * len(self.W)]:
            v.assign(self.num(s))

    # ------------------------------------------------------------ the real step
    def versions(self, k):
        """values of the variables after k updates"""
        return [v[k] for v in self._versions]

    def step(self, steps=1, rounding=False):
        """for each of `steps` consecutive steps: (reported values, [(gradient, index into self.vars)])"""
        import tensorflow as tf
        h, m = self.h, self.model
        # updates made before this step
        t0 = h.int("iterations", 0, None, 0, 3000)
        if h.symbolic:
            from lib import tfstep, tfinterp
            from lib import symnumpy as sn
            from lib.symcore import Sym
            spec = tf.TensorSpec((), tf.as_dtype(self.dtype))
            fn0 = tfstep.raw(m, "train_step")
            tfinterp.note_function(fn0)
            tfinterp.note_function(tfstep.raw(m, "call"))

            given = [self.inputs(k) for k in range(steps)]
            keys = list(given[0][1])
            flat = [v for b, par in given for v in [b] + [par[c] for c in keys]]

            def fn(rec, *args):
                m.optimizer.apply_gradients = rec
                out, n = [], 1 + len(keys)
                for k in range(steps):
                    b, par = args[n * k], args[n * k + 1:n * (k + 1)]
                    out.append(tfstep.plain(fn0(m, beta=b, bilinear_params_dict=dict(zip(keys, par)))))
                return out
            self._versions = []
            for i, (v, s) in enumerate(self.vars):
                s = sn.sarr(s)
                self._versions.append([s] + [sn._fill([Sym.var("upd%d_%d_%d" % (k, i, j)) for j in range(s.size)], s.shape)
                                             for k in range(steps)])
            with quiet():
                outs, rec, self.info = tfstep.trace(self.values, [(v, w) for (v, _), w in zip(self.vars, self._versions)] +
                                                    [(m.optimizer.iterations, [h.array([t0 + k]).reshape(()) for k in range(steps + 1)])],
                                                    fn, [(spec, v) for v in flat], rounding=rounding, state=self.state)
            for old, new in self.info["written"]:
                h.eq("weights-change-only-by-the-update", new, old)
        else:
            from lib import tfstep
            from lib.tfstep import plain
            rec, outs = [], []

            if self.extra is None:
                spec = tf.TensorSpec((), tf.as_dtype(self.dtype))
                keys = list(self.inputs(0)[1])

                def once(*args):
                    m.optimizer.apply_gradients = lambda *a, **k: None
                    tfstep.raw(m, "train_step")(m, beta=args[0], bilinear_params_dict=dict(zip(keys, args[1:])))
                with quiet():
                    self.extra = tfstep.extra_variables(once, [spec] * (1 + len(keys)), [v for v, _ in self.vars] + [m.optimizer.iterations])
            m.optimizer.iterations.assign(t0)
            before = np.concatenate([np.ravel(v.numpy()) for v, _ in self.vars])
            for i, v in enumerate(self.extra):
                v.assign(self.state(i, v))

            def recorder(gv, *a, **k):
                gv = list(gv)
                rec.append([(None if g is None else tf.convert_to_tensor(g).numpy(), v) for g, v in gv])
                for g, v in gv:
                    v.assign(v + 0.25)
                m.optimizer.iterations.assign_add(1)
            self._versions = [[np.asarray(s, dtype=float) + 0.25 * k for k in range(steps + 1)] for _, s in self.vars]
            m.optimizer.apply_gradients = recorder
            tf.config.run_functions_eagerly(True)
            try:
                with quiet():
                    for k in range(steps):
                        beta, par = self.inputs(k)
                        o = plain(m.train_step(beta=tf.constant(beta, dtype=self.dtype),
                                               bilinear_params_dict={c: tf.constant(v, dtype=self.dtype) for c, v in par.items()}))
                        outs.append(tf.nest.map_structure(lambda x: x.numpy() if hasattr(x, "numpy") else x, o))
                        self.info = dict(dtypes=tf.nest.map_structure(lambda x: getattr(x, "dtype", None), o))
            finally:
                tf.config.run_functions_eagerly(False)
            # the recorder moved every weight by 0.25 per update; nothing else may change one
            h.eq("weights-change-only-by-the-update", np.concatenate([np.ravel(v.numpy()) for v, _ in self.vars]),
                 before + 0.25 * len(rec), tol=1e-5 * (1 + np.max(np.abs(before))))
            self.info["grad_dtypes"] = [[None if g is None else g.dtype.name for g, _ in c] for c in rec]
        h.true("one-optimizer-update-per-step", len(rec) == steps, "%d optimizer updates in %d steps" % (len(rec), steps))
        res = []
        for o, r in zip(outs, rec):
            g = []
            for gr, v in r:
                idx = [i for i, (w, _) in enumerate(self.vars) if w is v]
                h.true("updates-a-known-weight", len(idx) == 1, "an unknown variable is updated")
                g.append((gr, idx[0]))
            h.true("every-weight-updated-once", sorted(i for _, i in g) == list(range(len(self.vars))),
                   "weights updated: %s of %d" % (sorted(i for _, i in g), len(self.vars)))
            h.true("every-weight-has-a-gradient", all(gr is not None for gr, _ in g), "a weight gets no gradient")
            res.append((o, g))
        return res

    def state(self, i, var):
        """arbitrary value of a further variable the step writes to (a counter, a cache)"""
        h, n = self.h, int(np.prod(var.shape))
        if var.dtype.is_floating:
            return h.reals("state%d" % i, tuple(var.shape), 0.0, 3.0)
        if var.dtype.is_integer:
            return h.array([h.int("state%d[%d]" % (i, k), 0, None, 0, 300) for k in range(n)]).reshape(tuple(var.shape))
        return var.numpy()

    def restore(self):
        for v, s in self.vars:
            v.assign(self.num(s))

    # ------------------------------------------------------------ reference
    def phi(self, z):
        """activation and derivative"""
        a = self.act
        if a == "tanh":
            t = self.tanh(z)
            return t, 1 - t * t
        if a == "sigmoid":
            s = self.sigmoid(z)
            return s, s * (1 - s)
        if a == "linear":
            return z, 1
        if a == "relu":
            return self.h.max([z, 0.0]), None       # values only
        raise AssertionError(a)

    def tanh(self, z):
        if self.h.symbolic:
            from lib import symcore as sc
            return sc.sym_fun("tanh", z)
        return np.tanh(z)

    def sigmoid(self, z):
        if self.h.symbolic:
            from lib import symcore as sc
            return sc.sym_fun("sigmoid", z)
        return 0.5 + 0.5 * np.tanh(0.5 * z)

    def net(self, W, x, y):
        """outputs and their x and y derivatives at one point (forward mode)"""
        v, dx, dy = [x, y], [1, 0], [0, 1]
        for li, (K, b) in enumerate(W):
            n0, n1 = K.shape
            z = [b[j] + sum(v[i] * K[i][j] for i in range(n0)) for j in range(n1)]
            zx = [sum(dx[i] * K[i][j] for i in range(n0)) for j in range(n1)]
            zy = [sum(dy[i] * K[i][j] for i in range(n0)) for j in range(n1)]
            if li < len(W) - 1:
                p = [self.phi(t) for t in z]
                v = [a for a, _ in p]
                dx = [0 if d is None else d * t for (_, d), t in zip(p, zx)]
                dy = [0 if d is None else d * t for (_, d), t in zip(p, zy)]
            else:
                v, dx, dy = z, zx, zy
        if self.kind == "hard" and self.hardfn is not None:
            v, dx, dy = zip(*[self.hardfn.ref(self, x, y, a, b, c) for a, b, c in zip(v, dx, dy)])
        return v, dx, dy

    def split(self, values):
        """(layer weights, coefficients) from a list of variable values"""
        n = len(self.W)
        W = [(values[2 * i], values[2 * i + 1]) for i in range(n)]
        return W, {k: (v.reshape(-1)[0] if isinstance(v, np.ndarray) else v) for k, v in zip(self.inv, values[2 * n:])}

    def reference(self, values=None, k=0):
        """loss parts of step k as functions of the weights"""
        beta, par = self.inputs(k)
        W, inv = self.split([s for _, s in self.vars] if values is None else values)
        kind = self.kind
        P = [self.net(W, self.X[i][0], self.X[i][1]) for i in range(self.nc * self.nq)]
        pde = 0
        for c in range(self.nc):
            for t in range(self.nt):
                r = -self.F[t][c]
                for q in range(self.nq):
                    v, dx, dy = P[c * self.nq + q]
                    e = v[1] if kind == "domain" else inv["eps"] if kind == "inverse" else par["eps"]
                    V = self.V[c][t][q]
                    r = r + e * (self.GX[c][t][q] * dx[0] + self.GY[c][t][q] * dy[0]) + par["c"] * V * v[0]
                    r = r + par["b_x"] * V * dx[0] + par["b_y"] * V * dy[0]
                    if kind == "inverse" and "mu" in inv:
                        r = r + inv["mu"] * V * v[0] * dy[0]
                pde = pde + (r if self.linear else r * r) / self.nt

        def mse(pts, vals):
            s = 0
            for i in range(len(pts)):
                d = self.net(W, pts[i][0], pts[i][1])[0][0] - vals[i][0]
                s = s + d * d
            return s / len(pts)
        out = {"loss_pde": pde}
        if kind == "hard":
            out["loss"] = pde
            return out
        out["loss_dirichlet"] = mse(self.B, self.D)
        out["loss"] = pde + beta * out["loss_dirichlet"]
        if kind in ("inverse", "domain"):
            out["sensor_loss"] = mse(self.S, self.SV)
            out["loss"] = out["loss"] + 10 * out["sensor_loss"]
        return out

    def gradients(self, total, values, k=0):
        """d total / d variable for every variable, shaped like it; total: expression (symbolic runs); k: the step"""
        if self.h.symbolic:
            from lib import symcore as sc
            from lib import symnumpy as sn
            out = []
            for s in values:
                s = sn.sarr(s)
                out.append(sn._fill([sc.diff(sc.as_sym(total), w, {}) for w in s.view(np.ndarray).reshape(-1)], s.shape))
            return out
        out = []
        for i, s in enumerate(values):
            g = np.zeros(np.shape(s))
            for j in np.ndindex(*np.shape(s)):
                v = [np.array(x, dtype=complex) for x in values]
                v[i][j] += 1e-30j
                g[j] = np.imag(self.reference(v, k)["loss"]) / 1e-30
            out.append(g)
        return out

    def reported_gradients(self):
        """numeric derivative of the loss the real step reports (Richardson differences)"""
        out = []
        for i, (v, s) in enumerate(self.vars):
            s = np.array(s, dtype=float)
            g = np.zeros(s.shape)
            for j in np.ndindex(*s.shape):
                f = {}
                for k in (-2, -1, 1, 2):
                    self.restore()
                    t = s.copy()
                    t[j] += 0.01 * k
                    v.assign(t)
                    f[k] = float(np.asarray(self.step()[0][0]["loss"]).reshape(-1)[0])
                g[j] = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / 0.12
            out.append(g)
        self.restore()
        return out


def flat1(h, v):
    """a reported loss as a number (scalar or one-element vector)"""
    a = np.asarray(v, dtype=object).reshape(-1) if h.symbolic else np.asarray(v).reshape(-1)
    h.true("one-number", a.size == 1, "a reported loss has %d entries" % a.size)
    return a[0]


def check_reports(h, p, outs, ref):
    for k in ref:
        h.true("reports-" + k, k in outs, "%s is not reported" % k)
        got = flat1(h, outs[k])
        if h.symbolic:
            h.eq("value-" + k, [got], [ref[k]])
        else:
            h.eq("value-" + k, [got], [ref[k]], tol=1e-4 * (1 + abs(ref[k])))


def check_gradients(h, p, g, G):
    for gr, i in g:
        if h.symbolic:
            h.eq("gradient", gr, G[i])
        else:
            h.eq("gradient", gr, G[i], tol=1e-3 * (1 + max(np.max(np.abs(x)) for x in G)))


def check_steps(h, p, steps=1):
    """reports and gradients of consecutive steps against the reference"""
    for k, (outs, g) in enumerate(p.step(steps)):
        vals = p.versions(k)
        ref = p.reference(vals, k)
        check_reports(h, p, outs, ref)
        check_gradients(h, p, g, p.gradients(ref["loss"], vals, k))
    return outs


def call_matches(h, p, label="network-output"):
    """model(points) is the network function at arbitrary points"""
    import tensorflow as tf
    n = len(p.B)
    k = p.dims[-1]
    if h.symbolic:
        from lib import tfstep
        m = p.model
        f = tfstep.raw(m, "call")
        spec = tf.TensorSpec((n, 2), tf.as_dtype(p.dtype))
        vs = [(v, [s]) for v, s in p.vars]

        def fn(rec, x):
            return m(x)
        with quiet():
            out, _, _ = tfstep.trace(p.values, vs, fn, [(spec, p.B)], rounding=False)
    else:
        out = p.model(tf.constant(p.B, dtype=p.dtype)).numpy()
    W, _ = p.split([s for _, s in p.vars])
    want = [p.net(W, p.B[i][0], p.B[i][1])[0] for i in range(n)]
    if h.symbolic:
        h.eq(label, out, h.array(want))
    else:
        h.eq(label, out, np.array(want).reshape(n, k), tol=1e-4)


class Constraint:
    """a hard-constraint function: tf(inputs, outputs) and its values and derivatives"""

    def __init__(self, name):
        self.name = name

    def tf(self, inputs, outputs):
        import tensorflow as tf
        x, y = inputs[:, 0:1], inputs[:, 1:2]
        if self.name == "distance":
            return x * (1.0 - x) * y * outputs + 2.0 * y
        if self.name == "nonlinear":
            return outputs * outputs + x * outputs + x * y
        if self.name == "tanh":
            return tf.tanh(x) * tf.tanh(y) * outputs
        raise AssertionError

    def ref(self, p, x, y, v, dx, dy):
        if self.name == "distance":
            d = x * (1 - x) * y
            return d * v + 2 * y, (1 - 2 * x) * y * v + d * dx, x * (1 - x) * v + d * dy + 2
        if self.name == "nonlinear":
            return v * v + x * v + x * y, 2 * v * dx + v + x * dx + y, 2 * v * dy + x * dy + x
        a, b = p.tanh(x), p.tanh(y)
        return a * b * v, (1 - a * a) * b * v + a * b * dx, a * (1 - b * b) * v + a * b * dy

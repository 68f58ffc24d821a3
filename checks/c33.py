"""hyperparameter trials (TF_GRAPH)"""
import inspect
import types
import numpy as np

INFO = dict(
    bounds="every suggested integer and float (symbolic within the ranges the objective asks for), every category, 1..3 hidden layers, 0..3 training steps, 0..2 GPUs, 3 test points with arbitrary coordinates, arbitrary exact solution and predictions; a second trial in the same process that differs from the first in one suggestion or in none",
    assumptions=["optuna and the example module are stand-ins (optuna is not installed); the stand-in trial returns arbitrary values of the requested ranges",
                 "symbolic runs replace mesh, space, data handler and network by recorders that return arbitrary data (their behaviour is the subject of C01-C32); concrete runs use the real ones",
                 "the arguments are bound through the real constructors' signatures"],
    jobs=6, concrete=2, concrete_s=120)


def configs(tier):
    ks = (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 5)
    return [dict(what="objective", k=k) for k in ks] + [dict(what="second", k=1)] + [dict(what="tuner", k=g) for g in (0, 1, 2)]


class Trial:
    """a trial that may suggest any value of the requested range"""

    def __init__(self, h, number=0, plain=False):
        # plain: one choice where there are several, one hidden layer
        self.h, self.values, self.number, self.plain = h, {}, number, plain

    def like(self, other, name):
        """the other trial's suggestions but for one of them"""
        self.values = dict(other.values)
        if name == "n_layers":
            self.values[name] = 2
        elif isinstance(self.values.get(name), str):
            self.values[name] = self.plain[name]
        elif name is not None:
            v, h = self.values[name], self.h
            lo, hi = other.ranges[name]
            f = h.int if isinstance(lo, int) else h.real
            self.values[name] = f(name + "-after", lo, hi, *((lo, min(hi, lo + 2)) if isinstance(lo, int) else ()))
            h.assume(self.values[name] != v)
        return self

    def _once(self, name, make, low=None, high=None):
        self.__dict__.setdefault("ranges", {})[name] = (low, high)
        if name not in self.values:
            self.values[name] = make()
        return self.values[name]

    def suggest_int(self, name, low, high, step=1, log=False):
        h = self.h
        if "n_layers" in name:
            return self._once(name, lambda: 1 if self.plain is not False else h.choose(name, list(range(low, min(high, low + 2) + 1))))
        return self._once(name, lambda: h.int(name, low, high, low, min(high, low + 2)), low, high)

    def suggest_float(self, name, low, high, step=None, log=False):
        return self._once(name, lambda: self.h.real(name, low, high), float(low), float(high))

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    suggest_loguniform = suggest_uniform

    def suggest_categorical(self, name, choices):
        if self.plain is not False:
            self.plain[name] = choices[-1]
            return self._once(name, lambda: choices[0])
        return self._once(name, lambda: self.h.choose(name, list(choices)))

    def __getattr__(self, n):
        return {} if n == "user_attrs" else (lambda *a, **k: False)


class Log(list):
    def add(self, name, fn, args, kw):
        b = inspect.signature(fn).bind(*args, **kw)
        b.apply_defaults()
        self.append((name, dict(b.arguments)))

    def one(self, h, name):
        r = [a for n, a in self if n == name]
        h.true("built-once", len(r) == 1, "%s happens %d times" % (name, len(r)))
        return r[0]


class Any:
    """opaque result of a recorder"""

    def __init__(self, **k):
        self.__dict__.update(k)


def recorders(h, log, real, made):
    """library stand-ins for symbolic runs"""
    R = lambda n, s: h.reals(made.get("prefix", "") + n, s)
    t = lambda n, *s: h.tensor(R(n, s), "float32")

    def init(name, obj):
        made[name] = obj
        return obj

    def geometry(*a, **k):
        log.add("Geometry_2D", real["Geometry_2D"], a, k)
        d = Any(mesh=object(), mesh_type=k.get("mesh_type", a[0] if a else None), test=R("tp", (3, 2)))
        d.out = (R("cells", (1, 4, 2)), {1000: R("bp", (2, 2)), 1001: R("bq", (2, 2))})

        def gen(*a, **k):
            log.add("generate_quad_mesh_internal", lambda x_limits, y_limits, n_cells_x, n_cells_y, num_boundary_points: 0, a, k)
            return d.out
        d.generate_quad_mesh_internal = gen
        d.get_test_points = lambda: d.test
        return init("domain", d)

    def space(*a, **k):
        log.add("Fespace2D", real["Fespace2D"], a, k)
        return init("space", Any(n_cells=h.int(made.get("prefix", "") + "total_cells", 1, 100)))

    def handler(*a, **k):
        log.add("DataHandler2D", real["DataHandler2D"], a, k)
        d = Any(x_pde_list=t("x_pde", 4, 2), shape_val_mat_list=t("V", 1, 1, 4), grad_x_mat_list=t("GX", 1, 1, 4), grad_y_mat_list=t("GY", 1, 1, 4),
                forcing_function_list=t("F", 1, 1))
        d.dir = (t("di", 2, 2), t("do", 2, 1))
        d.bil = {"eps": t("beps", 1)}
        d.get_dirichlet_input = lambda: d.dir

        def bil(*a, **k):
            log.add("bilinear", lambda function: 0, a, k)
            return d.bil
        d.get_bilinear_params_dict_as_tensors = bil
        return init("handler", d)

    class Model:
        def __init__(self, *a, **k):
            self.steps = 0
            log.add("DenseModel", real["DenseModel"], a, k)
            init("model", self)

        def train_step(self, *a, **k):
            log.add("train_step", lambda beta=10, bilinear_params_dict=None: 0, a, k)
            self.steps += 1
            return {"loss": h.tensor(R("loss%d" % self.steps, (1,))), "loss_pde": None, "loss_dirichlet": None}

        def predict_at(self, x):
            f = h.fn(made.get("prefix", "") + "net%d" % self.steps)
            x = h.array(h.npy(x))
            return h.array([[f(r[0], r[1])] for r in x])

        def __call__(self, x, *a, **k):
            return h.tensor(self.predict_at(x))
    made["expected"] = lambda k: [h.fn(made.get("prefix", "") + "net%d" % k)(r[0], r[1]) for r in made["domain"].test]
    return dict(Geometry_2D=geometry, Fespace2D=space, DataHandler2D=handler, DenseModel=Model)


def spies(h, log, real, C, made):
    """the real library, recording how it is used"""

    def wrap(cls, name, before=None, after=None):
        orig = C[cls].__dict__[name]

        def f(self, *a, **k):
            if before:
                before(self, a, k)
            r = orig.__get__(self, type(self))(*a, **k)
            if after:
                after(self, r)
            return r
        h.replace(WHERE[cls] + ":" + cls, name, f)

    def built(cls, key):
        wrap(cls, "__init__", lambda self, a, k: (log.add(cls, real[cls], a, k), made.update({key: self})))
    for cls, key in (("Geometry_2D", "domain"), ("Fespace2D", "space"), ("DataHandler2D", "handler"), ("DenseModel", "model")):
        built(cls, key)
    wrap("Geometry_2D", "generate_quad_mesh_internal", lambda self, a, k: log.add(
        "generate_quad_mesh_internal", lambda x_limits, y_limits, n_cells_x, n_cells_y, num_boundary_points: 0, a, k),
        lambda self, r: setattr(self, "out", r))
    wrap("DataHandler2D", "get_dirichlet_input", None, lambda self, r: setattr(self, "dir", r))
    wrap("DataHandler2D", "get_bilinear_params_dict_as_tensors", lambda self, a, k: log.add("bilinear", lambda function: 0, a, k),
         lambda self, r: setattr(self, "bil", r))
    wrap("DenseModel", "train_step", lambda self, a, k: log.add("train_step", lambda beta=10, bilinear_params_dict=None: 0, a, k))

    def expected(k):
        h.true("trained-steps", int(made["model"].optimizer.iterations.numpy()) == k, "not %d optimizer steps" % k)
        return list(np.asarray(made["model"](made["domain"].get_test_points())).reshape(-1).astype(float))
    made["expected"] = expected


WHERE = dict(Geometry_2D="Geometry.geometry_2d", Fespace2D="FE.fespace2d", DataHandler2D="data.datahandler2d", DenseModel="model.model")


def same(h, label, got, want):
    if got is want:
        return h.true(label, True)
    if isinstance(want, dict):
        h.true(label, isinstance(got, dict) and list(got) == list(want), "other keys")
        for k in want:
            same(h, label, got[k], want[k])
    elif isinstance(want, (list, tuple)):
        h.true(label, isinstance(got, (list, tuple)) and len(got) == len(want), "%r instead of %r" % (got, want))
        for g, w in zip(got, want):
            same(h, label, g, w)
    elif isinstance(want, (str, bool, type(None), types.ModuleType)):
        h.true(label, got == want, "%r instead of %r" % (got, want))
    elif callable(want):
        h.true(label, callable(got), "not a function")
        n = len(inspect.signature(want).parameters)
        x = [h.real("sx", 0, 1), h.real("sy", 0, 1)]
        same(h, label, got(*x[:n]), want(*x[:n]))
    elif isinstance(want, (Any, object)) and not hasattr(want, "__float__") and not hasattr(want, "shape"):
        h.true(label, False, "another object")
    else:
        g = h.array(h.npy(got))
        w = h.array(h.npy(want))
        h.true(label, tuple(g.shape) == tuple(w.shape), "shape %s instead of %s" % (g.shape, w.shape))
        h.eq(label, g.reshape(-1), w.reshape(-1))


def body(h, what, k):
    import tensorflow as tf
    old = tf.config.list_physical_devices, tf.config.experimental.set_memory_growth, tf.device
    try:
        if what == "tuner":
            tuner(h, k, tf)
        else:
            trial(h, k, tf, what == "second")
    finally:
        tf.config.list_physical_devices, tf.config.experimental.set_memory_growth, tf.device = old


def example(h):
    m = types.ModuleType("sin_cos")
    rhs, ex = h.fn("rhs"), h.fn("exact")
    bfun = {t: (lambda f: lambda x, y: f(x, y))(h.fn("g%d" % t)) for t in (1000, 1001, 1002, 1003)}
    eps = h.real("eps", 0.5, 2)
    m.rhs, m.exact_solution = rhs, ex
    m.get_boundary_function_dict = lambda: dict(bfun)
    m.get_bound_cond_dict = lambda: {t: "dirichlet" for t in bfun}
    m.get_bilinear_params_dict = lambda: {"eps": eps}
    m.rhs = lambda x, y: rhs(x, y)
    m.exact_solution = lambda x, y: ex(x, y)
    return m


NAMES = ["n_cells_x", "n_cells_y", "n_boundary_points", "fe_order", "fe_type", "quad_order", "quad_type", "n_layers", "layer_0",
         "initial_learning_rate", "decay_steps", "decay_rate"]


def trial(h, k, tf, second=False):
    def growth(*a):
        if h.choose("growth-fails", [False, True]):
            raise RuntimeError("devices are initialised")
    gpus = 0 if second else h.choose("gpus", [0, 1])
    tf.config.list_physical_devices = lambda *a, **kw: [object()] * gpus
    tf.config.experimental.set_memory_growth = growth
    log = Log()
    C = {n: getattr(h.module(m), n) for n, m in WHERE.items()}

    def sig(c):
        # the constructor without self
        p = list(inspect.signature(c.__init__).parameters.values())[1:]
        f = lambda *a, **kw: 0
        f.__signature__ = inspect.Signature(p)
        return f
    real = {n: sig(c) for n, c in C.items()}
    made = {}
    if h.symbolic:
        cls = recorders(h, log, real, made)
        for n, m in WHERE.items():
            h.replace(m, n, cls[n])
    else:
        spies(h, log, real, C, made)
    ex = example(h)
    h.provide({"optuna": types.ModuleType("optuna"), "sin_cos": ex})
    obj = h.fresh("hyperparameter_tuning.objective")
    T = Trial(h, plain={} if second else False)
    r = obj.objective(T, k)
    if second:
        # an earlier trial of the same process that differs in one suggestion, or in none
        del log[:]
        made["prefix"] = "second:"
        T0, T = T, Trial(h, number=1, plain=T.plain).like(T, h.choose("differs-in", [None] + NAMES))
        h.true("same-suggestions", set(T0.values) <= set(NAMES), "suggestions %s" % sorted(T0.values))
        r = obj.objective(T, k)
    v = T.values
    dom, fs, dh = made["domain"], made["space"], made["handler"]
    # mesh
    a = log.one(h, "Geometry_2D")
    h.true("internal-mesh", a["mesh_type"] == "quadrilateral" and a["mesh_generation_method"] == "internal", "another mesh kind")
    a = log.one(h, "generate_quad_mesh_internal")
    for arg, name in (("n_cells_x", "n_cells_x"), ("n_cells_y", "n_cells_y"), ("num_boundary_points", "n_boundary_points")):
        same(h, "mesh-suggestion", a[arg], v[name])
    # finite element space
    a = log.one(h, "Fespace2D")
    for n in ("fe_order", "fe_type", "quad_order", "quad_type"):
        same(h, "space-suggestion", a[n], v[n])
    same(h, "space-mesh", a["mesh"], dom.mesh)
    same(h, "space-cells", a["cells"], dom.out[0])
    same(h, "space-boundary", a["boundary_points"], dom.out[1])
    same(h, "space-problem", a["bound_function_dict"], ex.get_boundary_function_dict())
    same(h, "space-problem", a["bound_condition_dict"], ex.get_bound_cond_dict())
    same(h, "space-problem", a["forcing_function"], ex.rhs)
    # data
    a = log.one(h, "DataHandler2D")
    same(h, "data-space", a["fespace"], fs)
    same(h, "data-domain", a["domain"], dom)
    dt = a["dtype"]
    same(h, "problem-coefficients", log.one(h, "bilinear")["function"], ex.get_bilinear_params_dict)
    # network
    a = log.one(h, "DenseModel")
    n = v["n_layers"]
    same(h, "layers", list(a["layer_dims"]), [2] + [v["layer_%d" % i] for i in range(n)] + [1])
    for x in ("initial_learning_rate", "decay_steps", "decay_rate"):
        same(h, "learning-rate", a["learning_rate_dict"][x], v[x])
    h.true("schedule-used", bool(a["learning_rate_dict"]["use_lr_scheduler"]), "the schedule is not used")
    same(h, "cell-count", a["params_dict"]["n_cells"], fs.n_cells)
    h.true("one-precision", a["tensor_dtype"] == dt, "network and data differ in precision")
    same(h, "inputs", list(a["input_tensors_list"]), [dh.x_pde_list, dh.dir[0], dh.dir[1]])
    same(h, "matrices", list(a["orig_factor_matrices"]), [dh.shape_val_mat_list, dh.grad_x_mat_list, dh.grad_y_mat_list])
    same(h, "forcing", a["force_function_list"], dh.forcing_function_list)
    loss = h.module("physics.poisson2d").pde_loss_poisson
    if a["loss_function"] is not loss:
        from . import c16
        t = c16.tensors(h, c16.data(h, 1, 2, 2))
        P = {"eps": h.tensor(h.real("peps"))}
        same(h, "loss-function", a["loss_function"](bilinear_params=P, **t), loss(bilinear_params=P, **t))
    # training
    st = [a for n, a in log if n == "train_step"]
    h.true("step-count", len(st) == k, "%d training steps instead of %d" % (len(st), k))
    for a in st:
        same(h, "penalty", a["beta"], 10.0)
        same(h, "step-coefficients", a["bilinear_params_dict"], dh.bil)
    # score
    tp = dom.test if h.symbolic else dom.get_test_points()
    e = [ex.exact_solution(p[0], p[1]) for p in tp]
    u = made["expected"](k)
    r = np.asarray(r, dtype=object).reshape(-1)
    h.true("one-score", len(r) == 1, "%d scores" % len(r))
    E, N = sum(x * x for x in e), sum((x - y) * (x - y) for x, y in zip(e, u))
    h.assume(E > 0)
    h.le("score-nonnegative", 0, r[0])
    h.eq("score", [r[0] * r[0] * E], [N], tol=None if h.symbolic else 1e-4 * float(N))


def tuner(h, gpus, tf):
    from lib import symcore as sc
    log = []
    inside = []

    class Device:
        def __init__(self, name):
            self.name = name

        def __enter__(self):
            inside.append(self.name)

        def __exit__(self, *a):
            inside.pop()
    tf.config.list_physical_devices = lambda *a, **kw: [object()] * gpus
    tf.device = Device
    if h.symbolic:
        sc.TOKENS = []
    epochs, n = h.int("epochs", 0, None, 0, 9), h.int("n_trials", 1, None, 1, 9)
    jobs = -1 if h.choose("all-cores", [True, False]) else h.int("n_jobs", 1, None, 1, 4)
    best = {"fe_order": h.int("best", 2, 8)}
    val = h.real("best_value", 0, 1)
    scores = []

    class Study:
        best_params = best
        best_value = val
        best_trial = Any(value=val, params=best, number=0)

        def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, catch=(), callbacks=None, gc_after_trial=False, show_progress_bar=False):
            log.append(("optimize", dict(n_trials=n_trials, n_jobs=n_jobs, timeout=timeout)))
            for i in range(2):
                t = Trial(h, h.int("number%d" % i, 0, None, 0, 50))
                scores.append((t, func(t)))

    def create_study(storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
        log.append(("study", dict(direction=direction, directions=directions, study_name=study_name)))
        return Study()
    calls = []

    def objective(trial, num_epochs):
        s = h.real("score%d" % len(calls), 0, 1)
        calls.append((trial, num_epochs, list(inside), s))
        return s
    opt = types.ModuleType("optuna")
    opt.create_study = create_study
    h.provide({"optuna": opt, "sin_cos": types.ModuleType("sin_cos")})
    h.fresh("hyperparameter_tuning.objective").objective = objective
    m = h.fresh("hyperparameter_tuning.optuna_tuner")
    r = m.OptunaTuner(n_trials=n, study_name="a study", n_jobs=jobs, n_epochs=epochs).run()
    st = [a for k, a in log if k == "study"]
    op = [a for k, a in log if k == "optimize"]
    h.true("one-study", len(st) == 1 and len(op) == 1, "%d studies, %d optimisations" % (len(st), len(op)))
    h.true("minimise", st[0]["direction"] in (None, "minimize") and st[0]["directions"] in (None, ["minimize"]), "direction %r" % st[0]["direction"])
    h.true("study-name", st[0]["study_name"] == "a study", "another study")
    h.true("trial-count", op[0]["n_trials"] is not None and op[0]["timeout"] is None, "the number of trials is not passed")
    h.eq("trial-count", [op[0]["n_trials"]], [n])
    j = op[0]["n_jobs"]
    h.true("valid-jobs", h.any([j == -1, j >= 1]), "optuna rejects %r jobs" % (j,))
    if not isinstance(jobs, int) or jobs != -1:
        h.true("jobs-within-request", h.all([j >= 1, j <= jobs]), "more jobs than requested")
    elif not gpus:
        h.true("all-cores", j == -1, "%r jobs instead of all cores" % (j,))
    h.true("every-trial-scored", len(calls) == len(scores) == 2, "%d objective calls for 2 trials" % len(calls))
    for (t, s), (ct, ce, dev, cs) in zip(scores, calls):
        h.true("trial-passed", t is ct, "another trial")
        h.eq("score-returned", [s], [cs])
        h.eq("epochs", [ce], [epochs])
        h.true("device", len(dev) == (1 if gpus else 0), "devices %s" % dev)
        for d in dev:
            name, _, i = d.rpartition("GPU:")
            h.true("device-name", name in ("/", "/device:"), "device %s" % d)
            i = h.parsed(i, 0)
            h.true("device-exists", h.all([i >= 0, i <= gpus - 1]), "no such GPU")
    h.true("left-device", not inside, "a device scope is left open")
    same(h, "best-parameters", r, best)

"""learning-rate schedules (TF_GRAPH)"""
from .nets import *

INFO = dict(
    bounds="one optimizer update of each of the four models from an arbitrary optimizer state (arbitrary step number, weights, moments) with arbitrary gradients, for every initial rate, decay rate and decay steps; scheduler on (staircase true, false, absent) and off; float64 and float32 models; one small network per model",
    assumptions=["TF_GRAPH: the optimizer's update is interpreted from the graph TensorFlow traces for it, in exact arithmetic",
                 "the decay power function is an uninterpreted function of its two arguments",
                 "Adam's own hyperparameters are Keras' defaults (0.9, 0.999, 1e-7)"],
    jobs=8, concrete=2, concrete_s=120)


def configs(tier):
    out = []
    for kind in ("plain", "hard", "inverse", "domain"):
        for sched in ("off", "true", "false", "absent"):
            out.append(dict(kind=kind, sched=sched, dtype="float64"))
    for kind in ("plain", "hard", "inverse", "domain"):
        out.append(dict(kind=kind, sched="off-bare" if kind == "plain" else "absent", dtype="float32"))
    if tier != "quick":
        out += [dict(kind=k, sched=s, dtype="float32") for k in ("plain", "hard", "inverse", "domain") for s in ("off", "true", "false")]
    return out


def body(h, kind, sched, dtype):
    import tensorflow as tf
    on = not sched.startswith("off")
    stair = sched in ("true", "absent")
    lr0, rate = h.real("initial_learning_rate", 0.01, 0.5), h.real("decay_rate", 0.2, 0.95)
    ds, t = h.int("decay_steps", 1, None, 1, 4), h.int("step", 0, None, 0, 6)
    f = np.float32 if dtype == "float32" else float
    # Keras holds these numbers as 32-bit constants
    b1, b2 = float(np.float32(0.9)), float(np.float32(0.999))
    c1, c2 = float(f(1 - 0.9)), float(f(1 - 0.999))
    if h.symbolic:
        from lib import tfstep
        v = tfstep.Values(11, 20)
        n0, n1 = (float(x) for x in v.take([lr0, rate], positive=True))
        nds = 104729
    else:
        n0, n1, nds = lr0, rate, ds
    lr = dict(initial_learning_rate=n0, use_lr_scheduler=on, decay_steps=nds, decay_rate=n1)
    if sched in ("true", "false"):
        lr["staircase"] = sched == "true"
    elif sched == "off":
        lr["staircase"] = False
    p = Problem(h, kind, [2, 2, 2 if kind == "domain" else 1], 1, 1, 1, 1, ns=1, lr=lr, dtype=dtype)
    m = p.model
    h.true("adam", isinstance(m.optimizer, tf.keras.optimizers.Adam), "the optimizer is %s" % type(m.optimizer).__name__)
    ws = [v for v, _ in p.vars]
    G = [h.reals("g%d" % i, tuple(w.shape) or ()) for i, w in enumerate(ws)]
    M = [h.reals("m%d" % i, tuple(w.shape) or (), -0.5, 0.5) for i, w in enumerate(ws)]
    V = [h.reals("v%d" % i, tuple(w.shape) or (), 0.01, 0.5) for i, w in enumerate(ws)]
    for x in V:
        h.assume(x >= 0)
    W = [h.reals("w%d" % i, tuple(w.shape) or ()) for i, w in enumerate(ws)]
    opt = m.optimizer
    with quiet():
        opt.build(list(m.trainable_variables))
    slot = lambda kind, w: getattr(opt, kind)[opt._index_dict[opt._var_key(w)]]
    known = [opt.iterations, getattr(opt, "_learning_rate", None), getattr(opt, "_current_learning_rate", None)] + ws
    known += [slot(s, w) for w in ws for s in ("_momentums", "_velocities")]
    extra = [x for x in opt.variables if not any(x is k for k in known)]
    e = t * h.frac(1, 1) / ds
    if on and stair:
        e = h.floor(e)
    want_lr = lr0 * h.pow(rate, e) if on else lr0
    if h.symbolic:
        state = []
        for w, a, b, c in zip(ws, W, M, V):
            state += [(w, a), (slot("_momentums", w), b), (slot("_velocities", w), c)]
        # whatever else the optimizer remembers is arbitrary as well
        for i, x in enumerate(extra):
            state.append((x, h.reals("extra%d" % i, tuple(x.shape) or (), 0.0, 5.0)))
        state.append((opt.iterations, h.array(t)))

        def fn(*g):
            opt.apply_gradients(list(zip(g, ws)))
        args = [(tf.TensorSpec(w.shape, w.dtype), g) for w, g in zip(ws, G)]
        with quiet():
            new = tfstep.apply(fn, state, args, v.map, {float(nds): ds})
    else:
        for w, a, b, c in zip(ws, W, M, V):
            w.assign(a)
            slot("_momentums", w).assign(b)
            slot("_velocities", w).assign(c)
        for i, x in enumerate(extra):
            x.assign(h.reals("extra%d" % i, tuple(x.shape) or (), 0.0, 5.0))
        opt.iterations.assign(t)
        with quiet():
            opt.apply_gradients([(tf.constant(g, dtype=dtype), w) for g, w in zip(G, ws)])
        new = []
        for w in ws:
            new += [w.numpy(), slot("_momentums", w).numpy(), slot("_velocities", w).numpy()]
        new.append(opt.iterations.numpy())
    p1, p2 = h.pow(b1, t + 1), h.pow(b2, t + 1)
    alpha = want_lr * h.sqrt(1 - p2) / (1 - p1)
    for i in range(len(ws)):
        g, a, b, c = (np.asarray(x, dtype=object if h.symbolic else float).reshape(-1) for x in (G[i], W[i], M[i], V[i]))
        got = np.asarray(new[3 * i], dtype=object if h.symbolic else float).reshape(-1)
        for k in range(len(g)):
            mm = b[k] + (g[k] - b[k]) * c1
            vv = c[k] + (g[k] * g[k] - c[k]) * c2
            want = a[k] - mm * alpha / (h.sqrt(vv) + float(f(1e-7)))
            h.eq("update", [got[k]], [want], rel=1e-6, **({} if h.symbolic else dict(tol=1e-3 * (1 + abs(want)))))
    h.eq("steps-counted", [np.asarray(new[-1], dtype=object).reshape(-1)[0]], [t + 1])

"""models recreated from a configuration, and several models at once (TF_GRAPH)"""
from .nets import *

INFO = dict(
    bounds="the four models with up to 2 hidden layers of up to 2 neurons, 1..2 cells x 2 test functions x 2 points; a model recreated from the configuration of another, a second model built from the same objects; either one trained and evaluated; arbitrary weights, data, coefficients and beta; any number of optimizer updates before the step, arbitrary values of any further variable the step writes, both sides of branches; loops of up to 1000 rounds in the graph",
    assumptions=["TF_GRAPH: the traced training step is interpreted op by op in real arithmetic, as in C18-C22"],
    jobs=8, concrete=2, scales=(30.0,))


def configs(tier):
    out = []
    for how in ("config", "again"):
        for use in ("second", "first"):
            for k in MODELS:
                out.append(dict(kind=k, how=how, use=use, dims=[2, 1 if k == "hard" else 2, 2 if k == "domain" else 1], act="tanh" if how == "again" else "sigmoid", nc=1))
    out += [dict(kind="plain", how="config", use="second", dims=[2, 2, 1, 1], act="sigmoid", nc=1),
            dict(kind="hard", how="config", use="second", dims=[2, 1, 1, 1], act="sigmoid", nc=1)]
    if tier != "quick":
        for k in MODELS:
            out += [dict(kind=k, how="config", use=u, dims=[2, 2, 2, 2 if k == "domain" else 1], act="sigmoid", nc=2) for u in ("first", "second")]
    return out


def body(h, kind, how, use, dims, act, nc):
    import tensorflow as tf
    hard = Constraint("distance") if kind == "hard" else None
    p = Problem(h, kind, dims, nc, 2, 1, 1, ns=1, act=act, hard=hard)
    given = dict(p.kw["inverse_params_dict"]) if kind == "inverse" else None
    first = p.model
    with quiet():
        second = p.cls.from_config(first.get_config()) if how == "config" else p.cls(**p.kw)
    h.true("same-kind", type(second) is type(first), "a %s" % type(second).__name__)
    v1 = [v for v, _ in p.vars]
    V2 = p.adopt(second)
    v2 = [v for v, _ in V2]
    h.true("own-variables", not any(a is b for a in v1 for b in v2), "the models share a variable")
    h.true("own-optimizer", first.optimizer is not second.optimizer, "the models share an optimizer")
    if given is not None:
        d = p.kw["inverse_params_dict"]
        h.true("dictionary-kept", list(d) == list(given) and all(d[k] is given[k] for k in d), "the caller's dictionary of coefficients is changed")
    for key in ("initial_learning_rate", "use_lr_scheduler", "decay_steps", "decay_rate"):
        h.true("learning-rate-kept", second.learning_rate_dict[key] == p.lr[key], key)
    h.true("rate-used", abs(float(tf.convert_to_tensor(second.optimizer.learning_rate).numpy()) - p.lr["initial_learning_rate"]) < 1e-9, "learning rate")
    if use == "second":
        p.model, p.vars = second, V2
        p.restore_weights()
    call_matches(h, p)
    check_steps(h, p)

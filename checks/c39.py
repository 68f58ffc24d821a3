"""predictions (TF_GRAPH)"""
from .nets import *

INFO = dict(
    bounds="the four models on networks of 1..6 dense layers of up to 4 neurons (tanh, sigmoid, relu, linear), batches of 1..5 arbitrary points, three constraints, float64 and float32; arbitrary weights; also 300 points, 70 neurons, 15 hidden layers",
    assumptions=["tanh and sigmoid are uninterpreted functions; real arithmetic (TF_GRAPH: the graph traced from the model's call is interpreted op by op)"],
    jobs=8, concrete=4, scales=(10.0, 0.1))


def configs(tier):
    D = [[2, 1], [2, 4, 1], [2, 2, 2, 1], [2, 3, 2, 2, 1], [2, 1, 1, 1, 1, 1, 1]]
    out = []
    for i, k in enumerate(MODELS):
        for j, d in enumerate(D):
            d = d[:-1] + [2] if k == "domain" else d
            out.append(dict(kind=k, dims=d, act=("tanh", "sigmoid", "tanh")[(i + j) % 3], n=1 + (i + 2 * j) % 5,
                            hard=("distance", "nonlinear", "tanh")[j % 3] if k == "hard" and j else None,
                            dtype="float32" if (i + j) % 4 == 3 else "float64"))
    out += [dict(kind=k, dims=[2, 3, 2 if k == "domain" else 1], act=a, n=2, hard=None, dtype="float64") for k in ("plain", "domain", "hard") for a in ("relu", "linear")]
    out += [dict(kind="plain", dims=[2, 2, 3], act="tanh", n=3, hard=None, dtype="float64")]
    # batches and layers beyond any block the code might have
    out += [dict(kind=k, dims=[2, 2, 2 if k == "domain" else 1], act="tanh", n=300, hard="distance" if k == "hard" else None, dtype="float64") for k in MODELS]
    out += [dict(kind=k, dims=[2, 70, 2, 2 if k == "domain" else 1], act="tanh", n=2, hard=None, dtype="float64") for k in MODELS]
    out += [dict(kind=k, dims=[2] + [1] * 14 + [2 if k == "domain" else 1], act="tanh", n=2, hard=None, dtype="float64") for k in MODELS]
    if tier != "quick":
        out += [dict(kind=k, dims=[2, 5, 4, 3, 2 if k == "domain" else 1], act="tanh", n=8, hard="distance" if k == "hard" else None, dtype="float64") for k in MODELS]
        out += [dict(kind=k, dims=[2] + [1] * 10 + [2 if k == "domain" else 1], act="sigmoid", n=2, hard="tanh" if k == "hard" else None, dtype="float64") for k in MODELS]
    return out


def body(h, kind, dims, act, n, hard, dtype):
    p = Problem(h, kind, dims, 1, 1, 1, n, ns=1, act=act, dtype=dtype, hard=Constraint(hard) if hard else None)
    call_matches(h, p, "prediction")

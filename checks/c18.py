"""reported losses of the forward model's training step"""
from .nets import Problem, check_reports, call_matches

INFO = dict(
    bounds="dense networks with up to 2 hidden layers of up to 3 neurons or 4 hidden layers of one (tanh, sigmoid), up to 2 cells x 3 test functions x 3 points, up to 3 Dirichlet points, 1..2 consecutive steps; arbitrary weights, data, coefficient and beta; penalty and coefficients arbitrary and different in every step; also 300 boundary points, 70 cells, 130 points, 70 test functions, 24 neurons, 7 hidden layers, 6 steps (one at a time, for some with a weak form without squares); any number of optimizer updates before the step, arbitrary values of any further variable the step writes, both sides of branches; loops of up to 1000 rounds in the graph",
    assumptions=["real arithmetic (TF_GRAPH: the graph TensorFlow traces from train_step is interpreted op by op, precision is C24's subject)",
                 "tanh and sigmoid are uninterpreted functions, with their derivatives expressed through their own values",
                 "the loss function is an arbitrary weak form with the documented calling convention; the repository's own losses are decided by C16/C17"],
    jobs=8, concrete=3, scales=(30.0, 0.03))


def configs(tier):
    out = [dict(dims=[2, 2, 1], nc=2, nq=2, nt=2, nb=2, act="tanh", steps=1),
           dict(dims=[2, 1, 1], nc=1, nq=3, nt=1, nb=3, act="tanh", steps=2),
           dict(dims=[2, 3, 1], nc=2, nq=1, nt=3, nb=1, act="sigmoid", steps=1),
           dict(dims=[2, 2, 2, 1], nc=1, nq=2, nt=2, nb=2, act="tanh", steps=1),
           dict(dims=[2, 2, 1, 1], nc=2, nq=1, nt=1, nb=2, act="sigmoid", steps=1),
           dict(dims=[2, 2, 1], nc=2, nq=3, nt=1, nb=2, act="tanh", steps=1, dtype="float32"),
           dict(dims=[2, 1], nc=3, nq=2, nt=2, nb=2, act="tanh", steps=1),
           dict(dims=[2, 1, 1, 1, 1, 1], nc=1, nq=1, nt=1, nb=1, act="tanh", steps=1),
           dict(dims=[2, 2, 1], nc=2, nq=2, nt=2, nb=1, act="tanh", steps=1, loss="repo"),
           dict(dims=[2, 1, 1], nc=2, nq=2, nt=2, nb=3, act="tanh", steps=1, dup=True)]
    # sizes beyond any block or table the code might have
    out += [dict(dims=[2, 1, 1], nc=1, nq=2, nt=1, nb=300, act="tanh", steps=1),
            dict(dims=[2, 1, 1], nc=70, nq=1, nt=1, nb=2, act="tanh", steps=1),
            dict(dims=[2, 1, 1], nc=3, nq=130, nt=1, nb=2, act="tanh", steps=1, loss="linear"),
            dict(dims=[2, 1, 1], nc=2, nq=2, nt=70, nb=2, act="tanh", steps=1, loss="linear"),
            dict(dims=[2, 24, 1], nc=1, nq=2, nt=1, nb=2, act="tanh", steps=1, loss="linear"),
            dict(dims=[2] + [1] * 7 + [1], nc=1, nq=1, nt=1, nb=1, act="tanh", steps=1, loss="linear"),
            dict(dims=[2, 1, 1], nc=1, nq=1, nt=1, nb=1, act="tanh", steps=6)]
    if tier != "quick":
        out += [dict(dims=[2, 3, 2, 1], nc=2, nq=2, nt=2, nb=3, act="tanh", steps=1),
                dict(dims=[2, 2, 2, 2, 1], nc=1, nq=1, nt=2, nb=2, act="sigmoid", steps=1),
                dict(dims=[2, 4, 1], nc=3, nq=3, nt=2, nb=4, act="tanh", steps=3)]
    return out


def body(h, dims, nc, nq, nt, nb, act, steps, dtype="float64", loss="own", dup=False):
    p = Problem(h, "plain", dims, nc, nq, nt, nb, act=act, dtype=dtype, loss=loss, dup=dup)
    call_matches(h, p)
    for k, (outs, g) in enumerate(p.step(steps)):
        check_reports(h, p, outs, p.reference(p.versions(k), k))

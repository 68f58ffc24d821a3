"""training step of the constant-inverse model"""
import numpy as np
from .nets import Problem, check_steps, call_matches
from .c18 import INFO as _I

INFO = dict(
    bounds="dense networks with up to 2 hidden layers of up to 3 neurons or 4 hidden layers of one, up to 2 cells x 2 test functions x 3 points, up to 3 Dirichlet and sensor points, two unknown coefficients, 1..2 consecutive steps, arbitrary weights, coefficients and data; penalty arbitrary and different in every step, unknown coefficients of either sign; also 300 boundary or sensor points, 70 cells, 130 points, 70 test functions, 16 neurons, 7 hidden layers, 5 steps (one at a time); any number of optimizer updates before the step, arbitrary values of any further variable the step writes, both sides of branches; loops of up to 1000 rounds in the graph",
    assumptions=_I["assumptions"],
    jobs=8, concrete=3, scales=(30.0, 0.03))
# TF_GRAPH


def configs(tier):
    out = [dict(dims=[2, 2, 1], nc=2, nq=2, nt=1, nb=2, ns=3, steps=1),
           dict(dims=[2, 1, 1], nc=1, nq=3, nt=2, nb=3, ns=1, steps=2),
           dict(dims=[2, 1, 1, 1], nc=1, nq=1, nt=1, nb=1, ns=2, steps=1, act="sigmoid"),
           dict(dims=[2, 2, 1], nc=1, nq=2, nt=2, nb=2, ns=2, steps=1, dtype="float32"),
           dict(dims=[2, 2, 1], nc=2, nq=1, nt=2, nb=1, ns=2, steps=1, loss="repo"),
           dict(dims=[2, 1, 1, 1, 1, 1], nc=1, nq=1, nt=1, nb=1, ns=1, steps=1),
           dict(dims=[2, 1, 1], nc=2, nq=2, nt=1, nb=3, ns=3, steps=1, dup=True)]
    # sizes beyond any block or table the code might have
    out += [dict(dims=[2, 1, 1], nc=1, nq=2, nt=1, nb=300, ns=1, steps=1),
            dict(dims=[2, 1, 1], nc=1, nq=1, nt=1, nb=1, ns=300, steps=1),
            dict(dims=[2, 1, 1], nc=70, nq=1, nt=1, nb=2, ns=2, steps=1),
            dict(dims=[2, 1, 1], nc=3, nq=130, nt=1, nb=2, ns=2, steps=1, loss="linear"),
            dict(dims=[2, 1, 1], nc=2, nq=2, nt=70, nb=2, ns=2, steps=1, loss="linear"),
            dict(dims=[2, 16, 1], nc=1, nq=2, nt=1, nb=2, ns=2, steps=1, loss="linear"),
            dict(dims=[2] + [1] * 7 + [1], nc=1, nq=1, nt=1, nb=1, ns=1, steps=1, loss="linear"),
            dict(dims=[2, 1, 1], nc=1, nq=1, nt=1, nb=1, ns=1, steps=5)]
    if tier != "quick":
        out += [dict(dims=[2, 3, 1], nc=2, nq=3, nt=2, nb=3, ns=3, steps=2),
                dict(dims=[2, 2, 2, 1], nc=1, nq=2, nt=1, nb=2, ns=2, steps=1)]
    return out


def body(h, dims, nc, nq, nt, nb, ns, steps, act="tanh", dtype="float64", loss="own", dup=False):
    p = Problem(h, "inverse", dims, nc, nq, nt, nb, ns, act=act, dtype=dtype, loss=loss, dup=dup)
    call_matches(h, p)
    outs = check_steps(h, p, steps)
    R = outs["inverse_params"]
    h.true("reported-coefficients", sorted(R) == sorted(p.inv), "coefficients %s reported" % sorted(R))
    n = 2 * len(p.W)
    for j, k in enumerate(p.inv):
        got = [np.asarray(R[k], dtype=object).reshape(-1)[0]]
        before, after = ([np.asarray(p.versions(s)[n + j], dtype=object).reshape(-1)[0]] for s in (steps - 1, steps))
        # the value the step started from or the updated one
        near = lambda a: all(abs(float(x) - float(y)) < 1e-5 for x, y in zip(got, a)) if not h.symbolic else h.same(got, a)
        h.eq("reported-coefficient-is-the-model's", got, before if near(before) else after, **({} if h.symbolic else dict(tol=1e-5)))

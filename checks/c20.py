"""training step of the hard-constraint model"""
from .nets import Problem, check_steps, call_matches, Constraint
from .c18 import INFO as _I

INFO = dict(
    bounds="dense networks with up to 2 hidden layers of up to 3 neurons or 4 hidden layers of one, up to 2 cells x 2 test functions x 3 points, 1..2 consecutive steps, arbitrary weights and data; hard-constraint functions: none, an affine distance-function ansatz, a nonlinear one, and one with tanh factors; penalty and coefficients arbitrary and different in every step; also 300 boundary points, 70 cells, 130 points, 70 test functions, 16 neurons, 6 hidden layers, 5 steps (one at a time); any number of optimizer updates before the step, arbitrary values of any further variable the step writes, both sides of branches; loops of up to 1000 rounds in the graph",
    assumptions=_I["assumptions"],
    jobs=8, concrete=3, scales=(30.0, 0.03))
# TF_GRAPH


def configs(tier):
    out = [dict(dims=[2, 2, 1], nc=2, nq=2, nt=1, nb=2, con="distance", steps=1),
           dict(dims=[2, 2, 1], nc=1, nq=2, nt=2, nb=2, con="nonlinear", steps=1),
           dict(dims=[2, 1, 1], nc=2, nq=1, nt=1, nb=1, con="tanh", steps=2),
           dict(dims=[2, 2, 1], nc=2, nq=1, nt=2, nb=3, con=None, steps=1),
           dict(dims=[2, 1, 1, 1], nc=1, nq=2, nt=1, nb=2, con="distance", steps=1, act="sigmoid"),
           dict(dims=[2, 2, 1], nc=1, nq=2, nt=1, nb=2, con="distance", steps=1, dtype="float32"),
           dict(dims=[2, 1, 1, 1, 1, 1], nc=1, nq=1, nt=1, nb=1, con="distance", steps=1),
           dict(dims=[2, 2, 1], nc=2, nq=1, nt=2, nb=1, con="distance", steps=1, loss="repo"),
           dict(dims=[2, 1, 1], nc=2, nq=2, nt=1, nb=2, con="distance", steps=1, dup=True)]
    # sizes beyond any block or table the code might have
    out += [dict(dims=[2, 1, 1], nc=1, nq=2, nt=1, nb=300, steps=1, con="distance"),
            dict(dims=[2, 1, 1], nc=70, nq=1, nt=1, nb=2, steps=1, con="distance"),
            dict(dims=[2, 1, 1], nc=3, nq=130, nt=1, nb=2, steps=1, loss="linear", con="distance"),
            dict(dims=[2, 1, 1], nc=2, nq=2, nt=70, nb=2, steps=1, loss="linear", con="distance"),
            dict(dims=[2, 16, 1], nc=1, nq=2, nt=1, nb=2, steps=1, loss="linear", con="distance"),
            dict(dims=[2] + [1] * 6 + [1], nc=1, nq=1, nt=1, nb=1, steps=1, loss="linear", con="distance"),
            dict(dims=[2, 1, 1], nc=1, nq=1, nt=1, nb=1, steps=5, con="distance")]
    if tier != "quick":
        out += [dict(dims=[2, 2, 2, 1], nc=1, nq=2, nt=2, nb=2, con="distance", steps=1),
                dict(dims=[2, 3, 1], nc=2, nq=3, nt=2, nb=2, con="tanh", steps=2),
                dict(dims=[2, 3, 1], nc=2, nq=2, nt=2, nb=2, con="nonlinear", steps=1)]
    return out


def body(h, dims, nc, nq, nt, nb, con, steps, act="tanh", dtype="float64", loss="own", dup=False):
    p = Problem(h, "hard", dims, nc, nq, nt, nb, act=act, dtype=dtype, loss=loss, dup=dup, hard=Constraint(con) if con else None)
    call_matches(h, p)
    check_steps(h, p, steps)

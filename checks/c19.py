"""gradients used by the forward model's optimizer update"""
import numpy as np
from .nets import Problem, check_gradients
from .c18 import configs as _c18, INFO as _I

INFO = dict(
    bounds=_I["bounds"],
    assumptions=_I["assumptions"] + ["the optimizer's own arithmetic (Adam) is the library's"],
    jobs=8, concrete=1, scales=(30.0, 0.03), concrete_s=90)
# TF_GRAPH


def configs(tier):
    return _c18(tier)


def body(h, dims, nc, nq, nt, nb, act, steps, dtype="float64", loss="own", dup=False):
    p = Problem(h, "plain", dims, nc, nq, nt, nb, act=act, dtype=dtype, loss=loss, dup=dup)
    if h.symbolic:
        for k, (outs, g) in enumerate(p.step(steps)):
            loss = np.asarray(outs["loss"], dtype=object).reshape(-1)
            h.true("one-number", loss.size == 1, "the loss is not one number")
            check_gradients(h, p, g, p.gradients(loss[0], p.versions(k)))
    else:
        G = p.reported_gradients()
        p.restore()
        outs, g = p.step()[0]
        check_gradients(h, p, g, G)

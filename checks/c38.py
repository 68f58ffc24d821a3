"""curves and contour plots"""
from .plots import *
import numpy as np
from .c16 import mixed

INFO = dict(
    bounds="curves of 1..4 (thorough 8) arbitrary values, up to 3 curves in one picture, given as lists or arrays; contour data on grids up to 2x3; two pictures in a row; also 2500 values, every 71st arbitrary",
    assumptions=["matplotlib's drawing functions are recorders: a picture is the curves, points, polygons, fields and scales drawn between figure() and savefig()"],
    jobs=4, concrete=4)

KINDS = ("loss", "array", "multiple", "inverse-test", "test", "time", "contour", "inverse-param")


def configs(tier):
    ns = (1, 4) if tier == "quick" else (1, 2, 4, 8)
    return [dict(kind=k, n=n) for k in KINDS for n in ns + (2500,)]


def curve(h, pic, ys, xs=None, label=None, nth=0, of=1):
    h.true("curves", len(pic["lines"]) == of, "%d curves instead of %d" % (len(pic["lines"]), of))
    L = pic["lines"][nth]
    h.eq("curve-values", h.array(L["y"]), h.array(ys))
    n = len(ys)
    h.eq("curve-abscissae", h.array(list(range(n)) if L["x"] is None else L["x"]), h.array(list(range(n)) if xs is None else xs))
    if label is not None:
        h.true("curve-label", L["label"] is not None and label in L["label"], "label %r instead of %r" % (L["label"], label))


def others(h, pic, levels=0, fields=0):
    h.true("nothing-else", not pic["points"] and not pic["polygons"] and len(pic["levels"]) == levels and len(pic["fields"]) == fields,
           "unexpected content")


def body(h, kind, n):
    R = Recorder(h)
    P = h.module("utils.plot_utils")
    # long histories: every path in one form only
    choose = h.choose if n < 1000 else lambda name, options: options[0]
    out = choose("folder", ["out", "some/other folder"])
    form = choose("form", ["array", "list", "integers"])
    give = lambda a: list(a) if form == "list" else a
    R.leave_open(h.real("old", 1, 2))
    logx = logy = True
    draw = lambda name, hi=5: mixed(h, name, (n,), 71) if n > 1000 else h.reals(name, (n,), 0.1, hi)
    for rnd in (0, 1):
        # a history of integers: whole numbers that differ from one another
        a = np.array([(3, 1, 2, 5, 4, 8, 6, 7)[i] if i < 8 else 9 + i * 53 % 2111 for i in range(rnd, n + rnd)]) if form == "integers" else draw("a%d" % rnd)
        b, t = draw("b%d" % rnd), draw("t%d" % rnd, 9)
        levels = fields = 0
        logx, logy = False, True
        R.saved[:] = []
        if kind == "loss":
            P.plot_loss_function(give(a), out)
            pic = R.picture(h, out + "/loss_function.png")
            curve(h, pic, a)
        elif kind == "array":
            name = choose("name", ["err", "l2 error"])
            P.plot_array(give(a), out, name, "title", *([] if rnd else ["Iterations", "Error"]))
            pic = R.picture(h, out + "/%s.png" % name)
            curve(h, pic, a)
        elif kind == "multiple":
            c = choose("curves", [1, 2, 3])
            cs = [a, b, t][:c]
            P.plot_multiple_loss_function([give(v) for v in cs], out, "many", ["first", "second", "third"][:c], "Loss", "title")
            pic = R.picture(h, out + "/many.png")
            for i, v in enumerate(cs):
                curve(h, pic, v, label=["first", "second", "third"][i], nth=i, of=c)
        elif kind == "inverse-test":
            P.plot_inverse_test_loss_function(give(a), out)
            pic = R.picture(h, out + "/test_inverse_loss_function.png")
            curve(h, pic, a)
        elif kind == "test":
            pre = choose("prefix", ["", "u", "eps_1"])
            P.plot_test_loss_function(give(a), out, *([pre] if pre or rnd else []))
            pic = R.picture(h, out + "/" + (pre + "_" if pre else "") + "test_loss_function.png")
            curve(h, pic, a)
        elif kind == "time":
            P.plot_test_time_loss_function(give(t), give(a), out)
            pic = R.picture(h, out + "/test_time_loss_function.png")
            curve(h, pic, a, xs=t)
            logx = True
        elif kind == "contour":
            s = (2, max(2, n - 1))
            x, y, z = (h.reals(v + str(rnd), s) for v in "xyz")
            P.plot_contour(x, y, z, out, "field", "title")
            pic = R.picture(h, out + "/field.png")
            h.true("one-field", len(pic["fields"]) == 1, "%d contour fields" % len(pic["fields"]))
            for g, w in zip(pic["fields"][0], (x, y, z)):
                h.eq("field", h.array(g), w.reshape(-1))
            h.true("no-curves", not pic["lines"], "curves in a contour plot")
            logy, fields = False, 1
        else:
            act = h.real("act%d" % rnd, -3, 5, bounded=True)
            P.plot_inverse_param_function(give(a), "eps", act, out, "inv")
            pic = R.picture(h, out + "/inv.png")
            curve(h, pic, a, label="eps")
            h.true("actual-shown", len(pic["levels"]) == 1, "%d horizontal lines" % len(pic["levels"]))
            h.eq("actual-value", [pic["levels"][0]["y"]], [act])
            h.true("actual-label", "eps" in (pic["levels"][0]["label"] or ""), "label %r" % pic["levels"][0]["label"])
            others(h, pic, 1)
            pic = R.picture(h, out + "/inv_absolute_error.png")
            curve(h, pic, [h.abs(v - act) for v in a])
        others(h, pic, levels, fields)
        h.true("scales", pic["scale"] == dict(x="log" if logx else "linear", y="log" if logy else "linear"), "scales %s" % pic["scale"])

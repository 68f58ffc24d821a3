"""error metrics"""
import numpy as np

INFO = dict(
    bounds="arbitrary real solutions of 1..5 values (quick) / 1..8, in one-, two- and three-dimensional arrays, equal or different shapes of equal size; also 300 and 156 values of which every 71st is arbitrary",
    assumptions=["real arithmetic instead of floating point", "the exact solution is not identically zero for the relative errors"],
    jobs=8, concrete=10)


def configs(tier):
    out = [dict(a=(1,), b=(1,)), dict(a=(3,), b=(3,)), dict(a=(2, 1), b=(2, 1)), dict(a=(4, 1), b=(4,)), dict(a=(2, 2), b=(2, 2)),
           dict(a=(5,), b=(5, 1)), dict(a=(1, 2, 2), b=(4, 1)),
           dict(a=(2, 2), b=(2, 2), layout="u"), dict(a=(2, 2), b=(4, 1), layout="e"), dict(a=(2, 3), b=(2, 3), layout="e")]
    # more values than any block the code might have (a few of them arbitrary)
    out += [dict(a=(300,), b=(300, 1), layout="m"), dict(a=(12, 13), b=(12, 13), layout="m")]
    if tier != "quick":
        out += [dict(a=(6,), b=(6,)), dict(a=(7, 1), b=(7,)), dict(a=(2, 4), b=(8,)), dict(a=(3, 2), b=(2, 3))]
    return out


def body(h, a, b, layout=""):
    m = h.module("utils.compute_utils")
    # stored row by row or column by column
    new = lambda name, s, f: h.reals(name, s[::-1]).T if f else h.reals(name, s)
    if layout == "m":
        from .c16 import mixed
        new = lambda name, s, f: mixed(h, name, s, 71)
    e, u = new("e", a, "e" in layout), new("u", b, "u" in layout)
    E, U = list(e.reshape(-1)), list(u.reshape(-1))
    n = len(E)
    d = [x - y for x, y in zip(E, U)]
    ab = lambda v: h.abs(v)
    sq = lambda v: sum(x * x for x in v) / n
    l1 = lambda v: sum(ab(x) for x in v) / n
    h.assume(sq(E) > 0)
    big = max([abs(float(x)) for x in E + U] + [0.0]) if not h.symbolic else 1.0
    m1, m2 = dict(mag=big), dict(mag=big * big)
    near = 1e-12 * big
    num = lambda x: np.asarray(x, dtype=object).reshape(-1)[0]

    def l2(tag, r):
        h.le(tag + "-nonnegative", 0, r)
        h.eq(tag, [r * r], [sq(d)], **m2)

    def linf(tag, r):
        for x in d:
            h.le(tag + "-bounds-every-difference", ab(x), r)
        h.some(tag + "-is-attained", [h.all([r <= ab(x) + near, ab(x) <= r + near]) for x in d], "the maximum is not attained")

    def rl2(tag, r):
        h.le(tag + "-nonnegative", 0, r)
        h.eq(tag, [r * r * sq(E)], [sq(d)], **m2)

    def rl1(tag, r):
        h.eq(tag, [r * l1(E)], [l1(d)], **m1)

    def rlinf(tag, r):
        # r * max|e| = max|d|: compared through the maxima the code's own L-infinity error returns
        z = h.array(np.zeros(a))
        me, md = num(m.compute_linf_error(e, z)), num(m.compute_linf_error(e, u))
        h.eq(tag, [r * me], [md], **m1)
    R = [num(m.compute_l2_error(e, u)), num(m.compute_linf_error(e, u)), num(m.compute_l2_error_relative(e, u)),
         num(m.compute_linf_error_relative(e, u)), num(m.compute_l1_error(e, u)), num(m.compute_l1_error_relative(e, u))]
    before = [list(E), list(U)]
    chk = [("l2", l2), ("linf", linf), ("relative-l2", rl2), ("relative-linf", rlinf),
           ("l1", lambda t, r: h.eq(t, [r], [l1(d)], **m1)), ("relative-l1", rl1)]
    for (t, f), r in zip(chk, R):
        f(t, r)
    C = m.compute_errors_combined(e, u)
    h.true("combined-count", len(C) == 6, "%d combined errors" % len(C))
    for (t, f), r in zip(chk, C):
        f("combined-" + t, num(r))
    h.eq("inputs-untouched", h.array(list(e.reshape(-1)) + list(u.reshape(-1))), h.array(before[0] + before[1]))

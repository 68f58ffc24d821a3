"""Symbolic interpreter of TensorFlow graphs.

The graphs are those TensorFlow itself traces from the current sources; every op is evaluated on
arrays whose entries are exact rational functions (Sym).  Ops met with concrete inputs only and not
listed below are executed by TensorFlow; any other op with symbolic inputs is Unsupported."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
import tensorflow as tf
from . import symcore as sc
from . import symnumpy as sn
from .symcore import Sym, SymBool, Unsupported, CTX

_KIND = {tf.float64: "f8", tf.float32: "f4", tf.float16: "f2"}


def issym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def S(x):
    """array usable in arithmetic with symbols"""
    if issym(x):
        return x.view(sn.SymArray)
    x = np.asarray(x)
    return x


def arr(r):
    """normalise a result to an ndarray"""
    if isinstance(r, (Sym, SymBool)):
        return sn.sarr(r)
    if isinstance(r, np.ndarray):
        return r
    return np.asarray(r)


def O(x):
    """object array view of anything (exact entries)"""
    if issym(x):
        return x.view(sn.SymArray)
    return sn.sarr(np.asarray(x))


def any_sym(xs):
    return any(issym(x) and sn.has_sym(x) for x in xs)


def attr(op, n, default=None):
    try:
        return op.get_attr(n)
    except ValueError:
        return default


FUNCTIONS = set()     # repository functions whose graphs were interpreted


def note_function(f):
    import os
    from .loader import REPO
    c = getattr(f, "__code__", None)
    if c is not None and c.co_filename.startswith(REPO + os.sep):
        FUNCTIONS.add("%s:%s" % (os.path.relpath(c.co_filename, REPO), getattr(c, "co_qualname", c.co_name)))


# ------------------------------------------------------------------ ops
OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def _bin(name, f):
    OPS[name] = lambda o, a, b: arr(f(S(a) if issym(a) or issym(b) else a, S(b) if issym(a) or issym(b) else b))


def _numeric(f):
    def g(a, b):
        if issym(a) or issym(b):
            return f(O(a), O(b))
        return f(a, b)
    return g


for _n, _f in {
    "Mul": lambda a, b: a * b, "Add": lambda a, b: a + b, "AddV2": lambda a, b: a + b,
    "Sub": lambda a, b: a - b, "RealDiv": lambda a, b: a / b,
    "SquaredDifference": lambda a, b: (a - b) * (a - b),
    "Maximum": np.maximum, "Minimum": np.minimum, "FloorMod": np.mod, "FloorDiv": np.floor_divide,
    "Greater": lambda a, b: a > b, "GreaterEqual": lambda a, b: a >= b, "Less": lambda a, b: a < b,
    "LessEqual": lambda a, b: a <= b, "Equal": lambda a, b: a == b, "NotEqual": lambda a, b: a != b,
    "LogicalAnd": np.logical_and, "LogicalOr": np.logical_or,
    "Xdivy": lambda a, b: a / b,
}.items():
    _bin(_n, _numeric(_f))


@op("Div")
def _div(o, a, b):
    if o.outputs[0].dtype.is_floating:
        return OPS["RealDiv"](o, a, b)
    raise Unsupported("integer Div")


@op("DivNoNan", "MulNoNan")
def _nonan(o, a, b):
    raise Unsupported(o.type)


@op("Pow")
def _pow(o, a, b):
    if not (issym(a) or issym(b)):
        return np.power(a, b)
    a, b = np.broadcast_arrays(O(a).view(np.ndarray), O(b).view(np.ndarray))
    return sn._fill([x ** y if isinstance(x, Sym) or isinstance(y, Sym) else float(x) ** float(y)
                     for x, y in zip(a.reshape(-1), b.reshape(-1))], a.shape)


def _un(name, npname=None, f=None):
    g = f or (lambda x: sn.ew1(npname)(x))

    def h(o, a):
        return arr(g(O(a)) if issym(a) else np.asarray(getattr(np, npname)(a) if npname else g(a)))
    OPS[name] = h


for _n, _np in {"Neg": "negative", "Sqrt": "sqrt", "Exp": "exp", "Log": "log", "Sin": "sin", "Cos": "cos",
                "Tanh": "tanh", "Abs": "absolute", "Sign": "sign", "Floor": "floor", "Ceil": "ceil",
                "Square": "square", "Tan": "tan", "Sinh": "sinh", "Cosh": "cosh", "Atan": "arctan",
                "LogicalNot": "logical_not", "Reciprocal": "reciprocal", "Log1p": "log1p", "Expm1": "expm1"}.items():
    _un(_n, _np)
_un("Inv", "reciprocal")


def ew(f):
    """elementwise over an object array"""
    def g(a):
        a = O(a)
        return sn._fill([f(e) for e in a.reshape(-1).view(np.ndarray)], a.shape)
    return g


def _sigmoid(x):
    if isinstance(x, Sym):
        return sc.sym_fun("sigmoid", x)
    return 1.0 / (1.0 + math.exp(-x))


_SG = ew(_sigmoid)
OPS["Sigmoid"] = lambda o, a: _SG(a)
OPS["TanhGrad"] = lambda o, y, dy: arr(O(dy) * (1 - O(y) * O(y)))
OPS["SigmoidGrad"] = lambda o, y, dy: arr(O(dy) * O(y) * (1 - O(y)))
OPS["SqrtGrad"] = lambda o, y, dy: arr(O(dy) / (2 * O(y)))
OPS["RsqrtGrad"] = lambda o, y, dy: arr(O(dy) * O(y) * O(y) * O(y) * Fraction(-1, 2))
OPS["ReciprocalGrad"] = OPS["InvGrad"] = lambda o, y, dy: arr(-O(dy) * O(y) * O(y))
OPS["Rsqrt"] = lambda o, a: arr(1 / sn.ew1("sqrt")(O(a)))
_RELU = ew(lambda x: sc.sym_max([x, 0.0], "max") if isinstance(x, Sym) else max(x, 0.0))
OPS["Relu"] = lambda o, a: _RELU(a)


@op("ReluGrad")
def _relugrad(o, g, x):
    g, x = O(g), O(x)
    return sn._fill([a if bool(b > 0) else 0.0 for a, b in zip(g.reshape(-1).view(np.ndarray),
                                                             x.reshape(-1).view(np.ndarray))], g.shape)


@op("Softmax")
def _softmax(o, a):
    e = sn.ew1("exp")(O(a))
    return arr(e / e.sum(axis=-1, keepdims=True))


@op("Identity", "StopGradient", "PreventGradient", "CheckNumerics", "Snapshot", "EnsureShape")
def _identity(o, a, *r):
    return a


@op("IdentityN")
def _identityn(o, *xs):
    return list(xs)


# ---- lists of tensors and optional tensors (what loops and branches keep for their gradients)
class TList:
    shape = ()

    def __init__(self, items, kind=None, element=None):
        self.items, self.kind, self.element = list(items), kind, element


class TOptional:
    shape = ()

    def __init__(self, items):
        self.items = items


def _list_item(l, i, shape, dtype):
    if not 0 <= i < len(l.items):
        raise Unsupported("entry %d of a list of %d" % (i, len(l.items)))
    x = l.items[i]
    if x is None:
        sh = [int(d) for d in np.asarray(shape).reshape(-1)]
        if -1 in sh:
            raise Unsupported("entry of unknown shape")
        x = np.zeros(sh, dtype=dtype.as_numpy_dtype)
    return x


@op("EmptyTensorList")
def _tl_empty(o, shape, most):
    return TList([])


@op("TensorListReserve")
def _tl_reserve(o, shape, n):
    return TList([None] * int(n))


@op("TensorListPushBack")
def _tl_push(o, l, x):
    return TList(l.items + [x])


@op("TensorListPopBack")
def _tl_pop(o, l, shape):
    return [TList(l.items[:-1]), _list_item(l, len(l.items) - 1, shape, o.outputs[1].dtype)]


@op("TensorListGetItem")
def _tl_get(o, l, i, shape):
    return _list_item(l, int(i), shape, o.outputs[0].dtype)


@op("TensorListSetItem")
def _tl_set(o, l, i, x, *r):
    a = list(l.items)
    a[int(i)] = x
    return TList(a)


@op("TensorListLength")
def _tl_length(o, l):
    return np.array(len(l.items), dtype=np.int32)


@op("TensorListResize")
def _tl_resize(o, l, n):
    return TList((l.items + [None] * int(n))[:int(n)])


@op("TensorListFromTensor")
def _tl_from(o, a, shape):
    return TList([a[i] if a.ndim > 1 else a[i:i + 1].reshape(()) for i in range(a.shape[0])])


@op("TensorListElementShape")
def _tl_shape(o, l):
    x = next((x for x in l.items if x is not None), None)
    return np.array(-1 if x is None else x.shape, dtype=o.outputs[0].dtype.as_numpy_dtype)


def _stacked(o, l, shape, cat=False):
    known = next((x.shape for x in l.items if x is not None), shape)
    xs = [_list_item(l, i, known, o.outputs[0].dtype) for i in range(len(l.items))]
    if not xs:
        raise Unsupported("empty list of tensors")
    if any(issym(x) for x in xs):
        flat = [v for x in xs for v in O(x).view(np.ndarray).reshape(-1)]
        return sn._fill(flat, (len(xs),) + tuple(xs[0].shape))
    return np.stack(xs)


@op("TensorListStack")
def _tl_stack(o, l, shape):
    return _stacked(o, l, shape)


@op("TensorListGather")
def _tl_gather(o, l, idx, shape):
    return _stacked(o, TList([l.items[int(i)] for i in np.asarray(idx).reshape(-1)]), shape)


@op("OptionalFromValue")
def _opt_from(o, *xs):
    return TOptional(list(xs))


@op("OptionalNone")
def _opt_none(o):
    return TOptional(None)


@op("OptionalHasValue")
def _opt_has(o, x):
    return np.array(x.items is not None)


@op("OptionalGetValue")
def _opt_get(o, x):
    if x.items is None:
        raise Unsupported("value of an empty optional")
    return list(x.items)


@op("ZerosLike")
def _zl(o, a):
    if isinstance(a, TList):
        return TList([None if x is None else np.zeros(x.shape) for x in a.items])
    if isinstance(a, TOptional):
        return TOptional(a.items and [np.zeros(x.shape) for x in a.items])
    return np.zeros(a.shape, dtype=o.outputs[0].dtype.as_numpy_dtype)


@op("OnesLike")
def _ol(o, a):
    return np.ones(a.shape, dtype=o.outputs[0].dtype.as_numpy_dtype)


@op("Fill")
def _fillop(o, dims, v):
    if issym(v):
        return sn._fill([v.reshape(-1)[0]] * int(np.prod(dims)), tuple(int(d) for d in dims))
    return np.full(tuple(int(d) for d in dims), v)


@op("Shape")
def _shape(o, a):
    return np.array(a.shape, dtype=o.outputs[0].dtype.as_numpy_dtype)


@op("ShapeN")
def _shapen(o, *xs):
    return [np.array(a.shape, dtype=o.outputs[0].dtype.as_numpy_dtype) for a in xs]


@op("Size")
def _size(o, a):
    return np.array(a.size, dtype=o.outputs[0].dtype.as_numpy_dtype)


@op("Rank")
def _rank(o, a):
    return np.array(a.ndim, dtype=np.int32)


@op("Reshape")
def _reshape(o, a, s):
    return a.reshape(tuple(int(x) for x in np.asarray(s).reshape(-1)))


@op("ExpandDims")
def _expand(o, a, d):
    d = int(d)
    return np.expand_dims(a, d).view(type(a))


@op("Squeeze")
def _squeeze(o, a):
    dims = attr(o, "squeeze_dims") or None
    return np.squeeze(a.view(np.ndarray), tuple(dims) if dims else None).view(type(a))


@op("Transpose")
def _transpose(o, a, p):
    return a.transpose([int(x) for x in p])


@op("Pack")
def _pack(o, *xs):
    ax = attr(o, "axis", 0)
    return _join(np.stack, xs, ax)


def _join(f, xs, ax):
    if any(issym(x) for x in xs):
        return f([O(x).view(np.ndarray) for x in xs], axis=ax).view(sn.SymArray)
    return f(list(xs), axis=ax)


@op("Unpack")
def _unpack(o, a):
    ax = attr(o, "axis", 0)
    m = np.moveaxis(a.view(np.ndarray), ax, 0)
    return [arr0(m[i], a) for i in range(m.shape[0])]


def arr0(x, like):
    """sub-array with the class of `like`, scalars kept as 0-d arrays"""
    if issym(like):
        if not isinstance(x, np.ndarray):
            return sn.sarr(x)
        return x.view(sn.SymArray)
    return np.asarray(x)


@op("ConcatV2")
def _concat(o, *xs):
    return _join(np.concatenate, xs[:-1], int(xs[-1]))


@op("Concat")
def _concat1(o, *xs):
    return _join(np.concatenate, xs[1:], int(xs[0]))


@op("Split")
def _split(o, d, a):
    n = attr(o, "num_split")
    return [x.view(type(a)) for x in np.split(a.view(np.ndarray), n, axis=int(d))]


@op("SplitV")
def _splitv(o, a, sizes, d):
    idx = np.cumsum([int(s) for s in sizes])[:-1]
    return [x.view(type(a)) for x in np.split(a.view(np.ndarray), idx, axis=int(d))]


@op("Slice")
def _slice(o, a, b, s):
    ix = tuple(slice(int(i), None if int(n) < 0 else int(i) + int(n)) for i, n in zip(b, s))
    return a[ix]


def _ss_index(o, begin, end, strides):
    bm, em, el, nm, sm = (attr(o, n, 0) for n in ("begin_mask", "end_mask", "ellipsis_mask", "new_axis_mask",
                                                  "shrink_axis_mask"))
    ix = []
    for i in range(len(begin)):
        if el >> i & 1:
            ix.append(Ellipsis)
        elif nm >> i & 1:
            ix.append(None)
        elif sm >> i & 1:
            ix.append(int(begin[i]))
        else:
            ix.append(slice(None if bm >> i & 1 else int(begin[i]), None if em >> i & 1 else int(end[i]),
                            int(strides[i])))
    return tuple(ix)


@op("StridedSlice")
def _ss(o, a, b, e, s):
    return arr0(a.view(np.ndarray)[_ss_index(o, b, e, s)], a)


@op("StridedSliceGrad")
def _ssg(o, shape, b, e, s, dy):
    z = np.empty(tuple(int(x) for x in shape), dtype=object)
    z.fill(0.0)
    z[_ss_index(o, b, e, s)] = O(dy).view(np.ndarray)
    return z.view(sn.SymArray)


@op("GatherV2", "Gather", "ResourceGather")
def _gather(o, a, i, ax=0):
    if attr(o, "batch_dims", 0):
        raise Unsupported("batched gather")
    return arr0(np.take(a.view(np.ndarray), np.asarray(i), axis=int(ax)), a)


@op("GatherNd")
def _gathernd(o, a, i):
    i = np.asarray(i)
    return arr0(a.view(np.ndarray)[tuple(np.moveaxis(i, -1, 0))], a)


@op("Tile")
def _tile(o, a, m):
    return np.tile(a.view(np.ndarray), [int(x) for x in m]).view(type(a))


@op("BroadcastTo")
def _bto(o, a, s):
    return np.array(np.broadcast_to(a.view(np.ndarray), tuple(int(x) for x in s))).view(type(a))


@op("BroadcastGradientArgs")
def _bga(o, a, b):
    a, b = [int(x) for x in a], [int(x) for x in b]
    n = max(len(a), len(b))
    a1, b1 = [1] * (n - len(a)) + a, [1] * (n - len(b)) + b
    ra, rb = [], []
    for i in range(n):
        if a1[i] == b1[i]:
            if a1[i] == 1:
                ra.append(i)
                rb.append(i)
        elif a1[i] == 1:
            ra.append(i)
        elif b1[i] == 1:
            rb.append(i)
    return [np.array(ra, dtype=np.int32), np.array(rb, dtype=np.int32)]


def _axes(a, ax):
    return tuple(sorted({int(x) % max(a.ndim, 1) for x in np.asarray(ax).reshape(-1)}))


def _reduce(o, a, ax, f):
    keep = bool(attr(o, "keep_dims", False))
    axes = _axes(a, ax)
    if not axes or a.ndim == 0:
        return a
    return arr(f(a, axes, keep))


def osum(a, axes, keep):
    if issym(a):
        r = np.add.reduce(a.view(np.ndarray), axis=axes, keepdims=keep, dtype=object, initial=0) \
            if a.size == 0 else np.sum(a.view(np.ndarray), axis=axes, keepdims=keep)
        return sn.sarr(r)
    return np.asarray(np.sum(a, axis=axes, keepdims=keep))


@op("Sum")
def _sum(o, a, ax):
    return _reduce(o, a, ax, osum)


@op("Mean")
def _mean(o, a, ax):
    def f(a, axes, keep):
        n = int(np.prod([a.shape[i] for i in axes]))
        return O(osum(a, axes, keep)) / n if issym(a) else np.asarray(np.mean(a, axis=axes, keepdims=keep))
    return _reduce(o, a, ax, f)


@op("Prod")
def _prod(o, a, ax):
    if issym(a):
        return _reduce(o, a, ax, lambda a, axes, keep: sn.sarr(np.multiply.reduce(a.view(np.ndarray), axis=axes, keepdims=keep)))
    return _reduce(o, a, ax, lambda a, axes, keep: np.prod(a, axis=axes, keepdims=keep, dtype=a.dtype))


@op("Max", "Min")
def _maxop(o, a, ax):
    if not issym(a):
        f = np.max if o.type == "Max" else np.min
        return _reduce(o, a, ax, lambda a, axes, keep: f(a, axis=axes, keepdims=keep))

    def f(a, axes, keep):
        rest = [i for i in range(a.ndim) if i not in axes]
        m = a.view(np.ndarray).transpose(rest + list(axes))
        sh = m.shape[:len(rest)]
        m = m.reshape(int(np.prod(sh)) if sh else 1, -1)
        r = sn._fill([sn._maxmin(list(x), o.type.lower()) for x in m], sh)
        return r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)]) if keep else r
    return _reduce(o, a, ax, f)


@op("All", "Any")
def _all(o, a, ax):
    if issym(a):
        raise Unsupported(o.type)
    return _reduce(o, a, ax, lambda a, axes, keep: (np.all if o.type == "All" else np.any)(a, axis=axes, keepdims=keep))


def omatmul(a, b):
    """matrix product of object arrays, skipping zeros"""
    a, b = O(a).view(np.ndarray), O(b).view(np.ndarray)
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:]).reshape((-1,) + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:]).reshape((-1,) + b.shape[-2:])
    n, m, k = a.shape[1], b.shape[2], a.shape[2]
    if b.shape[1] != k:
        raise ValueError("matmul shapes")
    out = np.empty((a.shape[0], n, m), dtype=object)
    for t in range(a.shape[0]):
        for i in range(n):
            for j in range(m):
                s = 0.0
                for q in range(k):
                    x, y = a[t, i, q], b[t, q, j]
                    if (not isinstance(x, Sym) and x == 0) or (not isinstance(y, Sym) and y == 0):
                        continue
                    p = x * y
                    s = p if isinstance(s, float) and s == 0.0 else s + p
                out[t, i, j] = s
    return out.reshape(lead + (n, m)).view(sn.SymArray)


def _mm(a, b, ta, tb):
    if ta:
        a = np.swapaxes(a.view(np.ndarray), -1, -2)
    if tb:
        b = np.swapaxes(b.view(np.ndarray), -1, -2)
    if issym(a) or issym(b):
        return omatmul(a, b)
    return np.matmul(a, b)


OPS["MatMul"] = lambda o, a, b: _mm(a, b, attr(o, "transpose_a"), attr(o, "transpose_b"))
OPS["BatchMatMulV2"] = OPS["BatchMatMul"] = OPS["BatchMatMulV3"] = \
    lambda o, a, b: _mm(a, b, attr(o, "adj_x"), attr(o, "adj_y"))


@op("Einsum")
def _einsum(o, *xs):
    eq = attr(o, "equation")
    eq = eq.decode() if isinstance(eq, bytes) else eq
    if any(issym(x) for x in xs):
        return arr(sn.fn_einsum(eq, *[O(x) for x in xs]))
    return np.einsum(eq, *xs)


@op("BiasAdd")
def _biasadd(o, a, b):
    return arr(O(a) + O(b))


@op("BiasAddGrad")
def _biasaddgrad(o, g):
    return osum(O(g), tuple(range(g.ndim - 1)), False)


@op("AddN", "AccumulateNV2")
def _addn(o, *xs):
    if any(isinstance(x, TList) for x in xs):
        out = []
        for ys in zip(*[x.items for x in xs]):
            ys = [y for y in ys if y is not None]
            out.append(_addn(o, *ys) if ys else None)
        return TList(out)
    if not any(issym(x) for x in xs):
        return sum(xs[1:], xs[0])
    r = O(xs[0])
    for x in xs[1:]:
        r = r + O(x)
    return arr(r)


@op("Select", "SelectV2")
def _select(o, c, a, b):
    if not (issym(c) or issym(a) or issym(b)):
        return np.where(c, a, b)
    c, a, b = np.broadcast_arrays(O(c).view(np.ndarray), O(a).view(np.ndarray), O(b).view(np.ndarray))
    return sn._fill([x if bool(q) else y for q, x, y in zip(c.reshape(-1), a.reshape(-1), b.reshape(-1))], c.shape)


@op("Cast", "Bitcast")
def _cast(o, a):
    src, dst = o.inputs[0].dtype, o.outputs[0].dtype
    return cast(a, src, dst)


RANK = {tf.float16: 0, tf.bfloat16: 0, tf.float32: 1, tf.float64: 2}


def cast(a, src, dst):
    if not issym(a):
        return np.asarray(a).astype(dst.as_numpy_dtype)
    if dst in RANK and src in RANK:
        if RANK[dst] >= RANK[src]:
            return a
        k = _KIND.get(dst, "f2")
        return sn._fill([sn.cast_scalar(e, k) for e in a.reshape(-1).view(np.ndarray)], a.shape)
    if dst in RANK:
        return sn._fill([e.as_sym() if isinstance(e, SymBool) else e for e in a.reshape(-1).view(np.ndarray)], a.shape)
    if dst.is_integer and src.is_integer:
        return a
    raise Unsupported("cast of symbolic values to %s" % dst)


@op("Pad", "PadV2")
def _pad(o, a, p, v=0.0):
    return np.pad(a.view(np.ndarray), [(int(x), int(y)) for x, y in p], constant_values=0.0).view(type(a))


@op("ReverseV2")
def _rev(o, a, ax):
    return np.flip(a.view(np.ndarray), tuple(int(x) for x in ax)).view(type(a))


@op("Cumsum")
def _cumsum(o, a, ax):
    if attr(o, "exclusive") or attr(o, "reverse"):
        raise Unsupported("cumsum variant")
    return np.cumsum(a.view(np.ndarray), axis=int(ax)).view(type(a))


@op("MatrixDiagV3", "MatrixDiag")
def _mdiag(o, a, *r):
    if a.ndim != 1:
        raise Unsupported("batched diag")
    z = np.empty((a.size, a.size), dtype=object)
    z.fill(0.0)
    for i in range(a.size):
        z[i, i] = a.view(np.ndarray)[i]
    return z.view(sn.SymArray)


@op("InvertPermutation")
def _invperm(o, p):
    return np.argsort(p).astype(p.dtype)


@op("L2Loss")
def _l2(o, a):
    r = 0.0
    for x in O(a).view(np.ndarray).reshape(-1):
        r = r + x * x
    return arr(np.asarray(r, dtype=object) / 2)


for _n, _f in (("IsFinite", np.isfinite), ("IsNan", np.isnan), ("IsInf", np.isinf)):
    # symbols stand for real numbers
    OPS.setdefault(_n, lambda o, a, _n=_n, _f=_f: np.full(a.shape, _n == "IsFinite") if issym(a) else _f(a))


@op("UnsortedSegmentSum")
def _uss(o, data, ids, n):
    data = O(data).view(np.ndarray)
    ids = np.asarray(ids)
    tail = data.shape[ids.ndim:]
    z = np.empty((int(n),) + tail, dtype=object)
    z.fill(0.0)
    d = data.reshape((-1,) + tail)
    for k, i in enumerate(ids.reshape(-1)):
        if i >= 0:
            z[i] = z[i] + d[k]
    return z.view(sn.SymArray)


SKIP = {"NoOp", "PrintV2", "StringFormat", "Assert", "AssertV2", "ControlTrigger"}


class Interp:
    """evaluate tensors of one FuncGraph; feeds: tensor name -> array"""

    def __init__(self, graph, feeds, const_map=None, variables=None, parent=None, rounding=True):
        self.rounding = rounding
        self.pos = []
        self.after = 0
        self.graph = graph
        self.feeds = feeds
        self.const_map = const_map or {}
        self.int_map = parent.int_map if parent else {}
        self.variables = variables if variables is not None else {}
        self.val = {}
        self.parent = parent
        self.assigned = parent.assigned if parent else []

    def update_at(self, pos):
        """variables move to their next version at op index pos (creation order is program order)"""
        self.index = {o.name: i for i, o in enumerate(self.graph.get_operations())}
        self.pos.append(pos)

    def version(self, o):
        """number of optimizer updates before this op"""
        if not self.pos:
            return self.after
        i = self.index.get(o.name, 0)
        return self.after + sum(1 for p in self.pos if i >= p)

    # -- constants carrying harness inputs: every float entry is looked up by value
    def const(self, a):
        a = np.asarray(a)
        if self.int_map and a.dtype.kind in "if" and a.size == 1 and float(a.reshape(-1)[0]) in self.int_map:
            return sn._fill([self.int_map[float(a.reshape(-1)[0])]], a.shape)
        if not self.const_map or a.dtype.kind != "f" or a.size == 0:
            return a
        flat = a.reshape(-1)
        hit = [self.const_map.get(float(v)) for v in flat]
        if not any(h is not None for h in hit):
            return a
        return sn._fill([h if h is not None else float(v) for h, v in zip(hit, flat)], a.shape)

    def get(self, t):
        stack = [t]
        while stack:
            u = stack[-1]
            if u.name in self.val:
                stack.pop()
                continue
            if u.name in self.feeds:
                v = self.feeds[u.name]
                self.val[u.name] = v if isinstance(v, (Cell, Handle, TList, TOptional)) or issym(v) else self.const(v)
                stack.pop()
                continue
            o = u.op
            need = [i for i in o.inputs if i.name not in self.val]
            # stateful order: variable reads happen before any write we model (writes are recorded only)
            if need:
                stack.extend(need)
                continue
            self.run(o)
            stack.pop()
        return self.val[t.name]

    def run(self, o):
        ins = [self.val[i.name] for i in o.inputs]
        outs = self.eval(o, ins)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        for t, v in zip(o.outputs, outs):
            self.val[t.name] = v

    def eval(self, o, ins):
        ty = o.type
        if ty == "Const":
            from tensorflow.python.framework import tensor_util
            return self.const(tensor_util.MakeNdarray(o.get_attr("value")))
        if ty in ("PartitionedCall", "StatefulPartitionedCall"):
            return self.call(o, ins)
        if ty in CONTROL:
            return self.control(o, ins)
        if ty == "ReadVariableOp":
            h = ins[0]
            if not isinstance(h, Handle):
                raise Unsupported("read of an unknown variable")
            return h.now(self.version(o))
        if ty in SKIP:
            return []
        if ty in ("Placeholder", "PlaceholderWithDefault"):
            raise Unsupported("graph input %s has no value" % o.name)
        if ty == "VarHandleOp":
            raise Unsupported("variable created inside the graph")
        if ty == "Cast" and self.rounding is not True and o.outputs[0].dtype in RANK and issym(ins[0]):
            # rounding: False, or the set of types rounding to which is modelled
            if not self.rounding or _KIND.get(o.outputs[0].dtype, "f2") not in self.rounding:
                return ins[0]
        f = OPS.get(ty)
        if f is not None and ty in ALWAYS or f is not None and not all(
                isinstance(x, np.ndarray) and not issym(x) for x in ins):
            return f(o, *ins)
        if f is not None:
            try:
                return f(o, *ins)
            except Unsupported:
                pass
        if any(isinstance(x, Handle) for x in ins):
            raise Unsupported("op %s on a variable" % ty)
        if any_sym(ins):
            raise Unsupported("tensorflow op %s on symbolic values" % ty)
        return self.native(o, ins)

    def call(self, o, ins):
        return self.function(o, o.get_attr("f").name, ins)

    def function(self, o, name, ins):
        g = function_graph(self.graph, name, o.graph)
        sub = Interp(g, {t.name: v for t, v in zip(g.inputs, ins)}, self.const_map, self.variables, parent=self,
                     rounding=self.rounding)
        sub.after = self.version(o)
        return [sub.get(t) for t in g.outputs]

    def truth(self, v):
        """a condition as True or False (a symbolic one splits the path)"""
        v = np.asarray(v).reshape(-1)
        if v.size != 1:
            raise Unsupported("condition with %d entries" % v.size)
        return bool(v[0] != 0) if isinstance(v[0], Sym) else bool(v[0])

    def control(self, o, ins):
        if o.type in ("If", "StatelessIf"):
            br = "then_branch" if self.truth(ins[0]) else "else_branch"
            return self.function(o, o.get_attr(br).name, ins[1:])
        if o.type in ("Case", "StatelessCase"):
            n = [f.name for f in o.get_attr("branches")]
            i = [k for k in range(len(n) - 1) if self.truth(np.asarray(ins[0]).reshape(-1)[0] == k)]
            return self.function(o, n[i[0] if i else -1], ins[1:])
        for _ in range(1000):
            c = self.function(o, o.get_attr("cond").name, ins)
            if not self.truth(c[0]):
                return ins
            ins = self.function(o, o.get_attr("body").name, ins)
        raise Unsupported("loop of more than 1000 rounds")

    def native(self, o, ins):
        """an op on concrete inputs, executed by tensorflow"""
        ins = [np.array([float(v) for v in x.reshape(-1)]).reshape(x.shape) if issym(x) else x for x in ins]
        with tf.init_scope():
            from tensorflow.python.eager import execute
            attrs = []
            for k in o.node_def.attr:
                if k.startswith("_"):
                    continue
                v = o.get_attr(k)
                if isinstance(v, tf.DType):
                    v = v.as_datatype_enum
                elif isinstance(v, list) and v and isinstance(v[0], tf.DType):
                    v = [d.as_datatype_enum for d in v]
                attrs += [k, v]
            ts = [tf.constant(x, dtype=t.dtype) for x, t in zip(ins, o.inputs)]
            from tensorflow.python.eager import context
            r = execute.execute(bytes(o.type, "ascii"), len(o.outputs), inputs=ts, attrs=tuple(attrs),
                                ctx=context.context())
        return [x.numpy() for x in r]


class Cell:
    """a resource whose value changes while the graph runs"""
    shape = ()

    def __init__(self, value):
        self.value = value


class Stateful(Interp):
    """every op of the graph in program order, with variable assignments carried out"""

    def run_all(self):
        done = set()
        for first in self.graph.get_operations():
            # creation order, except that what an op takes in comes first (differentiation adds inputs later)
            stack = [first]
            while stack:
                o = stack[-1]
                if o.name in done:
                    stack.pop()
                    continue
                need = [i.op for i in o.inputs if i.op.name not in done]
                if need:
                    stack.extend(reversed(need))
                    continue
                done.add(o.name)
                stack.pop()
                self.run_one(o)
        return self

    def run_one(self, o):
        if o.type in ("Placeholder", "PlaceholderWithDefault") or o.outputs and all(t.name in self.feeds for t in o.outputs):
            for t in o.outputs:
                if t.name in self.feeds:
                    v = self.feeds[t.name]
                    self.val[t.name] = v if isinstance(v, (Cell, Handle, TList, TOptional)) or issym(v) else self.const(v)
            return
        self.run(o)

    def eval(self, o, ins):
        ty = o.type
        if ty == "ReadVariableOp":
            if isinstance(ins[0], Handle):
                return ins[0].now(self.version(o))
            if not isinstance(ins[0], Cell):
                raise Unsupported("read of an unknown variable")
            return ins[0].value
        if ty in ("AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp"):
            c, v = ins
            if not isinstance(c, (Cell, Handle)):
                raise Unsupported("write of an unknown variable")
            old = c.now(self.version(o)) if isinstance(c, Handle) else c.value
            if ty == "AssignAddVariableOp":
                v = OPS["AddV2"](o, old, v)
            elif ty == "AssignSubVariableOp":
                v = OPS["Sub"](o, old, v)
            if isinstance(c, Handle):
                c.written.append((old, v))
                c.override[self.version(o)] = v
            else:
                c.value = v
            return []
        return super().eval(o, ins)

    def function(self, o, name, ins):
        g = function_graph(self.graph, name, o.graph)
        sub = type(self)(g, {t.name: v for t, v in zip(g.inputs, ins)}, self.const_map, parent=self, rounding=self.rounding)
        sub.run_all()
        return [sub.val[t.name] for t in g.outputs]


class Recording(Stateful):
    """Stateful, with the optimizer's updates recorded: ops named <tag>_grad_<call>_<i> carry gradients,
    <tag>_done_<call> moves the weights (Handle) to their next version"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.tag = self.parent.tag if self.parent else None
        self.log = self.parent.log if self.parent else []

    def version(self, o):
        return len(self.log)

    def run(self, o):
        super().run(o)
        n = o.name.split("/")[-1]
        if self.tag and n.startswith(self.tag):
            kind, call = n[len(self.tag):].split("_")[1:3]
            if kind == "grad":
                self.pending[int(n.split("_")[-1])] = self.val[o.outputs[0].name]
            else:
                self.log.append((int(call), dict(self.pending)))
                self.pending.clear()

    @property
    def pending(self):
        r = self
        while r.parent:
            r = r.parent
        return r.__dict__.setdefault("_pending", {})


CONTROL = {"If", "StatelessIf", "Case", "StatelessCase", "While", "StatelessWhile"}
ALWAYS = {"Cast", "IdentityN", "Identity"}


class Handle:
    """a resource: the symbolic values of a tf.Variable, initially and after each optimizer update"""

    def __init__(self, *versions):
        self.versions = versions
        self.shape = ()
        self.override, self.written = {}, []     # assignments the executed code makes itself

    def now(self, k):
        k = min(k, len(self.versions) - 1)
        return self.override.get(k, self.versions[k])


_fg = {}


def function_graph(graph, name, op_graph):
    for g in (graph, op_graph):
        g2 = g
        while g2 is not None:
            try:
                f = g2._get_function(name)
            except Exception:
                f = None
            if f is not None:
                fg = getattr(f, "graph", None)
                if fg is not None:
                    return fg
                from tensorflow.python.framework import function_def_to_graph as fd
                key = name
                if key not in _fg:
                    d = f.definition if hasattr(f, "definition") else f.function_def
                    _fg[key] = fd.function_def_to_graph(d)
                return _fg[key]
            g2 = getattr(g2, "outer_graph", None)
    raise Unsupported("graph function %s" % name)


# ------------------------------------------------------------------ tensors for the executed code
class SymTensor:
    """what tf.constant(...) returns during symbolic execution"""
    __array_priority__ = 1e10
    _is_sym_tensor = True

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = dtype
        self.shape = tf.TensorShape(a.shape)

    def numpy(self):
        return self.a

    def __array__(self, dtype=None):
        return self.a.view(np.ndarray)

    def get_shape(self):
        return self.shape

    @property
    def ndim(self):
        return self.a.ndim

    def __len__(self):
        return self.a.shape[0]

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def __getitem__(self, i):
        return trace(lambda x: x[i], self)

    def __bool__(self):
        return bool(self.a.reshape(-1)[0])

    def __float__(self):
        return float(self.a.reshape(-1)[0])

    def __deepcopy__(self, memo):
        return SymTensor(self.a.copy(), self.dtype)

    __copy__ = lambda self: SymTensor(self.a, self.dtype)
    __hash__ = object.__hash__

    def __repr__(self):
        return "SymTensor(%s, %s)" % (self.a.shape, self.dtype.name)


def _opm(n):
    import operator
    f = getattr(operator, n)

    def m(self, o):
        return trace(lambda x, y: f(x, y), self, o)

    def r(self, o):
        return trace(lambda x, y: f(y, x), self, o)
    return m, r


for _n in ("add", "sub", "mul", "truediv", "pow", "matmul", "floordiv", "mod"):
    _m, _r = _opm(_n)
    setattr(SymTensor, "__%s__" % _n, _m)
    setattr(SymTensor, "__r%s__" % _n, _r)
for _n in ("lt", "le", "gt", "ge"):
    setattr(SymTensor, "__%s__" % _n, _opm(_n)[0])
SymTensor.__neg__ = lambda self: trace(lambda x: -x, self)
SymTensor.__abs__ = lambda self: trace(lambda x: abs(x), self)


def symbolic_arg(x, depth=0):
    if isinstance(x, (SymTensor, Sym, SymBool, sn.SymArray)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return sn.has_sym(x)
    if depth < 5 and isinstance(x, (list, tuple)):
        return any(symbolic_arg(e, depth + 1) for e in x)
    if depth < 5 and isinstance(x, dict):
        return any(symbolic_arg(e, depth + 1) for e in x.values())
    return False


def trace(fn, *args, **kwargs):
    """run fn (real tensorflow code) on placeholders and interpret the graph it builds"""
    from tensorflow.python.framework.func_graph import FuncGraph
    g = FuncGraph("verif")
    feeds = {}

    def sub(x):
        if isinstance(x, SymTensor):
            t = tf.compat.v1.placeholder(x.dtype, shape=x.a.shape)
            feeds[t.name] = x.a
            return t
        if isinstance(x, (Sym, SymBool)):
            t = tf.compat.v1.placeholder(tf.float64, shape=())
            feeds[t.name] = sn.sarr(x)
            return t
        if isinstance(x, sn.SymArray) or isinstance(x, np.ndarray) and x.dtype == object and sn.has_sym(x):
            t = tf.compat.v1.placeholder(tf.float64, shape=x.shape)
            feeds[t.name] = sn.sarr(x)
            return t
        if isinstance(x, (list, tuple)) and symbolic_arg(x):
            return type(x)(sub(e) for e in x)
        if isinstance(x, dict) and symbolic_arg(x):
            return {k: sub(v) for k, v in x.items()}
        return x
    with g.as_default():
        a = [sub(x) for x in args]
        k = {n: sub(v) for n, v in kwargs.items()}
        r = fn(*a, **k)
    caps = {}
    for ext, inner in g.captures:
        try:
            caps[inner.name] = ext.numpy()
        except Exception:
            pass
    it = Interp(g, {**caps, **feeds})

    def back(x):
        if isinstance(x, tf.Tensor) and hasattr(x, "op") and getattr(x, "graph", None) is g:
            v = it.get(x)
            return SymTensor(v if issym(v) else sn.sarr(v) if x.dtype.is_floating else v, x.dtype)
        if isinstance(x, (list, tuple)):
            return type(x)(back(e) for e in x)
        if isinstance(x, dict):
            return {n: back(v) for n, v in x.items()}
        return x
    return back(r)


def sym_constant(value, dtype=None, shape=None, name=None):
    """tf.constant / tf.convert_to_tensor of symbolic data"""
    if isinstance(value, SymTensor):
        src = value.dtype
        a = value.a
    elif isinstance(value, (list, tuple)) and any(isinstance(v, SymTensor) for v in value):
        t = trace(tf.stack, [sym_constant(v) for v in value])
        src, a = t.dtype, t.a
    else:
        a = sn.sarr(value)
        src = tf.float64
    dtype = src if dtype is None else tf.as_dtype(dtype)
    if dtype not in RANK:
        raise Unsupported("symbolic data as %s" % dtype)
    a = sn._fill([sn.cast_scalar(e, _KIND.get(dtype, "O")) for e in a.reshape(-1).view(np.ndarray)], a.shape)
    if shape is not None:
        a = a.reshape(tuple(shape))
    return SymTensor(a, dtype)

"""numpy for symbolic execution: object arrays of floats / Sym, and a proxy of the numpy module.

Everything not listed here is numpy's own code running on object arrays."""
from __future__ import annotations
import builtins, math, types
from fractions import Fraction
import numpy as np
from .symcore import (ATOMS, Sym, SymBool, CTX, Unsupported, as_sym, is_num, sym_abs, sym_sqrt, sym_max, sym_round, p_const,
                      sym_floor, sym_fun, fun_atom, sand, sor, F1)

_FLOATS = (np.floating,)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, (Sym, SymBool)) for e in x.reshape(-1).view(np.ndarray))
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def deep_symarray(x, depth=0):
    """does a list contain SymArrays / Syms anywhere"""
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if getattr(x, "_is_sym_tensor", False):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(deep_symarray(e, depth + 1) for e in x)
    return False


def kind_of(dtype):
    """'f8', 'f4', 'i', 'b', 'O' or None"""
    if dtype is None:
        return None
    if dtype is builtins.float or dtype in (SymFloat, np.float64, np.double, np.longdouble):
        return "f8"
    if dtype is builtins.int or dtype is SymInt:
        return "i"
    if dtype is builtins.object:
        return "O"
    if isinstance(dtype, type) and issubclass(dtype, F64):
        return "f8"
    d = np.dtype(dtype)
    if d == np.float64 or d == np.longdouble:
        return "f8"
    if d.kind == "f":
        return "f4" if d == np.float32 else "f2"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    return "O"


def cast_scalar(e, k):
    if not isinstance(k, str) or k not in ("f8", "f4", "f2", "i", "b", "O"):
        k = kind_of(k)
    if k in (None, "O"):
        return e
    if isinstance(e, SymBool):
        return e if k == "b" else e.as_sym()
    if isinstance(e, Sym):
        if k == "f8":
            return e
        if k in ("f4", "f2"):
            if e.is_const():
                return float((np.float32 if k == "f4" else np.float16)(float(e)))
            if not e.den and len(e.num) == 1:
                (m, c), = e.num.items()
                a = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                if a is not None and c in (1, -1) and a.fn in ("round_" + k, "round_f2"):
                    return e            # already a number of that type
            return Sym.of_atom(fun_atom("round_" + k, (e,)))
        if k == "i":
            from .symcore import sym_trunc
            return int(e) if e.is_const() else sym_trunc(e)
        if k == "b":
            return e != 0
    if k == "f8":
        return float(e) if not isinstance(e, np.ndarray) else float(e.reshape(-1)[0])
    if k == "f4":
        return float(np.float32(e))
    if k == "f2":
        return float(np.float16(e))
    if k == "i":
        return int(e)
    if k == "b":
        return bool(e)
    return e


class SymArray(np.ndarray):
    __array_priority__ = 1e8

    def __array_finalize__(self, obj):
        pass

    # the advertised dtype stays float64: code may print or compare it
    def astype(self, dtype, *a, **k):
        kd = kind_of(dtype)
        flat = [cast_scalar(e, kd) for e in self.reshape(-1).view(np.ndarray)]
        if kd in ("i", "b") and not any(isinstance(e, (Sym, SymBool)) for e in flat):
            return np.array(flat, dtype=int if kd == "i" else bool).reshape(self.shape)
        return _fill(flat, self.shape)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, _fix_index(idx))
        return np.float64(r) if type(r) is float else r     # an element of a float array is a numpy scalar

    def __setitem__(self, idx, v):
        if isinstance(v, (list, tuple)) and deep_symarray(v):
            v = sarr(v)
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = v.astype(object)
        np.ndarray.__setitem__(self, _fix_index(idx), v)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _unwrap(np.add.reduce(self.view(np.ndarray), axis=axis, keepdims=keepdims, dtype=object)
                       if self.size else np.zeros(()))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else np.prod([self.shape[a] for a in
                                                    (axis if isinstance(axis, tuple) else (axis,))])
        s = self.sum(axis=axis, keepdims=keepdims)
        if isinstance(s, (Sym, SymArray)):
            return s / int(n)
        return s / int(n) if not isinstance(s, float) else s / int(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True)
        d = (self - m)
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return ew1("sqrt")(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def _mm(self, kind, axis=None, keepdims=False):
        a = self.view(np.ndarray)
        if axis is None:
            r = _maxmin(list(a.reshape(-1)), kind)
            return r if not keepdims else _fill([r], (1,) * self.ndim)
        a = np.moveaxis(a, axis, -1)
        r = _fill([_maxmin(list(row), kind) for row in a.reshape(-1, a.shape[-1])], a.shape[:-1])
        return np.expand_dims(r, axis).view(SymArray) if keepdims else _unwrap(r)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._mm("max", axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._mm("min", axis, keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda x, y: x > y)

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda x, y: x < y)

    def all(self, axis=None, **k):
        if axis is None:
            return sand(*[_tb(e) for e in self.reshape(-1).view(np.ndarray)])
        return _reduce_axis(self, axis, lambda r: sand(*[_tb(e) for e in r]))

    def any(self, axis=None, **k):
        if axis is None:
            return sor(*[_tb(e) for e in self.reshape(-1).view(np.ndarray)])
        return _reduce_axis(self, axis, lambda r: sor(*[_tb(e) for e in r]))

    def dot(self, o):
        return np.dot(self, o)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def tolist(self):
        return np.ndarray.tolist(self)

    def round(self, decimals=0, out=None):
        return fn_round(self, decimals)

    def tobytes(self, *a, **k):
        raise Unsupported("bytes of a symbolic array")

    def __float__(self):
        return self.reshape(-1)[0] if self.size == 1 else np.ndarray.__float__(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1).view(np.ndarray)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def sort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            raise Unsupported("in-place sort of a symbolic matrix")
        v = _sorted(list(self.view(np.ndarray)))
        for i, e in enumerate(v):
            np.ndarray.__setitem__(self, i, e)

    def argsort(self, axis=-1, kind=None, order=None):
        return fn_argsort(self, axis)

    def numpy(self):
        return self

    def __repr__(self):
        return "SymArray" + str(self.shape)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


def _tb(e):
    if isinstance(e, (SymBool, bool, np.bool_)):
        return e
    if isinstance(e, Sym):
        return e != 0
    return bool(e)


def _reduce_axis(a, axis, f):
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    return _fill([f(list(r)) for r in m.reshape(-1, m.shape[-1])], m.shape[:-1])


def _arg(a, axis, better):
    m = a.view(np.ndarray)

    def one(row):
        b = 0
        for i in range(1, len(row)):
            if bool(better(row[i], row[b])):
                b = i
        return b
    if axis is None:
        return one(list(m.reshape(-1)))
    m = np.moveaxis(m, axis, -1)
    return np.array([one(list(r)) for r in m.reshape(-1, m.shape[-1])]).reshape(m.shape[:-1])


def _fix_index(idx):
    def one(i):
        if isinstance(i, (Sym,)):
            return int(i)
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            flat = list(i.reshape(-1).view(np.ndarray))
            if flat and all(isinstance(e, (SymBool, bool, np.bool_)) for e in flat):
                return np.array([bool(e) for e in flat], dtype=bool).reshape(i.shape)
            return np.array([int(e) for e in flat], dtype=int).reshape(i.shape)
        if isinstance(i, slice):
            c = lambda v: int(v) if isinstance(v, (Sym, float)) else v
            return slice(c(i.start), c(i.stop), c(i.step))
        if isinstance(i, list) and has_sym(i):
            return [int(e) for e in i]
        return i
    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


def _fill(flat, shape):
    a = np.empty(len(flat), dtype=object)
    for i, e in enumerate(flat):
        a[i] = e
    return a.reshape(shape).view(SymArray)


def _unwrap(r):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            if r.dtype != object:
                return r[()]
            v = r.item()
            return np.float64(v) if type(v) is float else v
        if r.dtype == object:
            return r.view(SymArray)
    return r


def sarr(x, kind="f8"):
    """SymArray from anything array-like"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArray)
        return x.astype(object).view(SymArray)
    if isinstance(x, (Sym, SymBool)) or is_num(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if hasattr(x, "__array__") and not isinstance(x, (list, tuple)):
        return sarr(np.asarray(x))
    if isinstance(x, (map, filter, zip, range)) or isinstance(x, types.GeneratorType):
        x = list(x)
    items = [sarr(e) for e in x]
    if not items:
        return np.empty((0,), dtype=object).view(SymArray)
    sh = items[0].shape
    if any(i.shape != sh for i in items):
        raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
    out = np.empty((len(items),) + sh, dtype=object)
    for i, e in enumerate(items):
        if sh == ():
            out[i] = e.view(np.ndarray)[()]
        else:
            out[i, ...] = e.view(np.ndarray)
    return out.view(SymArray)


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and deep_symarray(x):
        return type(x)(plain(e) for e in x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def rewrap(r):
    if isinstance(r, np.ndarray):
        return _unwrap(r)
    if isinstance(r, tuple):
        return tuple(rewrap(e) for e in r)
    if isinstance(r, list):
        return [rewrap(e) for e in r]
    return r


# ------------------------------------------------------------------ elementwise functions
def _maxmin(vals, kind):
    if any(isinstance(v, Sym) for v in vals):
        return sym_max(vals, kind)
    return (max if kind == "max" else min)(vals)


def _angle(y, x):
    return Angle(y, x) if isinstance(y, Sym) or isinstance(x, Sym) else math.atan2(y, x)


_TWO_PI = 2 * math.pi


class Angle:
    """s * atan2(y, x) + c on symbolic y, x: comparisons are exact half-plane and cross-product tests;
    adding constants, scaling, negation, modulo a full turn and rounding keep that form"""

    def __init__(self, y, x, s=1.0, c=0.0, pos=False):
        # pos: the base angle is taken in [0, 2 pi) instead of (-pi, pi]
        self.y, self.x, self.s, self.c, self.pos = as_sym(y), as_sym(x), float(s), float(c), pos

    def _new(self, s=None, c=None):
        return Angle(self.y, self.x, self.s if s is None else s, self.c if c is None else c, self.pos)

    def half(self):
        if bool(self.y < 0):
            return 3 if self.pos else -1
        if bool(self.y > 0):
            return 1
        return 0 if bool(self.x >= 0) else 2

    def _base_lt(self, o):
        a, b = self.half(), o.half()
        if a != b:
            return a < b
        if a in (0, 2):
            return False
        return self.x * o.y - self.y * o.x > 0

    def _base_eq(self, o):
        a, b = self.half(), o.half()
        if a != b:
            return False
        if a in (0, 2):
            return True
        return self.x * o.y - self.y * o.x == 0

    def _aligned(self, o):
        """(offset of o relative to self as base-angle constants) for angles of one scale"""
        if self.s != o.s or self.pos != o.pos:
            raise Unsupported("comparison of differently transformed angles")
        return (o.c - self.c) / self.s        # self.base < o.base + this  (s > 0)

    def __lt__(self, o):
        if isinstance(o, (QAngle,)):
            raise Unsupported("comparison of rounded and unrounded angles")
        if not isinstance(o, Angle):
            return self._num(float(o), strict=True)
        d = self._aligned(o)
        if abs(d) < 1e-9:
            return self._base_lt(o) if self.s > 0 else o._base_lt(self)
        if abs(d) > _TWO_PI - 1e-9:
            return (d > 0) == (self.s > 0)
        raise Unsupported("comparison of shifted angles")

    def _num(self, v, strict):
        """self < v (strict) or self <= v"""
        t = (v - self.c) / self.s
        lo, hi = (0.0, _TWO_PI) if self.pos else (-math.pi, math.pi)
        if t > hi + 1e-9 or (self.pos and t > hi - 1e-9):
            r = True
        elif t < lo - 1e-9 or (not self.pos and t < lo + 1e-9):
            r = False
        else:
            q = Angle(Sym(p_const(_trig(math.sin(t)))), Sym(p_const(_trig(math.cos(t)))), pos=self.pos)
            pos_strict = strict == (self.s > 0)
            r = self._base_lt(q) if pos_strict else (~_sb(q._base_lt(self)))
        return r if self.s > 0 else (~_sb(r))

    def __gt__(self, o):
        return o.__lt__(self) if isinstance(o, Angle) else ~_sb(self._num(float(o), strict=False))

    def __le__(self, o):
        return ~_sb(o.__lt__(self)) if isinstance(o, Angle) else self._num(float(o), strict=False)

    def __ge__(self, o):
        return ~_sb(self.__lt__(o))

    def __eq__(self, o):
        if not isinstance(o, Angle):
            return NotImplemented
        d = self._aligned(o)
        if abs(d) > 1e-9:
            if abs(d) > _TWO_PI - 1e-9:
                return False
            raise Unsupported("comparison of shifted angles")
        return self._base_eq(o)

    __hash__ = None

    def __neg__(self):
        return self._new(-self.s, -self.c)

    def __pos__(self):
        return self

    @staticmethod
    def _const(v):
        if isinstance(v, Sym) and v.is_const():
            v = v.const()
        if isinstance(v, (Sym, Angle, QAngle)) or not isinstance(v, (int, float, Fraction, np.floating, np.integer)):
            raise Unsupported("arithmetic on a symbolic angle")
        return float(v)

    def __add__(self, v):
        return self._new(c=self.c + self._const(v))

    __radd__ = __add__

    def __sub__(self, v):
        return self._new(c=self.c - self._const(v))

    def __rsub__(self, v):
        return -(self - v)

    def __mul__(self, v):
        v = self._const(v)
        if v == 0:
            return 0.0
        return self._new(self.s * v, self.c * v)

    __rmul__ = __mul__

    def __truediv__(self, v):
        return self * (1.0 / self._const(v))

    def __mod__(self, m):
        m = self._const(m)
        if m <= 0 or abs(m - abs(self.s) * _TWO_PI) > 1e-9 * m:
            raise Unsupported("angle modulo something other than a full turn")
        y = self.y if self.s > 0 else -self.y
        t = (self.c / abs(self.s)) % _TWO_PI
        cs, sn = _trig(math.cos(t)), _trig(math.sin(t))
        return Angle(self.x * sn + y * cs, self.x * cs - y * sn, abs(self.s), 0.0, True)

    def _quant(self, unit, shift, n=None):
        return QAngle(self, unit, shift)

    def __round__(self, n=None):
        n = n or 0
        return self if n >= 6 else QAngle(self, 10.0 ** -n, 0.5)

    def __floor__(self):
        return QAngle(self, 1.0, 0.0)

    def copy(self):
        return self


class QAngle:
    """floor(angle / unit + shift): ordering of rounded angles, bucket by bucket"""

    def __init__(self, a, unit, shift):
        self.a, self.unit, self.shift = a, unit, shift

    def _same(self, o):
        a = self.a
        lo, hi = sorted((a.s * (0.0 if a.pos else -math.pi) + a.c, a.s * (_TWO_PI if a.pos else math.pi) + a.c))
        k0, k1 = math.floor(lo / self.unit + self.shift), math.floor(hi / self.unit + self.shift)
        if k1 - k0 > 700:
            raise Unsupported("rounding of an angle to %d steps" % (k1 - k0))
        # walk to the bucket of the first angle by bisection, then test the second one
        while k0 < k1:
            m = (k0 + k1 + 1) // 2
            if bool(self.a < (m - self.shift) * self.unit):
                k1 = m - 1
            else:
                k0 = m
        lo_ok = ~_sb(o.a < (k0 - o.shift) * o.unit)
        return bool(lo_ok) and bool(o.a < (k0 + 1 - o.shift) * o.unit)

    def __lt__(self, o):
        if not isinstance(o, QAngle) or (self.unit, self.shift) != (o.unit, o.shift):
            raise Unsupported("comparison of a rounded angle")
        return bool(self.a < o.a) and not self._same(o)

    def __gt__(self, o):
        return o.__lt__(self)

    def __le__(self, o):
        return not o.__lt__(self)

    def __ge__(self, o):
        return not self.__lt__(o)

    def __eq__(self, o):
        return not bool(self < o) and not bool(o < self)

    __hash__ = None

    def _no(self, *a):
        raise Unsupported("arithmetic on a rounded angle")

    __add__ = __radd__ = __sub__ = __rsub__ = __mod__ = __neg__ = __pow__ = _no

    def __mul__(self, v):
        return self

    __rmul__ = __truediv__ = __mul__


def _trig(v):
    """sine/cosine values: exact at multiples of a quarter turn"""
    return Fraction(round(v)) if abs(v - round(v)) < 1e-12 else Fraction(v).limit_denominator(10 ** 12)


def _sb(x):
    return x if isinstance(x, SymBool) else _PB(x)


class _PB:
    def __init__(self, b):
        self.b = bool(b)

    def __invert__(self):
        return not self.b


def _round_even(x):
    return sym_round(x, 0)


def _round_el(x, n=0):
    """np.round of one entry"""
    if isinstance(x, SymBool):
        x = x.as_sym()
    if isinstance(x, Sym):
        return sym_round(x, n)
    if isinstance(x, Angle):
        return round(x, n)
    return float(np.round(float(x), n)) if not isinstance(x, (int, np.integer)) or n < 0 else x


def fn_round(a, decimals=0, out=None):
    r = sarr(a)
    n = int(decimals)
    return _unwrap(_fill([_round_el(e, n) for e in r.view(np.ndarray).reshape(-1)], r.shape))


def _sign(x):
    if not isinstance(x, Sym):
        return float(np.sign(x))
    if bool(x > 0):
        return 1.0
    if bool(x < 0):
        return -1.0
    return 0.0


def _s1(symf, numf):
    def f(x):
        if isinstance(x, SymBool):
            x = x.as_sym()
        return symf(x) if isinstance(x, Sym) else numf(x)
    return f


def _npf(name):
    f = getattr(np, name)
    return lambda x: float(f(float(x)))


EW1 = {
    "sqrt": _s1(sym_sqrt, _npf("sqrt")),
    "absolute": _s1(sym_abs, abs), "abs": _s1(sym_abs, abs), "fabs": _s1(sym_abs, abs),
    "square": lambda x: x * x,
    "reciprocal": lambda x: 1.0 / x,
    "negative": lambda x: -x, "positive": lambda x: x, "conjugate": lambda x: x,
    "floor": _s1(sym_floor, _npf("floor")),
    "ceil": _s1(lambda x: -sym_floor(-x), _npf("ceil")),
    "trunc": _s1(lambda x: x.__trunc__(), _npf("trunc")),
    "rint": _s1(_round_even, _npf("rint")),
    "sign": _sign,
    "isfinite": _s1(lambda x: True, lambda x: bool(np.isfinite(x))),
    "isnan": _s1(lambda x: False, lambda x: bool(np.isnan(x))),
    "isinf": _s1(lambda x: False, lambda x: bool(np.isinf(x))),
    "logical_not": lambda x: (~x if isinstance(x, SymBool) else (not bool(x))),
    "invert": lambda x: ~x if isinstance(x, SymBool) else (not x if isinstance(x, (bool, np.bool_)) else ~x),
    "deg2rad": lambda x: x * (math.pi / 180), "rad2deg": lambda x: x * (180 / math.pi),
}
for _n in ("tanh", "sin", "cos", "tan", "exp", "log", "sinh", "cosh", "arctan", "arcsin", "arccos",
           "expm1", "log1p", "log2", "log10", "exp2", "cbrt"):
    EW1[_n] = _s1((lambda nm: lambda x: _mathfun(nm, x))(_n), _npf(_n))


def _mathfun(nm, x):
    if x.is_const():
        return float(getattr(np, nm)(float(x.const())))
    if nm in ("tanh", "sin", "cos"):
        return sym_fun(nm, x)
    return Sym.of_atom(fun_atom(nm, (x,)))


def _pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    return float(np.power(float(a), float(b)))


def _fd(a, b):
    return a // b


EW2 = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: _div(a, b), "true_divide": lambda a, b: _div(a, b),
    "floor_divide": _fd, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "fmod": lambda a, b: a % b,
    "power": _pow, "float_power": _pow,
    "maximum": lambda a, b: _maxmin([a, b], "max"), "minimum": lambda a, b: _maxmin([a, b], "min"),
    "fmax": lambda a, b: _maxmin([a, b], "max"), "fmin": lambda a, b: _maxmin([a, b], "min"),
    "arctan2": lambda a, b: _angle(a, b),
    "hypot": lambda a, b: EW1["sqrt"](a * a + b * b),
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: sand(_tb(a), _tb(b)), "logical_or": lambda a, b: sor(_tb(a), _tb(b)),
    "bitwise_and": lambda a, b: sand(_tb(a), _tb(b)), "bitwise_or": lambda a, b: sor(_tb(a), _tb(b)),
    "logical_xor": lambda a, b: bool(_tb(a)) != bool(_tb(b)),
    "copysign": lambda a, b: EW1["abs"](a) if bool(b >= 0) else -EW1["abs"](a),
}


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    with np.errstate(all="ignore"):
        return float(np.divide(a, b))


def ew1(name):
    g = EW1[name]

    def f(x, *a, **k):
        out = k.get("out")
        if isinstance(x, (Sym, SymBool)) or is_num(x):
            return g(x)
        x = sarr(x)
        r = _fill([g(e) for e in x.reshape(-1).view(np.ndarray)], x.shape)
        return _store(out, r)
    return f


def ew2(name):
    g = EW2[name]

    def f(x, y, *a, **k):
        out = k.get("out")
        xs, ys = sarr(x).view(np.ndarray), sarr(y).view(np.ndarray)
        if xs.ndim == 0 and ys.ndim == 0:
            return _store(out, g(_py(xs[()]), _py(ys[()])))
        X, Y = np.broadcast_arrays(xs, ys)
        r = _fill([g(_py(p), _py(q)) for p, q in zip(X.reshape(-1), Y.reshape(-1))], X.shape)
        return _store(out, r)
    return f


def _py(v):
    return v.item() if isinstance(v, np.generic) else v


def _store(out, r):
    if out is None:
        return _unwrap(r) if isinstance(r, np.ndarray) else r
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if out.dtype != object:
        if has_sym(r):
            raise Unsupported("in-place store of symbolic values into a concrete array")
        out[...] = np.asarray(r, dtype=float)
        return out
    np.ndarray.__setitem__(out.view(np.ndarray), Ellipsis, r.view(np.ndarray) if isinstance(r, SymArray) else r)
    return out


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if any(hasattr(i, "op") and hasattr(i, "graph") for i in inputs):
        return NotImplemented
    if method == "__call__":
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        out = kw.get("out")
        if name == "matmul":
            r = np.matmul(*[plain(sarr(i)) for i in inputs])
            return _store(out, sarr(r) if isinstance(r, np.ndarray) else r)
        if ufunc.nin == 1 and name in EW1:
            return ew1(name)(inputs[0], out=out)
        if ufunc.nin == 2 and name in EW2:
            return ew2(name)(inputs[0], inputs[1], out=out)
        raise Unsupported("numpy ufunc %s on symbolic values" % name)
    a = sarr(inputs[0])
    if method == "reduce":
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        if name == "add":
            return a.sum(axis=axis, keepdims=keep)
        if name in ("maximum", "minimum"):
            return a._mm("max" if name == "maximum" else "min", axis, keep)
        if name == "logical_and":
            return a.all(axis=axis)
        if name == "logical_or":
            return a.any(axis=axis)
        if name == "multiply":
            return _unwrap(np.multiply.reduce(a.view(np.ndarray), axis=axis, keepdims=keep))
    if method == "outer" and name in EW2:
        b = sarr(inputs[1])
        return ew2(name)(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "accumulate" and name in ("add", "multiply"):
        return _unwrap(getattr(np, name).accumulate(a.view(np.ndarray), **{k: v for k, v in kw.items() if k == "axis"}))
    raise Unsupported("numpy ufunc method %s.%s on symbolic values" % (name, method))


# ------------------------------------------------------------------ array functions
def _sorted(v, key=None):
    """stable insertion sort splitting on comparisons"""
    out = []
    for e in v:
        i = len(out)
        while i > 0 and bool(e < out[i - 1]):
            i -= 1
        out.insert(i, e)
    return out


def fn_argsort(a, axis=-1, kind=None, order=None):
    a = sarr(a)
    if a.ndim == 1:
        vals = list(a.view(np.ndarray))
        idx = []
        for i in range(len(vals)):
            j = len(idx)
            while j > 0 and bool(vals[i] < vals[idx[j - 1]]):
                j -= 1
            idx.insert(j, i)
        return np.array(idx, dtype=int)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = np.array([fn_argsort(x) for x in m.reshape(-1, m.shape[-1])]).reshape(m.shape)
    return np.moveaxis(r, -1, axis)


def fn_sort(a, axis=-1, **k):
    a = sarr(a)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    r = _fill([e for x in m.reshape(-1, m.shape[-1]) for e in _sorted(list(x))], m.shape)
    return _unwrap(np.moveaxis(r, -1, axis))


def _same_row(r, q):
    """equality of two rows as one condition (splits the path at most once)"""
    from .symcore import sym_close
    cs = []
    for x, y in zip(r, q):
        if isinstance(x, Sym) or isinstance(y, Sym):
            x, y = as_sym(x), as_sym(y)
            if sym_close(x, y):
                continue
            c = x == y
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        elif x != y:
            return False
    return bool(sand(*cs)) if cs else True


FLAT_UNIQUE_SYNTACTIC = False     # set by checks in which a flattened np.unique only feeds a printout


def _syntactic(x, y):
    from .symcore import sym_close
    return sym_close(as_sym(x), as_sym(y))


def fn_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """distinct entries/rows.  Order: first occurrence (numpy sorts; the order of a set of samples is
    not part of any property here, and sorting symbolically would split on every pair)."""
    a = sarr(ar)
    if axis is None:
        rows = [[e] for e in a.reshape(-1).view(np.ndarray)]
    else:
        m = np.moveaxis(a.view(np.ndarray), axis, 0)
        rows = [list(r.reshape(-1)) for r in m]
    first, inv, cnt = [], [], []
    for i, r in enumerate(rows):
        for k_, j in enumerate(first):
            if (_syntactic(r[0], rows[j][0]) if axis is None and FLAT_UNIQUE_SYNTACTIC else _same_row(r, rows[j])):
                inv.append(k_)
                cnt[k_] += 1
                break
        else:
            inv.append(len(first))
            first.append(i)
            cnt.append(1)
    if axis is None:
        out = _fill([rows[j][0] for j in first], (len(first),))
    else:
        out = sarr(np.moveaxis(np.moveaxis(a.view(np.ndarray), axis, 0)[first], 0, axis))
    res = [out]
    if return_index:
        res.append(np.array(first, dtype=int))
    if return_inverse:
        res.append(np.array(inv, dtype=int))
    if return_counts:
        res.append(np.array(cnt, dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    s = 0
    for j in range(n):
        if isinstance(m[0, j], float) and m[0, j] == 0:
            continue
        sub = np.delete(m[1:], j, axis=1)
        t = m[0, j] * _det(sub)
        s = s + t if j % 2 == 0 else s - t
    return s


def fn_det(a):
    a = sarr(a).view(np.ndarray)
    if a.ndim == 2:
        return _det(a)
    return _fill([_det(m) for m in a.reshape((-1,) + a.shape[-2:])], a.shape[:-2])


def fn_inv(a):
    a = sarr(a).view(np.ndarray)
    if a.ndim > 2:
        r = [fn_inv(m).view(np.ndarray) for m in a.reshape((-1,) + a.shape[-2:])]
        return sarr(np.array(r, dtype=object).reshape(a.shape))
    n = a.shape[0]
    d = _det(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(a, j, axis=0), i, axis=1)
            c = _det(sub) if n > 1 else 1.0
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out.view(SymArray)


def fn_solve(a, b):
    b = sarr(b)
    return sarr(np.matmul(fn_inv(a).view(np.ndarray), b.view(np.ndarray)))


def fn_norm(x, ord=None, axis=None, keepdims=False):
    x = sarr(x)
    if ord in (None, 2, "fro") and (axis is not None or ord is None or x.ndim == 1):
        return ew1("sqrt")((x * x).sum(axis=axis, keepdims=keepdims))
    if ord == 1 and (x.ndim == 1 or axis is not None):
        return ew1("abs")(x).sum(axis=axis, keepdims=keepdims)
    if ord == np.inf and (x.ndim == 1 or axis is not None):
        return ew1("abs")(x).max(axis=axis, keepdims=keepdims)
    raise Unsupported("np.linalg.norm variant")


def fn_einsum(spec, *ops, **k):
    ops = [sarr(o).view(np.ndarray) for o in ops]
    spec = spec.replace(" ", "")
    if "..." in spec:
        parts = spec.split("->")
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        ins = parts[0].split(",")
        extra = [o.ndim - len(t.replace("...", "")) if "..." in t else 0 for t, o in zip(ins, ops)]
        most = max(extra)
        if min(extra) < 0 or most > len(free):
            raise ValueError("einstein sum subscripts string does not match operand")
        dots = "".join(free[:most])
        full = np.broadcast_shapes(*[o.shape[t.index("..."):t.index("...") + e] for t, o, e in zip(ins, ops, extra) if "..." in t])
        grown = []
        for t, o, e in zip(ins, ops, extra):
            if "..." in t:
                i = t.index("...")
                o = np.broadcast_to(o, o.shape[:i] + full[most - e:] + o.shape[i + e:])
            grown.append(o)
        ops = grown
        ins = [t.replace("...", dots[most - e:]) for t, e in zip(ins, extra)]
        if len(parts) == 2:
            spec = ",".join(ins) + "->" + parts[1].replace("...", dots)
        else:
            letters = parts[0].replace(",", "").replace("...", "")
            spec = ",".join(ins) + "->" + dots + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        outs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s_, o in zip(ins, ops):
        if len(s_) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand")
        for c, d in zip(s_, o.shape):
            if dims.setdefault(c, d) != d:
                if 1 in (dims[c], d):
                    raise Unsupported("einsum broadcasting")
                raise ValueError("operands could not be broadcast together in einsum")
    red = [c for c in dims if c not in outs]
    out = np.empty([dims[c] for c in outs], dtype=object)
    import itertools
    for oi in itertools.product(*[range(dims[c]) for c in outs]):
        env = dict(zip(outs, oi))
        s = 0.0
        for ri in itertools.product(*[range(dims[c]) for c in red]):
            env.update(zip(red, ri))
            t = 1.0
            for s_, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s_)]
            s = s + t
        out[oi] = s
    return _unwrap(out.view(SymArray)) if outs else out[()]


def fn_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if not (has_sym(start) or has_sym(stop)):
        r = np.linspace(plainf(start), plainf(stop), num, endpoint=endpoint, axis=axis)
        return sarr(r)
    a, b = sarr(start), sarr(stop)
    div = num - 1 if endpoint else num
    if num == 0:
        return sarr(np.zeros((0,) + np.broadcast(a.view(np.ndarray), b.view(np.ndarray)).shape))
    rows = []
    for i in range(num):
        if i == 0 or div == 0:
            r = a + 0.0 * b if a.shape != b.shape else a
        elif i == num - 1 and endpoint:
            r = b + 0.0 * a if a.shape != b.shape else b
        else:
            t = Sym({(): Fraction(i, div)})
            r = a + (b - a) * t
        rows.append(sarr(r))
    out = sarr(rows)
    if axis != 0:
        out = np.moveaxis(out.view(np.ndarray), 0, axis).view(SymArray)
    if retstep:
        return out, (b - a) / div
    return out


def plainf(x):
    if isinstance(x, SymArray):
        return np.array([float(e) for e in x.reshape(-1).view(np.ndarray)]).reshape(x.shape)
    if isinstance(x, Sym):
        return float(x)
    return x


def fn_where(c, *xy):
    c = sarr(c)
    cb = np.array([bool(e) for e in c.reshape(-1).view(np.ndarray)], dtype=bool).reshape(c.shape)
    if not xy:
        return np.where(cb)
    return sarr(np.where(cb, sarr(xy[0]).view(np.ndarray), sarr(xy[1]).view(np.ndarray)))


def fn_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = sarr(a), sarr(b)
    return ew2("less_equal")(ew1("abs")(a - b), atol + rtol * ew1("abs")(b))


def fn_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = fn_isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SymArray) else r


def fn_array_equal(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return ew2("equal")(a, b).all() if a.size else True


def fn_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = sarr(a), sarr(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return sarr(np.cross(a.view(np.ndarray), b.view(np.ndarray)))


def fn_trace_unsupported(name):
    def f(*a, **k):
        raise Unsupported("numpy function %s on symbolic values" % name)
    return f


def _m(meth):
    def f(a, *args, **kw):
        return getattr(sarr(a), meth)(*args, **{k: v for k, v in kw.items() if v is not np._NoValue})
    return f


def fn_average(a, axis=None, weights=None, **k):
    a = sarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = sarr(weights)
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def fn_clip(a, lo=None, hi=None, **k):
    r = sarr(a)
    if lo is not None:
        r = ew2("maximum")(r, lo)
    if hi is not None:
        r = ew2("minimum")(r, hi)
    return r


def fn_polyval(p, x):
    y = 0.0
    for c in list(p):
        y = y * x + c
    return y


FUNCS = {
    np.sum: _m("sum"), np.mean: _m("mean"), np.amax: _m("max"), np.amin: _m("min"),
    np.max: _m("max"), np.min: _m("min"), np.all: _m("all"), np.any: _m("any"),
    np.var: _m("var"), np.std: _m("std"), np.ptp: _m("ptp"),
    np.argmax: _m("argmax"), np.argmin: _m("argmin"), np.argsort: fn_argsort, np.sort: fn_sort,
    np.unique: fn_unique, np.linalg.det: fn_det, np.linalg.inv: fn_inv, np.linalg.solve: fn_solve,
    np.linalg.norm: fn_norm, np.einsum: fn_einsum, np.linspace: fn_linspace, np.where: fn_where,
    np.isclose: fn_isclose, np.allclose: fn_allclose, np.array_equal: fn_array_equal,
    np.cross: fn_cross, np.average: fn_average, np.clip: fn_clip, np.polyval: fn_polyval,
    np.around: fn_round, np.round_: fn_round, getattr(np, "round"): fn_round,
    np.linalg.lstsq: fn_trace_unsupported("lstsq"),
    np.real: lambda x: x, np.imag: lambda x: sarr(x) * 0.0,
    np.nan_to_num: lambda x, *a, **k: x,
    np.copy: lambda a, *x, **k: sarr(a).copy(),
}


def function_dispatch(func, args, kwargs):
    f = FUNCS.get(func)
    if f is not None:
        return f(*args, **kwargs)
    nm = getattr(func, "__name__", "")
    if nm in ("zeros_like", "ones_like", "empty_like", "full_like"):
        shape = kwargs.get("shape") or np.shape(plain(args[0]))
        proto = args[0]
        if nm == "full_like" and kwargs.get("dtype") is None and isinstance(proto, np.ndarray) and proto.dtype.kind in "iub":
            # the fill value is converted to the type of the array
            kwargs = dict(kwargs, dtype=proto.dtype)
        if nm == "full_like" and kind_of(kwargs.get("dtype")) in ("i", "b", "f4", "f2"):
            v = args[1] if len(args) > 1 else kwargs["fill_value"]
            v = np.broadcast_to(plain(sarr(v)), shape)
            return _fill([cast_scalar(e, kind_of(kwargs["dtype"])) for e in v.reshape(-1)], shape)
        v = {"zeros_like": 0.0, "ones_like": 1.0, "empty_like": 0.0}.get(nm)
        if nm == "full_like":
            v = args[1] if len(args) > 1 else kwargs["fill_value"]
        a = np.empty(shape, dtype=object)
        a.fill(v) if not isinstance(v, (np.ndarray, list)) else a.__setitem__(Ellipsis, v)
        return a.view(SymArray)
    args = [plain(a) for a in args]
    kwargs = {k: plain(v) for k, v in kwargs.items()}
    impl = getattr(func, "_implementation", None)
    return rewrap(impl(*args, **kwargs) if impl else func(*args, **kwargs))


# ------------------------------------------------------------------ scalar types
class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __call__(cls, x=0.0, *a):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_sym()
        if isinstance(x, SymArray):
            return cls(x.reshape(-1)[0])
        return builtins.float(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    __hash__ = type.__hash__


class SymFloat(builtins.float, metaclass=_FMeta):
    pass


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.atom() is not None and x.atom().kind == "int")

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            if x.is_const():
                return builtins.int(x.const())
            from .symcore import sym_trunc
            at = x.atom()
            if at is not None and at.kind == "int":
                return x
            return sym_trunc(x)
        if isinstance(x, SymBool):
            return builtins.int(bool(x))
        if isinstance(x, SymArray):
            return cls(x.reshape(-1)[0])
        return builtins.int(x, *a)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    __hash__ = type.__hash__


class SymInt(builtins.int, metaclass=_IMeta):
    pass


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Sym))

    def __call__(cls, x=0.0, *a, **k):
        if isinstance(x, (Sym, SymBool)):
            return x
        if deep_symarray(x):
            return sarr(x)
        return np.float64(x)

    def __eq__(cls, o):
        return o is cls or o is np.float64

    __hash__ = type.__hash__


class F64(np.float64, metaclass=_F64Meta):
    pass


def sym_min_builtin(*a, **k):
    return _bmm("min", a, k)


def sym_max_builtin(*a, **k):
    return _bmm("max", a, k)


def _bmm(kind, a, k):
    f = builtins.min if kind == "min" else builtins.max
    vals = list(a[0]) if len(a) == 1 else list(a)
    if not k and has_sym(vals):
        if all(isinstance(v, Sym) and v.atom() is not None and v.atom().kind == "int" or isinstance(v, int)
               for v in vals):
            best = vals[0]
            for v in vals[1:]:
                c = (v < best) if kind == "min" else (v > best)
                if bool(c):
                    best = v
            return best
        return _maxmin(vals, kind)
    return f(*a, **k)


def sym_sum_builtin(it, start=0):
    for e in it:
        start = start + e
    return start


# ------------------------------------------------------------------ module proxy
class SymModule(types.ModuleType):
    def __init__(self, name, real, over, wrap=True):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrap"] = wrap
        self.__dict__["_cache"] = {}
        self.__dict__["__all__"] = [n for n in dir(real) if not n.startswith("_")]
        self.__dict__["__path__"] = getattr(real, "__path__", [])

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, types.ModuleType) and v.__name__.split(".")[0] == "numpy":
            v = SymModule(v.__name__, v, SUBMODULES.get(v.__name__, {}))
        elif isinstance(v, np.ufunc):
            v = _wrap_ufunc(v)
        elif self.__dict__["_wrap"] and callable(v) and not isinstance(v, type):
            v = _wrap_func(v)
        c[n] = v
        return v


def _conv_arg(a):
    if getattr(a, "_is_sym_tensor", False):
        return sarr(a.a)
    if isinstance(a, (list, tuple)) and deep_symarray(a):
        try:
            return sarr(a)
        except ValueError:
            return a
    return a


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = [_conv_arg(x) for x in a]
        return _tosym(self._u(*a, **k))

    def __getattr__(self, n):
        m = getattr(self._u, n)
        if callable(m):
            return lambda *a, **k: _tosym(m(*[_conv_arg(x) for x in a], **k))
        return m


def _wrap_ufunc(u):
    return UfuncProxy(u)


def _tosym(r):
    """float results of numpy calls become SymArrays so that symbolic values can be stored into them"""
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
        if r.dtype.kind == "f" or r.dtype == object:
            return sarr(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(_tosym(e) for e in r)
    if isinstance(r, list):
        return [_tosym(e) for e in r]
    return r


_LISTFN = {"vstack", "hstack", "concatenate", "stack", "column_stack", "dstack", "row_stack", "append",
           "block"}


def _wrap_func(f):
    nm = getattr(f, "__name__", "")

    def g(*a, **k):
        if nm in _LISTFN:
            a = list(a)
            if nm == "append":
                a[:2] = [sarr(x) for x in a[:2]]
            elif nm != "block":
                a[0] = [sarr(x) if not isinstance(x, SymArray) else x for x in a[0]]
                if not any(isinstance(e, SymArray) for e in a[0]):
                    return _tosym(f(*a, **k))
            return _tosym(f(*a, **{kk: v for kk, v in k.items() if kk not in ("dtype",)}))
        if "dtype" in k and kind_of(k["dtype"]) in ("f8", "f4") and any(
                isinstance(x, SymArray) or deep_symarray(x) for x in a):
            k = {kk: v for kk, v in k.items() if kk != "dtype"}
        if any(isinstance(v, type) and issubclass(v, (F64, SymFloat)) for v in k.values()):
            k = {kk: (np.float64 if isinstance(v, type) and issubclass(v, (F64, SymFloat)) else v)
                 for kk, v in k.items()}
        a = [_conv_arg(x) for x in a]
        if f in FUNCS and any(isinstance(x, (Sym, SymBool)) for x in a):
            return FUNCS[f](*a, **k)
        return _tosym(f(*a, **k))
    g.__name__ = nm
    g._real = f
    return g


def c_array(x, dtype=None, copy=True, ndmin=0, **k):
    kd = kind_of(dtype)
    if kd in ("i", "b") and not has_sym(x):
        return np.array(plain(x), dtype=dtype, ndmin=ndmin)
    if kd is None and not deep_symarray(x):
        if isinstance(x, np.ndarray):
            r = np.array(x, ndmin=ndmin)
        else:
            r = np.array(list(x) if isinstance(x, (map, zip)) else x, ndmin=ndmin)
        return sarr(r) if r.dtype.kind == "f" else r
    r = sarr(x)
    if kd in ("f8", "f4", "f2", "i", "b"):
        r = r.astype(dtype)
    elif copy:
        r = r.copy()
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def c_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and kind_of(dtype) in (None, "f8", "O"):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "iub" and dtype is None:
        return x
    return c_array(x, dtype, copy=False)


def _mk(v):
    def f(shape, dtype=None, order="C", **k):
        kd = kind_of(dtype)
        if isinstance(shape, (Sym,)):
            shape = int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        if kd in ("i", "b"):
            return np.full(shape, v, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(v)
        return a.view(SymArray)
    return f


def c_full(shape, fill_value, dtype=None, **k):
    a = _mk(0.0)(shape, None)
    a[...] = fill_value
    return a.astype(dtype) if dtype is not None else a


def c_eye(n, M=None, k=0, dtype=None, **kw):
    return sarr(np.eye(int(n), M, k))


def c_arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) for x in a):
        a = [int(x) if isinstance(x, Sym) and x.atom() is not None and x.atom().kind == "int" else x for x in a]
        if any(isinstance(x, Sym) for x in a):
            raise Unsupported("arange with symbolic real bounds")
    if dtype is not None and isinstance(dtype, type) and issubclass(dtype, (F64, SymFloat)):
        dtype = np.float64
    if dtype is not None and isinstance(dtype, type) and issubclass(dtype, SymInt):
        dtype = int
    r = np.arange(*a, dtype=dtype)
    return sarr(r) if r.dtype.kind == "f" else r


def c_savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    from . import symcore as sc
    if sc.TOKENS is None or not isinstance(fmt, str):
        raise Unsupported("np.savetxt of symbolic data")
    X = sarr(X)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    if X.ndim != 2:
        raise ValueError("Expected 1D or 2D array")
    n = fmt.count("%")
    if n not in (1, X.shape[1]):
        raise Unsupported("np.savetxt format %r" % fmt)

    def line(row):
        row = list(row)
        if n == 1:
            return delimiter.join(sc.token(as_sym(v), fmt) for v in row)
        if n != len(row) or not all(f.count("%") == 1 for f in fmt.split(delimiter)):
            raise Unsupported("np.savetxt format %r" % fmt)
        return delimiter.join(sc.token(as_sym(v), f) for v, f in zip(row, fmt.split(delimiter)))
    out = [comments + header + newline] if header else []
    out += [line(r) + newline for r in X.view(np.ndarray)]
    out += [comments + footer + newline] if footer else []
    if hasattr(fname, "write"):
        try:
            fname.write("".join(out))
        except TypeError:
            fname.write("".join(out).encode())
    else:
        with open(fname, "w") as fh:
            fh.write("".join(out))


class _Random:
    """np.random.*: arbitrary values of the documented range, one fresh symbol per draw"""
    counter = 0

    @staticmethod
    def _fresh(shape, lo, hi, integer=False):
        shape = () if shape is None else shape
        shape = (shape,) if isinstance(shape, (int, np.integer, Sym)) else tuple(shape)
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1
        out = []
        for _ in range(n):
            _Random.counter += 1
            v = Sym.var("rnd%d" % _Random.counter, "int" if integer else "var")
            CTX.assume(v >= lo)
            CTX.assume(v < hi)
            out.append(int(v) if integer else v)
        if integer:
            r = np.array(out, dtype=int).reshape(shape)
            return r if shape else int(r)
        return _fill(out, shape) if shape else out[0]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._fresh(size, low, high, True)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
            idx = self.choice(len(a), size, replace)
            return a[idx]
        idx = self._fresh(size, 0, a, True)
        if not replace and len(set(np.asarray(idx).reshape(-1).tolist())) != np.size(idx):
            from .symcore import AssumptionFailed
            raise AssumptionFailed()
        return idx

    def rand(self, *shape):
        return self._fresh(shape, 0, 1)

    def random(self, size=None):
        return self._fresh(size, 0, 1)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._fresh(size, 0, 1)

    def permutation(self, x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        import itertools
        p = CTX.choose("perm", list(itertools.permutations(range(n))))
        p = np.array(p, dtype=int)
        return p if isinstance(x, (int, np.integer)) else x[p]

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self


class _IndexTrick:
    def __getattr__(self, n):
        return getattr(np.c_, n)


def _finfo(t):
    if isinstance(t, type) and issubclass(t, (F64, SymFloat)):
        t = np.float64
    return np.finfo(t)


SUBMODULES = {
    "numpy.random": {},
}


def make_numpy():
    over = {
        "array": c_array, "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_asarray,
        "asfarray": c_asarray,
        "zeros": _mk(0.0), "ones": _mk(1.0), "empty": _mk(0.0), "full": c_full, "identity": c_eye,
        "eye": c_eye, "arange": c_arange, "linspace": fn_linspace, "float64": F64, "double": F64,
        "savetxt": c_savetxt, "ndarray": np.ndarray, "newaxis": None, "random": _Random(),
        "finfo": _finfo, "sum": lambda a, *x, **k: _tosym(np.sum(_conv_arg(a), *x, **k)),
        "vectorize": _vectorize, "float": SymFloat, "apply_along_axis": _apply_along_axis,
        "isscalar": lambda x: isinstance(x, (Sym, SymBool)) or np.isscalar(x),
        "fromiter": lambda it, dtype=None, count=-1: c_array(list(it), dtype),
        "nditer": fn_trace_unsupported("nditer"),
        "set_printoptions": lambda *a, **k: None,
    }
    m = SymModule("numpy", np, over)
    return m


def _vectorize(f, *a, **k):
    def g(*args):
        arrs = np.broadcast_arrays(*[sarr(x).view(np.ndarray) for x in args])
        return _fill([f(*[z.reshape(-1)[i] for z in arrs]) for i in range(arrs[0].size)], arrs[0].shape)
    return g


def _apply_along_axis(f, axis, arr, *a, **k):
    m = np.moveaxis(sarr(arr).view(np.ndarray), axis, -1)
    rows = [f(sarr(r), *a, **k) for r in m.reshape(-1, m.shape[-1])]
    out = sarr(rows)
    out = out.reshape(m.shape[:-1] + out.shape[1:])
    return out if out.ndim < m.ndim else sarr(np.moveaxis(out.view(np.ndarray), -1, axis))


class SymMath(types.ModuleType):
    def __getattr__(self, n):
        r = getattr(math, n)
        if n in EW1:
            g = EW1[n]
            return lambda x: g(x) if isinstance(x, Sym) else r(x)
        if n == "fabs":
            return lambda x: sym_abs(x) if isinstance(x, Sym) else r(x)
        if n == "atan2":
            return lambda y, x: _angle(y, x)
        if n == "hypot":
            return lambda *a: EW1["sqrt"](sum((v * v for v in a), 0)) if has_sym(list(a)) else r(*a)
        if n in ("asin", "acos", "atan"):
            nm = {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}[n]
            return lambda x: EW1[nm](x) if isinstance(x, Sym) else r(x)
        if n == "pow":
            return lambda a, b: a ** b if has_sym([a, b]) else r(a, b)
        if n == "isclose":
            return lambda a, b, **k: bool(fn_isclose(a, b)) if has_sym([a, b]) else r(a, b, **k)
        if n == "fsum":
            return lambda it: sym_sum_builtin(it, 0.0)
        return r

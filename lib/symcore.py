"""Symbolic real arithmetic over rational functions, path exploration and solver queries.

A `Sym` is an exact rational function of atoms (symbolic inputs, uninterpreted function
applications, |.|, sqrt, max, floor...).  Python floats met on the way are taken as the exact
rationals they denote.  Conditions are `SymBool`; asking one for its truth value asks z3 which
outcomes are feasible and, if both are, splits the execution path (depth-first re-execution).
"""
from __future__ import annotations
import bisect
import math, time
from fractions import Fraction
from .zload import z3

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The symbolic executor met something it cannot encode: no verdict."""


class PathDone(BaseException):
    pass


class AssumptionFailed(BaseException):
    """the current path contradicts the harness's assumptions"""


# ------------------------------------------------------------------ polynomials
# dict: monomial (tuple of (atom_id, exp), sorted) -> Fraction

def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


_mm_cache = {}


def m_mul_c(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is None:
        if len(_mm_cache) > 2000000:
            _mm_cache.clear()
        r = _mm_cache[k] = m_mul(m1, m2)
    return r


MAX_TERMS = 400000
CUT = None              # products of more terms than this become unknowns (set while graphs are interpreted)


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return p_scale(b, c)
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return p_scale(a, c)
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul_c(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
        if len(r) > MAX_TERMS:
            raise Unsupported("polynomial larger than %d terms" % MAX_TERMS)
    return {m: c for m, c in r.items() if c}


def m_deg(m):
    return sum(e for _, e in m)


def m_key(m):
    return (m_deg(m), m)


def m_div(m1, m2):
    d = dict(m1)
    for v, e in m2:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def p_lexlead(a):
    """leading monomial under a real monomial order (grevlex-free: lex on atom ids)."""
    return max(a, key=_lexkey)


def _lexkey(m):
    # lex order with smaller atom id more significant: compare exponent vectors
    return _LexKey(m)


class _LexKey:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while True:
            if i >= len(a):
                return i < len(b)
            if i >= len(b):
                return False
            if a[i] != b[i]:
                (v1, e1), (v2, e2) = a[i], b[i]
                if v1 == v2:
                    return e1 < e2
                return v1 > v2      # the one having the smaller atom id is larger
            i += 1

    def __gt__(self, o):
        return o < self


def p_divexact(a, b, limit=4000):
    """a / b if exact, else None."""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        out = {}
        for m, c in a.items():
            q = m_div(m, mb)
            if q is None:
                return None
            out[q] = c / cb
        return out
    if len(a) < len(b) and len(a) < 2:
        return None
    lb = p_lexlead(b)
    cb = b[lb]
    # quick degree rejection
    rem = dict(a)
    out = {}
    steps = 0
    while rem:
        la = p_lexlead(rem)
        q = m_div(la, lb)
        if q is None:
            return None
        c = rem[la] / cb
        out[q] = c
        for m, cc in b.items():
            mm = m_mul_c(m, q)
            v = rem.get(mm, F0) - c * cc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > limit:
            return None
    return out


def p_key(a):
    return frozenset(a.items())


def p_eval(a, env):
    """evaluate with env: atom id -> number"""
    s = 0
    for m, c in a.items():
        t = c
        for v, e in m:
            t = t * env(v) ** e
        s = s + t
    return s


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "name", "kind", "args", "fn", "z", "lo", "hi")

    def __init__(self, id, name, kind, args=(), fn=None):
        self.id, self.name, self.kind, self.args, self.fn = id, name, kind, args, fn
        self.lo = self.hi = None
        self.z = (z3.Int if kind in ("int", "floor") else z3.Real)("%s!%d" % (name, id))


ATOMS = []
_by_key = {}


def reset_atoms():
    _factors.clear()
    ATOMS.clear()
    _by_key.clear()
    _mm_cache.clear()
    _fun_buckets.clear()
    _zcache.clear()
    _mono_z.clear()
    _monos_cache.clear()
    _full_cache.clear()
    _ax_cache.clear()
    _mono_of.clear()


def new_atom(name, kind="var", args=(), fn=None, key=None):
    if key is not None and key in _by_key:
        return _by_key[key]
    a = Atom(len(ATOMS), name, kind, args, fn)
    ATOMS.append(a)
    if key is not None:
        _by_key[key] = a
    return a


_fun_buckets = {}
CLOSE = Fraction(1, 10 ** 11)


def _pclose(a, b):
    if a.keys() != b.keys():
        ks = set(a) | set(b)
    else:
        ks = a.keys()
    sc = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [F0])
    for k in ks:
        if abs(a.get(k, F0) - b.get(k, F0)) > CLOSE * sc:
            return False
    return True


def sym_close(x, y):
    """same rational function up to floating-point noise in the coefficients"""
    if x is y:
        return True
    if x.num == y.num and x.den == y.den:
        return True
    if not x.den and not y.den:
        return _pclose(x.num, y.num)
    l, r = cross(x, y)
    return _pclose(l, r)


def _signature(args):
    """(v, tol): the arguments evaluated at a fixed point with coordinates in [1/2, 1); rounding-close
    arguments have values that differ by at most tol.  None for quotients."""
    v, tol, f = 0.0, 0.0, 1.0
    for a in args:
        if a.den:
            return None
        big = 0.0
        for m, c in a.num.items():
            t = c = float(c)
            for i, e in m:
                t *= (0.5 + 0.5 * (i * 0.6180339887498949 % 1.0)) ** e
            v += f * t
            big = max(big, abs(c))
        tol += f * 4 * float(CLOSE) * big * (len(a.num) + 1)
        f *= 0.7548776662466927
    return v, tol


def fun_atom(fname, args, kind="fun"):
    """uninterpreted application fname(args); equal (or rounding-close) arguments share one atom"""
    args = tuple(as_sym(a) for a in args)
    bucket, values, atoms, others = _fun_buckets.setdefault((fname, kind, len(args)), ({}, [], [], []))
    exact = tuple((p_key(a.num), frozenset((k, e) for k, e in a.den.items())) for a in args)
    hit = bucket.get(exact)
    if hit is not None:
        return hit
    sig = _signature(args)
    if sig is None:
        near = others + atoms
    else:
        near = others + atoms[bisect.bisect_left(values, sig[0] - sig[1]):bisect.bisect_right(values, sig[0] + sig[1])]
    for a in near:
        if all(sym_close(u, v) for u, v in zip(a.args, args)):
            bucket[exact] = a
            return a
    a = new_atom(fname, kind, args, fname)
    bucket[exact] = a
    if sig is None:
        others.append(a)
    else:
        i = bisect.bisect_right(values, sig[0])
        values.insert(i, sig[0])
        atoms.insert(i, a)
    return a


# ------------------------------------------------------------------ Sym
def to_frac(x):
    import numpy as np
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite float %r met a symbolic value" % x)
        return Fraction(x)
    raise TypeError("not a number: %r" % (type(x),))


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def as_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.as_sym()
    import numpy as np
    if isinstance(x, np.ndarray) and x.size == 1:
        return as_sym(x.reshape(-1)[0])
    return Sym(p_const(to_frac(x)))


def _wrap_bin(op):
    def f(self, o):
        import numpy as np
        if isinstance(o, Sym):
            return op(self, o)
        if isinstance(o, SymBool):
            return op(self, o.as_sym())
        if is_num(o):
            try:
                return op(self, Sym(p_const(to_frac(o))))
            except Unsupported:
                return _nonfinite(self, o)
        return NotImplemented
    return f


def _nonfinite(a, o):
    raise Unsupported("non-finite float in symbolic arithmetic")


class Sym:
    __slots__ = ("num", "den", "_z")
    __array_priority__ = 1e9

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._z = None

    # numpy hook: ndarray <op> Sym
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symnumpy import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    # -- basic
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def const(self):
        return self.num.get((), F0)

    @staticmethod
    def var(name, kind="var"):
        return Sym({((new_atom(name, kind, key=("var", name, kind)).id, 1),): F1})

    @staticmethod
    def of_atom(a):
        return Sym({((a.id, 1),): F1})

    def atom(self):
        if not self.den and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def _add(self, o):
        if self.den == o.den:
            n = p_add(self.num, o.num)
            return _reduce(n, self.den) if self.den else Sym(n)
        den = dict(self.den)
        for k, e in o.den.items():
            if den.get(k, 0) < e:
                den[k] = e
        a = p_mul(self.num, _denmul(den, self.den))
        b = p_mul(o.num, _denmul(den, o.den))
        return _reduce(p_add(a, b), den)

    def _mul(self, o):
        if not self.num or not o.num:
            return Sym({})
        if CUT and len(self.num) * len(o.num) > CUT:
            # too long to multiply out: an unknown that depends on the two factors only
            a, b = sorted((self, o), key=lambda x: (len(x.num), hash(p_key(x.num))))
            return Sym.of_atom(fun_atom("product", (a, b)))
        if not self.den and not o.den:
            return Sym(p_mul(self.num, o.num))
        # cancel numerators of one against denominators of the other first
        n1, d2 = _cancel(self.num, o.den)
        n2, d1 = _cancel(o.num, self.den)
        den = dict(d1)
        for k, e in d2.items():
            den[k] = den.get(k, 0) + e
        return Sym(p_mul(n1, n2), den)

    def recip(self):
        if not self.num:
            raise ZeroDivisionError("division by a symbolic zero")
        num = {(): F1}
        for k, e in self.den.items():
            for _ in range(e):
                num = p_mul(num, dict(k.poly))
        # factor out content and monomials of self.num
        c, mono, prim = _prim(self.num)
        den = {}
        for v, e in mono:
            den[_factor({((v, 1),): F1})] = e
        if prim is not None:
            k = _factor(prim)
            den[k] = den.get(k, 0) + 1
        return _reduce(p_scale(num, 1 / c), den)

    __add__ = _wrap_bin(lambda a, b: a._add(b))
    __radd__ = __add__
    __sub__ = _wrap_bin(lambda a, b: a._add(-b))
    __rsub__ = _wrap_bin(lambda a, b: b._add(-a))
    __mul__ = _wrap_bin(lambda a, b: a._mul(b))
    __rmul__ = __mul__

    def _div(a, b):
        if b.is_const():
            c = b.const()
            if c == 0:
                raise ZeroDivisionError("symbolic value divided by zero")
            return Sym(p_scale(a.num, 1 / c), a.den)
        CTX.note_nonzero(b)
        return a._mul(b.recip())

    __truediv__ = _wrap_bin(lambda a, b: a._div(b))
    __rtruediv__ = _wrap_bin(lambda a, b: b._div(a))

    def __neg__(self):
        return Sym(p_neg(self.num), self.den)

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    real = property(lambda s: s)
    imag = property(lambda s: 0.0)
    T = property(lambda s: s)
    ndim = 0
    shape = ()
    size = 1

    def __pow__(self, e):
        if isinstance(e, Sym):
            if e.is_const():
                e = e.const()
            else:
                return Sym.of_atom(fun_atom("pow", (self, e)))
        if is_num(e):
            q = to_frac(e)
            if q.denominator == 1:
                n = int(q)
                if n == 0:
                    return Sym(p_const(F1))
                base = self if n > 0 else Sym(p_const(F1)) / self
                r = None
                for _ in range(abs(n)):
                    r = base if r is None else r * base
                return r
            if q == Fraction(1, 2):
                return sym_sqrt(self)
            if q == Fraction(-1, 2):
                return Sym(p_const(F1)) / sym_sqrt(self)
            return Sym.of_atom(fun_atom("pow", (self, q)))
        return NotImplemented

    def __rpow__(self, b):
        return Sym.of_atom(fun_atom("pow", (as_sym(b), self)))

    def __abs__(self):
        return sym_abs(self)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(as_sym(o) / self)

    def __mod__(self, o):
        return self - o * sym_floor(self / o)

    def __rmod__(self, o):
        return as_sym(o) % self

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("concretisation: float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return CTX.concretise_int(self)

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        return CTX.concretise_int(self)

    def __bool__(self):
        if self.is_const():
            return self.const() != 0
        return bool(self != 0)

    def __round__(self, n=None):
        return sym_round(self, n or 0)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    def __hash__(self):
        return hash((frozenset(self.num.items()), frozenset(self.den.items())))

    def __eq__(self, o):
        d = _cmp_arg(self, o)
        if d is NotImplemented:
            return NotImplemented
        return SymBool.cmp(d, "==")

    def __ne__(self, o):
        d = _cmp_arg(self, o)
        if d is NotImplemented:
            return NotImplemented
        return SymBool.cmp(d, "!=")

    def __lt__(self, o):
        d = _cmp_arg(self, o)
        return d if d is NotImplemented else SymBool.cmp(d, "<")

    def __le__(self, o):
        d = _cmp_arg(self, o)
        return d if d is NotImplemented else SymBool.cmp(d, "<=")

    def __gt__(self, o):
        d = _cmp_arg(self, o)
        return d if d is NotImplemented else SymBool.cmp(-d, "<")

    def __ge__(self, o):
        d = _cmp_arg(self, o)
        return d if d is NotImplemented else SymBool.cmp(-d, "<=")

    # numpy calls these methods for object arrays
    def sqrt(self):
        return sym_sqrt(self)

    def tanh(self):
        return sym_fun("tanh", self)

    def sin(self):
        return sym_fun("sin", self)

    def cos(self):
        return sym_fun("cos", self)

    def exp(self):
        return sym_fun("exp", self)

    def log(self):
        return sym_fun("log", self)

    def square(self):
        return self * self

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t):
        from .symnumpy import cast_scalar
        return cast_scalar(self, t)

    def reshape(self, *s, **k):
        from .symnumpy import sarr
        return sarr(self).reshape(*s, **k)

    def flatten(self):
        return self.reshape(-1)

    def numpy(self):
        return self

    # text
    def __repr__(self):
        return "Sym(%s)" % show(self)

    def __str__(self):
        return repr(self) if TOKENS is None else token(self, "")

    def __format__(self, spec):
        return repr(self) if TOKENS is None else token(self, spec)


# values written to text files: each becomes a token that names the value and its format
TOKENS = None


def token(x, spec):
    TOKENS.append(x)
    return "@%d:%s@" % (len(TOKENS) - 1, spec.strip("% "))


def untoken(t):
    """(value, format) of a token, or None"""
    if TOKENS is None or not (t.startswith("@") and t.endswith("@") and ":" in t):
        return None
    i, spec = t[1:-1].split(":", 1)
    return (TOKENS[int(i)], spec) if i.isdigit() and int(i) < len(TOKENS) else None


def _mono_str(m):
    return "*".join(ATOMS[v].name + ("^%d" % e if e > 1 else "") for v, e in m) or "1"


def show(s, limit=6):
    def pp(p):
        items = list(p.items())
        t = " + ".join("%.6g*%s" % (float(c), _mono_str(m)) for m, c in items[:limit])
        return (t + " + ...[%d terms]" % len(items)) if len(items) > limit else (t or "0")
    r = pp(s.num)
    if s.den:
        r = "(%s)/(%s)" % (r, "*".join("(%s)^%d" % (pp(dict(k.poly)), e) for k, e in s.den.items()))
    return r


class Factor:
    """canonical primitive polynomial used as a denominator factor (interned)"""
    __slots__ = ("poly", "h")
    _tab = {}

    def __init__(self, poly):
        self.poly = poly
        self.h = id(self)

    def __repr__(self):
        return "Factor(%d)" % len(self.poly)


_factors = {}


def _factor(poly):
    k = p_key(poly)
    f = _factors.get(k)
    if f is None:
        f = _factors[k] = Factor(poly)
    return f


def _prim(p):
    """p = c * mono * prim with prim having leading coefficient 1; prim None if p is a monomial"""
    ms = list(p)
    mono = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for v in list(mono):
            e = min(mono[v], d.get(v, 0))
            if e:
                mono[v] = e
            else:
                del mono[v]
        if not mono:
            break
    mono = tuple(sorted(mono.items()))
    if mono:
        p = {m_div(m, mono): c for m, c in p.items()}
    lead = max(p, key=m_key)
    c = p[lead]
    if len(p) == 1:
        return c, mono, None
    return c, mono, p_scale(p, 1 / c)


def _denmul(big, small):
    r = {(): F1}
    for k, e in big.items():
        for _ in range(e - small.get(k, 0)):
            r = p_mul(r, k.poly)
    return r


def _cancel(num, den):
    if not den:
        return num, den
    out = dict(den)
    for k in list(out):
        while out.get(k, 0) > 0:
            if len(num) < len(k.poly) and len(k.poly) > 1 and len(num) <= 1:
                break
            q = p_divexact(num, k.poly)
            if q is None:
                break
            num = q
            out[k] -= 1
            if out[k] == 0:
                del out[k]
    return num, out


def _reduce(num, den):
    if not num:
        return Sym({})
    if not den:
        return Sym(num)
    num, den = _cancel(num, den)
    return Sym(num, den)


def cross(a, b):
    """polynomials l, r with a == b iff l == r (denominators nonzero)"""
    if a.den == b.den:
        return a.num, b.num
    den = dict(a.den)
    for k, e in b.den.items():
        if den.get(k, 0) < e:
            den[k] = e
    return p_mul(a.num, _denmul(den, a.den)), p_mul(b.num, _denmul(den, b.den))


def reduce_roots(l, r):
    """l == r with even powers of square-root atoms replaced by their arguments"""
    for _ in range(4):
        top = {}
        for p in (l, r):
            for m in p:
                for v, e in m:
                    if e >= 2 and ATOMS[v].kind == "sqrt":
                        top[v] = max(top.get(v, 0), e)
        if not top:
            break
        v = max(top)              # later atoms may contain earlier ones
        x = ATOMS[v].args[0]
        den = {}
        for k, e in x.den.items():
            den[k] = e
        K = top[v] // 2
        d1 = _denmul(den, {})
        npow, dpow = [{(): F1}], [{(): F1}]
        for _i in range(K):
            npow.append(p_mul(npow[-1], x.num))
            dpow.append(p_mul(dpow[-1], d1))

        def sub(p):
            groups = {}
            for m, c in p.items():
                e = dict(m).get(v, 0)
                rest = tuple((a, (b % 2 if a == v else b)) for a, b in m if not (a == v and b % 2 == 0))
                groups.setdefault(e // 2, {})[rest] = c
            out = {}
            for h, q in groups.items():
                out = p_add(out, p_mul(p_mul(q, npow[h]), dpow[K - h]))
            return out
        l, r = sub(l), sub(r)
    return l, r


def _cmp_arg(a, o):
    if isinstance(o, SymBool):
        o = o.as_sym()
    if isinstance(o, Sym):
        return a - o
    if is_num(o):
        f = float(o)
        if f in (math.inf, -math.inf):
            return Sym(p_const(Fraction(-1 if f > 0 else 1)))
        if f != f:
            return NotImplemented
        return a - o
    return NotImplemented


# ------------------------------------------------------------------ special functions
def sym_abs(x):
    if x.is_const():
        return Sym(p_const(abs(x.const())))
    s = CTX.sign_known(x)
    if s > 0:
        return x
    if s < 0:
        return -x
    # canonical sign
    c, _, _ = _prim(x.num)
    if c < 0:
        x = -x
    return Sym.of_atom(fun_atom("abs", (x,), "abs"))


def _isqrt_frac(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def sym_sqrt(x):
    x = as_sym(x)
    if x.is_const():
        c = x.const()
        r = _isqrt_frac(c)
        if r is not None:
            return Sym(p_const(r))
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        return Sym(p_const(Fraction(math.sqrt(c))))
    return Sym.of_atom(fun_atom("sqrt", (x,), "sqrt"))


def sym_floor(x):
    x = as_sym(x)
    if x.is_const():
        return Sym(p_const(Fraction(math.floor(x.const()))))
    if not x.den and all(c.denominator == 1 for c in x.num.values()) and all(
            ATOMS[v].kind in ("int", "floor") for m in x.num for v, _ in m):
        return x
    return Sym.of_atom(fun_atom("floor", (x,), "floor"))


def sym_round(x, n=0):
    """rounding to n decimals (ties upwards); from the ninth decimal on it is below the checks' tolerance"""
    x = as_sym(x)
    if n >= 9:
        return x
    k = Fraction(10) ** int(n)
    return sym_floor(x * Sym(p_const(k)) + Sym(p_const(Fraction(1, 2)))) * Sym(p_const(1 / k))


def sym_trunc(x):
    if (x < 0):
        return -sym_floor(-x)
    return sym_floor(x)


def sym_fun(name, x):
    x = as_sym(x)
    if x.is_const():
        return Sym(p_const(Fraction(getattr(math, name)(float(x.const())))))
    odd = name in ("tanh", "sin")
    even = name == "cos"
    if odd or even:
        c, _, _ = _prim(x.num)
        if c < 0:
            r = Sym.of_atom(fun_atom(name, (-x,)))
            return -r if odd else r
    return Sym.of_atom(fun_atom(name, (x,)))


def sym_max(args, kind="max"):
    """maximum/minimum as a solver-level term (no path split)"""
    args = [as_sym(a) for a in args]
    uniq = []
    for a in args:
        if not any(a.num == u.num and a.den == u.den for u in uniq):
            uniq.append(a)
    if all(a.is_const() for a in uniq):
        f = max if kind == "max" else min
        return Sym(p_const(f(a.const() for a in uniq)))
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda a: (len(a.num), sorted((m, c) for m, c in a.num.items())))
    return Sym.of_atom(fun_atom(kind, uniq, kind))


def p_diff_parts(p):
    """dict atom id -> partial derivative polynomial"""
    out = {}
    for m, c in p.items():
        for i, (v, e) in enumerate(m):
            q = m[:i] + (((v, e - 1),) if e > 1 else ()) + m[i + 1:]
            d = out.setdefault(v, {})
            d[q] = d.get(q, F0) + c * e
    return out


def _atom_diff(a, wrt, memo):
    """derivative of an atom w.r.t. the atom id `wrt`"""
    k = (a.id, wrt)
    if k in memo:
        return memo[k]
    if a.id == wrt:
        r = Sym(p_const(F1))
    elif not a.args:
        r = None
    else:
        r = None
        for i, x in enumerate(a.args):
            dx = diff(x, wrt, memo)
            if not dx.num:
                continue
            t = _outer(a, i) * dx
            r = t if r is None else r + t
    memo[k] = r
    return r


def _outer(a, i):
    s = Sym.of_atom(a)
    if a.fn == "tanh":
        return 1 - s * s
    if a.fn == "exp":
        return s
    if a.fn == "sigmoid":
        return s * (1 - s)
    if a.fn == "sin":
        return sym_fun("cos", a.args[0])
    if a.fn == "cos":
        return -sym_fun("sin", a.args[0])
    if a.kind == "sqrt":
        return 1 / (2 * s)
    if a.fn == "product":
        return a.args[1 - i]
    raise Unsupported("derivative of %s" % a.name)


def diff(x, wrt, memo=None):
    """partial derivative of a Sym with respect to a variable (Sym atom or atom id)"""
    memo = {} if memo is None else memo
    if isinstance(wrt, Sym):
        wrt = wrt.atom().id

    def dpoly(p):
        r = Sym({})
        for v, q in p_diff_parts(p).items():
            da = _atom_diff(ATOMS[v], wrt, memo)
            if da is not None and da.num:
                r = r + Sym(q) * da
        return r
    r = dpoly(x.num)
    if x.den:
        r = r * Sym({(): F1}, dict(x.den))
        for k, e in x.den.items():
            dk = dpoly(k.poly)
            if dk.num:
                r = r - x * e * dk / Sym(dict(k.poly))
    return r


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("z", "atoms", "neg_of", "pol")
    __array_priority__ = 1e9

    def __init__(self, z, atoms, pol=None):
        self.z, self.atoms, self.pol = z, atoms, pol

    @staticmethod
    def cmp(d, op):
        if d.is_const():
            c = d.const()
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0}[op]
        if op in ("==", "!="):
            # same to rounding?  coefficients at rounding level are noise, not values
            zi = z_int_poly(d.num)
            e = (z_poly(d.num) if zi is None else zi) == 0
            at = p_atoms(d.num)
            return SymBool(e if op == "==" else z3.Not(e), at)
        p = d.num
        for k, e in d.den.items():
            if e % 2:
                p = p_mul(p, k.poly)
        zi = z_int_poly(p)
        if zi is not None:
            return SymBool(zi <= -1 if op == "<" else zi <= 0, p_atoms(p))
        zp = z_poly(p)
        return SymBool(zp < 0 if op == "<" else zp <= 0, p_atoms(p))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symnumpy import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __bool__(self):
        return CTX.branch(self)

    def __invert__(self):
        return SymBool(z3.Not(self.z), self.atoms)

    logical_not = __invert__

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z), self.atoms | o.atoms)
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z), self.atoms | o.atoms)
        return True if o else self

    __ror__ = __or__

    def as_sym(self):
        return Sym(p_const(F1)) if bool(self) else Sym(p_const(F0))

    def __mul__(self, o):
        return self.as_sym() * o

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z, self.atoms | o.atoms)
        return self if o else ~self

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SymBool(%s)" % str(self.z)[:80]


def sand(*xs):
    r = True
    for x in xs:
        if r is True:
            r = x
        elif x is True or (isinstance(x, bool) and x):
            continue
        elif r is False or x is False:
            return False
        else:
            r = x & r if isinstance(x, SymBool) else r
    return r


def sor(*xs):
    r = False
    for x in xs:
        if isinstance(x, SymBool):
            r = x if r is False else (r if r is True else (r | x))
        elif x:
            return True
    return r


# ------------------------------------------------------------------ z3 conversion
_zcache = {}


def zfrac(c):
    return z3.RatVal(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def zatom(v):
    a = ATOMS[v]
    return z3.ToReal(a.z) if a.kind in ("int", "floor") else a.z


def z_int_poly(p):
    """integer expression with the sign and zeros of a linear polynomial of integer atoms (strict, non-strict), or None"""
    den = 1
    for m, c in p.items():
        if m and (len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind not in ("int", "floor")):
            return None
        den = den * c.denominator // math.gcd(den, c.denominator)
        if den > 10 ** 6:
            return None
    ts = [z3.IntVal(int(c * den)) if not m else int(c * den) * ATOMS[m[0][0]].z for m, c in p.items()]
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


_mono_z = {}          # monomial -> its own z3 unknown (phase 1: linear arithmetic over monomials)
_mono_of = {}         # z3 id -> monomial


def z_mono(m):
    if len(m) == 1 and m[0][1] == 1:
        return zatom(m[0][0])
    v = _mono_z.get(m)
    if v is None:
        v = _mono_z[m] = z3.Real("m!%d" % len(_mono_z))
        _mono_of[v.get_id()] = (m, v)
    return v


def z_poly(p):
    """linear in the monomials; `Ctx.check` adds the monomials' meaning when it is needed"""
    k = p_key(p)
    r = _zcache.get(k)
    if r is not None:
        return r
    ts = []
    for m, c in p.items():
        if not m:
            ts.append(zfrac(c))
        else:
            z = z_mono(m)
            ts.append(z if c == 1 else zfrac(c) * z)
    r = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(*ts))
    _zcache[k] = r
    return r


def mono_def(m):
    fs = []
    for v, e in m:
        fs.extend([zatom(v)] * e)
    return fs[0] if len(fs) == 1 else z3.Product(*fs)


_monos_cache = {}


def expr_monos(e):
    """monomial unknowns occurring in a z3 expression (cached)"""
    i = e.get_id()
    hit = _monos_cache.get(i)
    if hit is not None:
        return hit[1]
    out, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if j in _mono_of:
            m, v = _mono_of[j]
            out[m] = v
            continue
        todo.extend(x.children())
    _monos_cache[i] = (e, out)
    return out


_full_cache = {}


def expr_full(e):
    """e with every monomial unknown replaced by its product (cached)"""
    ms = expr_monos(e)
    if not ms:
        return e
    i = e.get_id()
    hit = _full_cache.get(i)
    if hit is None:
        hit = _full_cache[i] = (e, z3.substitute(e, *[(v, mono_def(m)) for m, v in ms.items()]))
    return hit[1]


def mono_lemmas(m, v):
    out = []
    if all(e % 2 == 0 for _, e in m):
        out.append(v >= 0)
    b = mono_bounds(m)
    if b is not None:
        out.append(v >= zfrac(b[0]))
        out.append(v <= zfrac(b[1]))
    return out


def mono_bounds(m):
    """interval of a monomial from the known bounds of its atoms (None if unbounded)"""
    lo, hi = F1, F1
    for v, e in m:
        a = ATOMS[v]
        l, h = a.lo, a.hi
        if l is None or h is None:
            return None
        for _ in range(e):
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
    return lo, hi


def p_atoms(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def s_atoms(x):
    s = p_atoms(x.num)
    for k in x.den:
        s |= p_atoms(k.poly)
    return s


_ax_cache = {}


def atom_closure(ids, seen):
    """atoms transitively reachable from ids and not in `seen`; seen is extended"""
    todo, new = list(ids), []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        new.append(i)
        for x in ATOMS[i].args:
            if isinstance(x, Sym):
                todo.extend(s_atoms(x))
    return new


def axioms_of(i):
    """defining constraints of one interpreted atom"""
    if i in _ax_cache:
        return _ax_cache[i]
    a = ATOMS[i]
    out = []
    if a.kind == "abs":
        x = a.args[0]
        out.append(a.z >= 0)
        l, r = cross(Sym.of_atom(a), x)
        l2, r2 = cross(Sym.of_atom(a), -x)
        out.append(z3.Or(z_poly(l) == z_poly(r), z_poly(l2) == z_poly(r2)))
    elif a.kind == "sqrt":
        x = a.args[0]
        l, r = cross(Sym({((a.id, 2),): F1}), x)
        out.append(a.z >= 0)
        out.append(z_poly(l) == z_poly(r))
    elif a.kind in ("max", "min"):
        ors = []
        for x in a.args:
            d = Sym.of_atom(a) - x if a.kind == "max" else x - Sym.of_atom(a)
            c = SymBool.cmp(-d, "<=")
            out.append(c.z if isinstance(c, SymBool) else z3.BoolVal(c))
            e = SymBool.cmp(d, "==")
            ors.append(e.z if isinstance(e, SymBool) else z3.BoolVal(e))
        out.append(z3.Or(*ors))
    elif a.kind == "floor":
        x = a.args[0]
        d = x - Sym.of_atom(a)
        for c in (SymBool.cmp(-d, "<="), SymBool.cmp(d - 1, "<")):
            out.append(c.z if isinstance(c, SymBool) else z3.BoolVal(c))
    _ax_cache[i] = out
    return out


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self):
        self.reset_stats()
        self.timeout = 20000
        self.reset_path([])

    def reset_stats(self):
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, paths=0,
                          branches=0, obligations=0, vars=0)

    def reset_path(self, prefix):
        self.prefix = list(prefix)     # decisions to replay
        self.trace = []                # decisions taken: (value, n_alternatives_left)
        self.pc = []                   # z3 conditions
        self.pc_atoms = set()
        self.assumed = []              # (SymBool) for witness checks
        self.nonzero = {}
        self._pcsolver = None
        self.choices = {}
        self._signs = {}
        self._ints = {}
        if not prefix:
            self._int_vals = {}

    # -- solver
    def _solve(self, exprs, timeout):
        s = z3.Solver()
        s.set("timeout", timeout)
        for c in exprs:
            s.add(c)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[r] += 1
        return r, s

    def _sync(self):
        """the path's incremental solver: conditions, atoms' definitions, monomial lemmas"""
        if self._pcsolver is None:
            self._pcsolver = z3.Solver()
            self._n_pc, self._ax_seen, self._monos, self._base = 0, set(), set(), []
        s = self._pcsolver
        fresh = list(self.pc[self._n_pc:])
        self._n_pc = len(self.pc)
        for i in atom_closure(self.pc_atoms, self._ax_seen):
            fresh += axioms_of(i)
        for e in fresh:
            s.add(e)
            self._base.append(e)
            for m, v in expr_monos(e).items():
                if m not in self._monos:
                    self._monos.add(m)
                    for lem in mono_lemmas(m, v):
                        s.add(lem)
        return s

    def check(self, conds, timeout=None, want_model=False, extra_atoms=()):
        """satisfiability of the path condition, the atoms' definitions and conds.

        First with every monomial as an unknown of its own (linear; unsat is conclusive), then
        with the monomials' meaning (nonlinear real arithmetic)."""
        timeout = timeout or self.timeout
        s = self._sync()
        local = list(conds)
        for i in atom_closure(extra_atoms, set(self._ax_seen)):
            local += axioms_of(i)
        s.push()
        s.set("timeout", timeout)
        has_monos = bool(self._monos)
        for e in local:
            s.add(e)
            for m, v in expr_monos(e).items():
                has_monos = True
                if m not in self._monos:
                    for lem in mono_lemmas(m, v):
                        s.add(lem)
        rs = self._timed(s)
        model = s.model() if want_model and rs == "sat" and not has_monos else None
        s.pop()
        if rs == "unknown" and not has_monos:
            rs, s2 = self._solve(self._base + local, timeout)
            model = s2.model() if want_model and rs == "sat" else None
        if rs != "unsat" and has_monos:
            rs, s2 = self._solve([expr_full(e) for e in self._base + local], timeout)
            model = s2.model() if want_model and rs == "sat" else None
        if want_model:
            return rs, model
        return rs

    def _timed(self, s):
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[r] += 1
        return r

    def assume(self, b):
        if isinstance(b, SymBool):
            self.pc.append(b.z)
            self.pc_atoms |= b.atoms
            self.assumed.append(b)
        elif not b:
            raise AssumptionFailed()

    def note_nonzero(self, d):
        """a symbolic denominator: its vanishing is outside the modelled arithmetic"""
        if d.num and not d.is_const():
            k = p_key(d.num)
            if k not in self.nonzero:
                self.nonzero[k] = d

    def _decide(self, n):
        """n-way nondeterministic decision, re-executed depth first"""
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((v, n))
        return v

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            v = 0
        else:
            v = self._decide(len(options))
        self.choices[name] = v
        return options[v]

    def branch(self, b):
        z = z3.simplify(b.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        self.stats["branches"] += 1
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            kind = v
            self.trace.append((v, 2))
        else:
            t = self.check([b.z], extra_atoms=b.atoms, timeout=self.branch_timeout)
            f = self.check([z3.Not(b.z)], extra_atoms=b.atoms, timeout=self.branch_timeout)
            if t == "unsat" and f == "unsat":
                raise AssumptionFailed()
            if t == "unsat":
                v = 3          # forced false
            elif f == "unsat":
                v = 2          # forced true
            else:
                v = 0          # both: true first
            self.trace.append((v, 2 if v == 0 else 1))
        val = v in (0, 2)
        self.pc.append(b.z if val else z3.Not(b.z))
        self.pc_atoms |= b.atoms
        return val

    branch_timeout = 5000

    def sign_known(self, x):
        """+1 if x >= 0 on this path, -1 if x <= 0, else 0"""
        c = SymBool.cmp(x, "<")
        if not isinstance(c, SymBool):
            return -1 if c else 1
        key = ("sign", p_key(x.num), frozenset(x.den.items()), len(self.pc))
        m = self._signs.get(key)
        if m is not None:
            return m
        r = 0
        if self.check([c.z], extra_atoms=c.atoms, timeout=self.branch_timeout) == "unsat":
            r = 1
        else:
            c2 = SymBool.cmp(-x, "<")
            if self.check([c2.z], extra_atoms=c2.atoms, timeout=self.branch_timeout) == "unsat":
                r = -1
        self._signs[key] = r
        return r

    int_range = (-64, 64)

    def concretise_int(self, x):
        """a symbolic integer used as a size/index: split on its feasible values"""
        y = sym_trunc(x) if any(ATOMS[i].kind != "int" for i in s_atoms(x)) else x
        if y.is_const():
            return int(y.const())
        key = (p_key(y.num), frozenset(y.den.items()))
        if key in self._ints:
            return self._ints[key]
        zy = z_poly(y.num)
        if y.den:
            raise Unsupported("integer with a symbolic denominator")
        at = s_atoms(y)
        i = len(self.trace)
        vals = self._int_vals.get((i, key)) if i < len(self.prefix) else None
        if vals is None:
            vals = []
            conds = []
            while True:
                rs, model = self.check(conds, want_model=True, extra_atoms=at)
                if rs == "unsat":
                    break
                v = model.eval(zy, model_completion=True) if rs == "sat" else None
                if v is None or not (z3.is_rational_value(v) or z3.is_int_value(v)) or len(vals) >= 64:
                    raise Unsupported("symbolic integer without a small bound")
                f = Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else v.as_long()
                if f != int(f):
                    raise Unsupported("integer value expected")
                vals.append(int(f))
                conds.append(zy != int(f))
            vals.sort()
            self._int_vals[(i, key)] = vals
        if not vals:
            raise AssumptionFailed()
        v = vals[self._decide(len(vals))] if len(vals) > 1 else vals[0]
        self.pc.append(zy == v)
        self.pc_atoms |= at
        self._ints[key] = v
        return v


CTX = Ctx()


class Explorer:
    """run fn under every feasible decision sequence"""

    def __init__(self, max_paths=4000, deadline=None):
        self.max_paths = max_paths
        self.deadline = deadline

    def run(self, fn):
        prefix = []
        n = 0
        while True:
            CTX.reset_path(prefix)
            try:
                fn()
            except AssumptionFailed:
                pass
            n += 1
            CTX.stats["paths"] += 1
            if n >= self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit reached with paths left to explore")
            # next prefix
            tr = CTX.trace
            while tr:
                v, k = tr[-1]
                if isinstance(v, int) and k == 2 and v == 0:
                    tr[-1] = (1, 2)
                    break
                if k > 2 and v + 1 < k:
                    tr[-1] = (v + 1, k)
                    break
                if k == 2 and v == 0:
                    tr[-1] = (1, 2)
                    break
                tr.pop()
            if not tr:
                return n
            prefix = [v for v, _ in tr]

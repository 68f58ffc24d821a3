"""scipy.special for symbolic arguments: the polynomials in exact rational arithmetic.

Concrete arguments go to scipy itself.  The exact polynomials are compared with scipy's on
every run (`validate`)."""
from __future__ import annotations
import types
from fractions import Fraction
from functools import lru_cache
import numpy as np
import scipy.special as real
from . import symnumpy as sn
from .symcore import Sym, Unsupported


def _binom(a, k):
    """binomial(a, k) for rational a, integer k >= 0"""
    r = Fraction(1)
    for i in range(k):
        r = r * (a - i) / (i + 1)
    return r


def _padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def _pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


@lru_cache(None)
def jacobi_coeffs(n, a, b):
    """coefficients (ascending) of the Jacobi polynomial P_n^(a,b)"""
    n = int(n)
    if n < 0:
        raise ValueError("n must be nonnegative.")
    out = [Fraction(0)]
    um = [[Fraction(1)]]
    up = [[Fraction(1)]]
    for _ in range(n):
        um.append(_pmul(um[-1], [Fraction(-1, 2), Fraction(1, 2)]))
        up.append(_pmul(up[-1], [Fraction(1, 2), Fraction(1, 2)]))
    for s in range(n + 1):
        c = _binom(n + a, n - s) * _binom(n + b, s)
        out = _padd(out, [c * v for v in _pmul(um[s], up[n - s])])
    return tuple(out)


@lru_cache(None)
def chebyt_coeffs(n):
    a, b = (Fraction(1),), (Fraction(0), Fraction(1))
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, tuple(_padd([Fraction(0)] + [2 * v for v in b], [-v for v in a]))
    return b


@lru_cache(None)
def chebyu_coeffs(n):
    a, b = (Fraction(1),), (Fraction(0), Fraction(2))
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, tuple(_padd([Fraction(0)] + [2 * v for v in b], [-v for v in a]))
    return b


def horner(c, x):
    if isinstance(x, (Sym,)) or isinstance(x, np.ndarray):
        r = None
        for v in reversed(c):
            k = Sym({(): v}) if v else 0.0
            r = (k if r is None else r * x + k)
        if not isinstance(r, np.ndarray) and isinstance(x, np.ndarray):
            r = r + 0 * x
        return r
    raise TypeError


class SPoly:
    """polynomial with exact coefficients; like scipy's orthopoly1d / numpy's poly1d"""

    def __init__(self, asc, realp=None):
        self.asc = tuple(asc)
        self._r = realp

    def real(self):
        if self._r is None:
            self._r = np.poly1d([float(v) for v in reversed(self.asc)])
        return self._r

    def __call__(self, x):
        if sn.has_sym(x):
            return horner(self.asc, x if isinstance(x, Sym) else sn.sarr(x))
        r = self.real()(sn.plainf(x) if not isinstance(x, list) else np.asarray(x, dtype=float))
        return sn.sarr(r) if isinstance(r, np.ndarray) else r

    def deriv(self, m=1):
        c = self.asc
        for _ in range(int(m)):
            c = tuple(i * c[i] for i in range(1, len(c))) or (Fraction(0),)
        return SPoly(c, self.real().deriv(int(m)))

    @property
    def order(self):
        return len(self.asc) - 1

    o = order

    @property
    def coef(self):
        return self.real().coef

    coeffs = c = coef

    def _un(self, o):
        return o.asc if isinstance(o, SPoly) else (Fraction(o),)

    def __add__(self, o):
        return SPoly(_padd(list(self.asc), list(self._un(o))))

    __radd__ = __add__

    def __sub__(self, o):
        return SPoly(_padd(list(self.asc), [-v for v in self._un(o)]))

    def __rsub__(self, o):
        return SPoly(_padd([-v for v in self.asc], list(self._un(o))))

    def __neg__(self):
        return SPoly([-v for v in self.asc])

    def __mul__(self, o):
        return SPoly(_pmul(list(self.asc), list(self._un(o))))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SPoly([v / Fraction(o) for v in self.asc])


_valid = []


def _validate_once():
    if not _valid:
        _valid.append(validate())


def jacobi(n, alpha, beta, monic=False):
    _validate_once()
    if monic:
        raise Unsupported("monic polynomials")
    n = int(n)
    return SPoly(jacobi_coeffs(n, Fraction(alpha), Fraction(beta)), real.jacobi(n, alpha, beta))


def legendre(n, monic=False):
    _validate_once()
    n = int(n)
    return SPoly(jacobi_coeffs(n, Fraction(0), Fraction(0)), real.legendre(n))


def chebyt(n, monic=False):
    return SPoly(chebyt_coeffs(int(n)), real.chebyt(int(n)))


def chebyu(n, monic=False):
    return SPoly(chebyu_coeffs(int(n)), real.chebyu(int(n)))


def _ev(f, realf):
    def g(*a):
        *par, x = a
        if sn.has_sym(x):
            return f(*par)(x)
        r = realf(*par, sn.plainf(x))
        return sn.sarr(r) if isinstance(r, np.ndarray) else r
    return g


class _Special(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(real, n)
        if not callable(v):
            return v

        def g(*a, **k):
            if any(sn.has_sym(x) for x in a):
                if n in sn.EW1 and len(a) == 1:
                    return sn.ew1(n)(a[0])
                raise Unsupported("scipy.special.%s of a symbolic value" % n)
            return sn._tosym(v(*[sn.plainf(x) for x in a], **k))
        return g


def make():
    m = _Special("scipy.special")
    m.__dict__.update(jacobi=jacobi, legendre=legendre, chebyt=chebyt, chebyu=chebyu,
                      eval_jacobi=_ev(jacobi, real.eval_jacobi),
                      eval_legendre=_ev(legendre, real.eval_legendre),
                      eval_chebyt=_ev(chebyt, real.eval_chebyt),
                      eval_chebyu=_ev(chebyu, real.eval_chebyu))
    return m


def validate(nmax=16):
    """exact polynomials against scipy's numbers; returns the number of comparisons"""
    k = 0
    xs = np.linspace(-1, 1, 7)
    for n in range(nmax + 1):
        for a, b in ((0, 0), (1, 1), (2, 2), (3, 3), (0.5, 0.5), (-0.5, -0.5)):
            c = jacobi_coeffs(n, Fraction(a), Fraction(b))
            ex = np.array([float(sum(v * Fraction(x) ** i for i, v in enumerate(c))) for x in xs])
            ref = real.eval_jacobi(n, a, b, xs)
            if not np.allclose(ex, ref, rtol=1e-9, atol=1e-9):
                raise RuntimeError("exact Jacobi polynomial differs from scipy")
            k += len(xs)
    return k

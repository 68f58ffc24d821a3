"""documented one-dimensional test functions, in exact arithmetic"""
import os, sys
from fractions import Fraction
import numpy as np
from lib.symspecial import jacobi_coeffs, chebyt_coeffs, _padd, horner

FAMILIES = ("legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain")


def phi_coeffs(family, k):
    """ascending coefficients of the k-th (k >= 1) one-dimensional test function"""
    if family in ("legendre", "jacobi", "legendre_special"):
        return tuple(_padd(list(jacobi_coeffs(k + 1, Fraction(0), Fraction(0))),
                           [-v for v in jacobi_coeffs(k - 1, Fraction(0), Fraction(0))]))
    if family == "chebyshev_2":
        return tuple(_padd(list(chebyt_coeffs(k + 1)), [-v for v in chebyt_coeffs(k - 1)]))
    return jacobi_coeffs(k - 1, Fraction(0), Fraction(0))


def dcoeffs(c, m=1):
    for _ in range(m):
        c = tuple(i * c[i] for i in range(1, len(c))) or (Fraction(0),)
    return c


def ev(h, c, x):
    """polynomial value: symbolic x exactly, numeric x in (exact) rationals"""
    if h.symbolic and not isinstance(x, float):
        r = horner(c, x)
        return r if r is not None else 0.0
    q = Fraction(float(x))
    r = Fraction(0)
    for v in reversed(c):
        r = r * q + v
    return float(r)


def setup(h, family, order, quad_order=3, quad_type="gauss-legendre"):
    return h.module("FE.fe2d_setup_main").FE2DSetupMain(
        cell_type="quadrilateral", fe_order=order, fe_type=family, quad_order=quad_order, quad_type=quad_type)

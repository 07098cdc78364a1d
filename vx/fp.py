"""IEEE double scalars (z3 floating-point theory), for code whose answer
depends on rounding."""
import math
import struct

import numpy as np
import z3

from . import core
from .core import (SymBase, SymBool, SymInt, SymReal, Unsupported, eng, is_sym,
                   mk_bool)

D = z3.Float64()
RNE = z3.RNE()


def lift_fp(v):
    if isinstance(v, SymFP):
        return v.e
    if isinstance(v, SymInt):
        return lift_fp(v.__index__())
    if isinstance(v, SymBase):
        raise Unsupported('mixing real and floating-point values')
    if isinstance(v, (int, np.integer)) and abs(int(v)) > 2 ** 53:
        return z3.FPVal(float(v), D)
    return z3.FPVal(float(v), D)


class SymFP(SymReal):
    """Double-precision value; arithmetic rounds as the hardware does."""
    __slots__ = ()

    def real_e(self):
        raise Unsupported('floating-point value in exact arithmetic')

    def _op(f, swap=False):
        def g(self, o):
            if not (is_sym(o) or core.is_num(o)):
                return NotImplemented
            a, b = lift_fp(self), lift_fp(o)
            return mk(f(b, a) if swap else f(a, b))
        return g
    _add = lambda a, b: z3.fpAdd(RNE, a, b)
    _sub = lambda a, b: z3.fpSub(RNE, a, b)
    _mul = lambda a, b: z3.fpMul(RNE, a, b)
    _dv = lambda a, b: z3.fpDiv(RNE, a, b)
    __add__, __radd__ = _op(_add), _op(_add, True)
    __sub__, __rsub__ = _op(_sub), _op(_sub, True)
    __mul__, __rmul__ = _op(_mul), _op(_mul, True)
    __truediv__, __rtruediv__ = _op(_dv), _op(_dv, True)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def _c(f):
        def g(self, o):
            if not (is_sym(o) or core.is_num(o)):
                return NotImplemented
            return mk_bool(z3.simplify(f(self.e, lift_fp(o))))
        return g
    __lt__ = _c(z3.fpLT)
    __le__ = _c(z3.fpLEQ)
    __gt__ = _c(z3.fpGT)
    __ge__ = _c(z3.fpGEQ)
    __eq__ = _c(z3.fpEQ)
    __ne__ = _c(lambda a, b: z3.Not(z3.fpEQ(a, b)))
    __hash__ = SymBase.__hash__

    def __bool__(self):
        return eng().branch(z3.Not(z3.fpIsZero(self.e)))

    def __float__(self):
        raise Unsupported('float() of a symbolic double')

    def __pow__(self, o, m=None):
        if o == 2:
            return self * self
        raise Unsupported('power of a symbolic double')

    def floor(self):
        return mk(z3.fpRoundToIntegral(z3.RTN(), self.e))

    def ceil(self):
        return mk(z3.fpRoundToIntegral(z3.RTP(), self.e))

    def isfinite(self):
        return mk_bool(z3.simplify(z3.Not(z3.Or(
            z3.fpIsNaN(self.e), z3.fpIsInf(self.e)))))

    def __repr__(self):
        return '<double>'


def mk(e):
    return SymFP(e)


def fadd(op, a, b):
    f = {'add': SymFP.__add__, 'sub': SymFP.__sub__, 'mul': SymFP.__mul__,
         'div': SymFP.__truediv__}[op]
    return f(SymFP(lift_fp(a)), b)


def trunc(x, mode=None, array=False):
    """Integer part of a symbolic double as an int.  Small values fork into
    concrete integers; values out of that range are some integer beyond."""
    if isinstance(x, SymFPI):
        return x
    E = eng()
    e = z3.fpRoundToIntegral(mode or z3.RTZ(), x.e)
    if E.branch(z3.simplify(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e)))):
        if array:
            return -2 ** 63
        if E.branch(z3.fpIsNaN(x.e)):
            raise ValueError('cannot convert float NaN to integer')
        raise OverflowError('cannot convert float infinity to integer')
    return SymFPI(e)


class SymFPI(SymFP):
    """Integer obtained from a double (kept as an integral double)."""
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype('int64')

    def __index__(self):
        return eng().concretize_bv(
            z3.fpToSBV(z3.RTZ(), self.e, z3.BitVecSort(32)))

    __int__ = __index__


def to_float(v):
    b = z3.simplify(z3.fpToIEEEBV(v))
    if z3.is_fp_value(v) and v.isNaN():
        return math.nan
    return struct.unpack('<d', struct.pack('<Q', b.as_long()))[0]

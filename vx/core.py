"""Re-execution symbolic engine: symbolic scalars over z3 terms, path forking,
assertion queries.

A harness is an ordinary Python function; it is executed once per path.  A
branch on a symbolic condition asks the solver which sides are feasible and, if
both are, one side is taken now and the other is queued (depth first).
"""
import math
import os
import sys
import time
from fractions import Fraction

import numpy as _np

sys.set_int_max_str_digits(0)
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:                                     # pragma: no cover
    sys.path.append(_VT)
    import z3

from . import abst, alg                                       # noqa: E402

NAN = float('nan')
INF = float('inf')


class Control(BaseException):
    """Engine control flow; BaseException so that code under test does not
    swallow it."""


class PathEnd(Control):
    """Path is infeasible or cut by an assumption."""


class Unsupported(Control):
    """The real code did something the engine cannot encode."""


class Violated(Control):
    """A check failed on this path; the counterexample has been recorded."""


class BudgetOut(Control):
    """Time or path budget exhausted."""


ENG = None        # current engine


def eng():
    if ENG is None:
        raise RuntimeError('no engine')
    return ENG


# --------------------------------------------------------------------------
# lifting

def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, _np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, _np.integer)):
        return Fraction(int(v))
    return Fraction(float(v))


def is_num(v):
    return isinstance(v, (bool, int, float, Fraction, _np.number, _np.bool_))


def special(v):
    """True for concrete nan/inf."""
    return isinstance(v, (float, _np.floating)) and not math.isfinite(v)


def rv(v):
    f = frac(v)
    return z3.RealVal(f) if f.denominator != 1 else z3.RealVal(f.numerator)


def lift_real(v):
    if isinstance(v, SymNum):
        return v.real_e()
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    return rv(v)


def lift_int(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SymReal):
        raise Unsupported('int context for a real')
    return z3.IntVal(int(v))


def lift_bool(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymNum):
        return v.e != 0
    return z3.BoolVal(bool(v))


def is_intlike(v):
    return isinstance(v, (SymInt, SymBool, bool, int, _np.integer, _np.bool_))


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def _const(e):
    """Concrete Python value of a z3 constant term, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def mk_bool(e):
    c = _const(e)
    if c is not None:
        return _np.bool_(c)
    return SymBool(e)


def mk_real(e):
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return _np.float64(float(f)) if Fraction(float(f)) == f else SymReal(e)
    return SymReal(e)


def mk_int(e):
    if z3.is_int_value(e):
        return int(e.as_long())
    return SymInt(e)


def ite(c, a, b):
    if _is_fp(a) or _is_fp(b):
        return a if bool(c) else b
    return _ite(c, a, b)


def _ite(c, a, b):
    """Merge: value a if c else b, for any mix of concrete and symbolic."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if special(a) or special(b):
        return a if bool(c) else b
    if isinstance(a, (SymBool, bool, _np.bool_)) and \
            isinstance(b, (SymBool, bool, _np.bool_)):
        return mk_bool(z3.simplify(z3.If(c.e, lift_bool(a), lift_bool(b))))
    if not is_sym(a) and not is_sym(b) and a == b and type(a) is type(b):
        return a
    if is_intlike(a) and is_intlike(b):
        return SymInt(z3.If(c.e, lift_int(a), lift_int(b)))
    if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)):
        return SymReal(z3.If(c.e, lift_real(a), lift_real(b)))
    return a if bool(c) else b


# --------------------------------------------------------------------------

class SymBase:
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8
    itemsize = 8

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def _arr(self):
        from .arr import SymArray
        return SymArray.of(self)

    def ravel(self, *a, **k):
        return self._arr().reshape(1)

    flatten = ravel

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def any(self, *a, **k):
        return self

    all = any

    def squeeze(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self._arr()[k]

    def astype(self, t, *a, **k):
        from .arr import cast, kind_of_dtype
        return cast(self, kind_of_dtype(t))

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym %s>' % str(self.e)[:60].replace('\n', ' ')


def _cmp(name):
    def f(self, o):
        if _is_fp(o):
            return getattr(o, {'lt': '__gt__', 'le': '__ge__',
                               'gt': '__lt__', 'ge': '__le__',
                               'eq': '__eq__', 'ne': '__ne__'}[name])(self)
        if special(o):
            if math.isnan(o):
                return name == 'ne'
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False, 'ne': True}[name]
        if not (is_sym(o) or is_num(o)):
            if o is None or isinstance(o, (str, bytes)):
                return {'eq': False, 'ne': True}.get(name, NotImplemented)
            return NotImplemented
        if is_intlike(self) and is_intlike(o):
            a, b = lift_int(self), lift_int(o)
        else:
            a, b = lift_real(self), lift_real(o)
        if a.eq(b):
            return {'lt': False, 'le': True, 'gt': False, 'ge': True,
                    'eq': True, 'ne': False}[name]
        e = {'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b,
             'eq': lambda: a == b, 'ne': lambda: a != b}[name]()
        return mk_bool(e)
    return f


def _spec_arith(op, a, b):
    """a op b where at least one operand is a concrete nan/inf."""
    for v in (a, b):
        if special(v) and math.isnan(v):
            return _np.float64(NAN)
    if op == 'add':
        if special(a) and special(b):
            return _np.float64(a + b)
        return _np.float64(a if special(a) else b)
    if op == 'sub':
        if special(a) and special(b):
            return _np.float64(a - b)
        return _np.float64(a if special(a) else -b)
    if op == 'mul':
        if special(a) and special(b):
            return _np.float64(a * b)
        s, o = (a, b) if special(a) else (b, a)
        if bool(o > 0):
            return _np.float64(s)
        if bool(o < 0):
            return _np.float64(-s)
        return _np.float64(NAN)
    if op == 'div':
        if special(b):
            if special(a):
                return _np.float64(NAN)
            return _np.float64(0.)
        if bool(b > 0):
            return _np.float64(a)
        if bool(b < 0):
            return _np.float64(-a)
        return _np.float64(a)
    raise Unsupported('inf arithmetic ' + op)


def _is_fp(v):
    return isinstance(v, SymReal) and type(v) is not SymReal


def arith(op, a, b):
    if _is_fp(a) or _is_fp(b):
        from . import fp
        return fp.fadd(op, a, b)
    if special(a) or special(b):
        return _spec_arith(op, a, b)
    if op == 'div':
        return _div(a, b)
    ii = is_intlike(a) and is_intlike(b)
    # cheap identities
    if not is_sym(b):
        fb = frac(b)
        if fb == 0:
            if op in ('add', 'sub'):
                return a if not isinstance(a, SymBool) else SymInt(lift_int(a))
            if op == 'mul':
                return 0 if ii else _np.float64(0.)
        elif fb == 1 and op == 'mul' and isinstance(a, SymReal):
            return a
    elif not is_sym(a):
        fa = frac(a)
        if fa == 0:
            if op == 'add':
                if isinstance(b, SymBool):
                    return SymInt(lift_int(b))
                return b
            if op == 'mul':
                return 0 if ii else _np.float64(0.)
        elif fa == 1 and op == 'mul' and isinstance(b, SymReal):
            return b
    if ii:
        x, y = lift_int(a), lift_int(b)
    else:
        x, y = lift_real(a), lift_real(b)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        if x.eq(y):
            return 0 if ii else _np.float64(0.)
        r = x - y
    elif op == 'mul':
        r = x * y
    else:
        raise Unsupported(op)
    return mk_int(r) if ii else mk_real(r)


def _div(a, b):
    if not is_sym(b):
        if frac(b) == 0:
            if is_sym(a):
                if bool(a == 0):
                    return _np.float64(NAN)
                return _np.float64(INF if bool(a > 0) else -INF)
            with _np.errstate(all='ignore'):
                return _np.float64(float(a)) / _np.float64(0.)
        return mk_real(lift_real(a) * z3.RealVal(1 / frac(b)))
    if eng().branch_nz(b):
        x, y = lift_real(a), lift_real(b)
        if x.eq(y):
            return _np.float64(1.)
        if not is_sym(a) and frac(a) == 0:
            return _np.float64(0.)
        return SymReal(x / y)
    if is_sym(a) or is_num(a):
        if bool(a == 0):
            return _np.float64(NAN)
        return _np.float64(INF if bool(a > 0) else -INF)
    raise Unsupported('div')


def floordiv(a, b):
    if is_intlike(a) and is_intlike(b):
        if bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        x, y = lift_int(a), lift_int(b)
        if not is_sym(b):
            if int(b) > 0:
                return mk_int(z3.simplify(x / y))
        q = z3.If(y > 0, x / y, (-x) / (-y))
        return SymInt(q)
    return sym_floor(arith('div', a, b))


def mod(a, b):
    return arith('sub', a, arith('mul', floordiv(a, b), b))


def power(a, b):
    if is_sym(b):
        if not is_sym(a) and not special(a) and float(a) > 0:
            return sym_exp(arith('mul', b, sym_log(_np.float64(a))))
        return sym_exp(arith('mul', b, sym_log(a)))
    if special(b):
        raise Unsupported('power inf')
    fb = frac(b)
    if fb.denominator == 1:
        n = int(fb)
        if n == 0:
            return _np.float64(1.)
        if n < 0:
            return arith('div', _np.float64(1.), power(a, -n))
        if n > 64:
            raise Unsupported('large power')
        r = a
        for _ in range(n - 1):
            r = arith('mul', r, a)
        return r
    if fb == Fraction(1, 2):
        return sym_sqrt(a)
    if fb == Fraction(-1, 2):
        return arith('div', _np.float64(1.), sym_sqrt(a))
    return sym_exp(arith('mul', b, sym_log(a)))


class SymNum(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # arithmetic
    def _bin(op, swap=False):
        def f(self, o):
            if not (is_sym(o) or is_num(o)):
                return NotImplemented
            return arith(op, o, self) if swap else arith(op, self, o)
        return f
    __add__ = _bin('add')
    __radd__ = _bin('add', True)
    __sub__ = _bin('sub')
    __rsub__ = _bin('sub', True)
    __mul__ = _bin('mul')
    __rmul__ = _bin('mul', True)
    __truediv__ = _bin('div')
    __rtruediv__ = _bin('div', True)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    __hash__ = SymBase.__hash__

    def __bool__(self):
        return eng().branch(self.e != 0)

    def conjugate(self):
        return self

    def dot(self, o):
        return self * o

    def round(self, *a):
        return sym_round(self)

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return sym_round(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        if _is_fp(self):
            return sym_trunc(self.ceil())
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    # numpy calls these methods on object-array elements
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sqrt(self):
        return sym_sqrt(self)

    def log10(self):
        return sym_log10(self)

    def floor(self):
        return sym_floor(self)

    def isfinite(self):
        return True

    def is_integer(self):
        return self == sym_floor(self)


class SymReal(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return _np.dtype('float64')

    def real_e(self):
        return self.e

    def __float__(self):
        c = _const(z3.simplify(self.e))
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        return sym_trunc(self).__index__()


class SymInt(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return _np.dtype('int64')

    def real_e(self):
        return z3.ToReal(self.e)

    def __index__(self):
        return eng().concretize(self.e)

    def __int__(self):
        return eng().concretize(self.e)

    def __float__(self):
        return float(eng().concretize(self.e))

    def __and__(self, o):
        return self.__index__() & (o.__index__() if isinstance(o, SymInt)
                                   else o)


class SymBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def dtype(self):
        return _np.dtype('bool')

    def __bool__(self):
        return eng().branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _i(self):
        return SymInt(lift_int(self))

    def __and__(self, o):
        return mk_bool(z3.simplify(z3.And(self.e, lift_bool(o))))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.simplify(z3.Or(self.e, lift_bool(o))))

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, lift_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.simplify(z3.Not(self.e)))

    def _cmpb(name):
        def f(self, o):
            if isinstance(o, (SymBool, bool, _np.bool_)):
                b = lift_bool(o)
                if name == 'eq':
                    return mk_bool(z3.simplify(self.e == b))
                if name == 'ne':
                    return mk_bool(z3.simplify(self.e != b))
            return getattr(self._i(), '__%s__' % name)(o)
        return f
    __eq__ = _cmpb('eq')
    __ne__ = _cmpb('ne')
    __lt__ = _cmpb('lt')
    __le__ = _cmpb('le')
    __gt__ = _cmpb('gt')
    __ge__ = _cmpb('ge')
    __hash__ = SymBase.__hash__

    def _num(name):
        def f(self, o):
            return getattr(self._i(), name)(o)
        return f
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv',
               'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'pow',
               'rpow'):
        locals()['__%s__' % _n] = _num('__%s__' % _n)

    def __neg__(self):
        return -self._i()

    def __abs__(self):
        return self._i()

    def logical_not(self):
        return ~self


# --------------------------------------------------------------------------
# elementary functions

_EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
_LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
_LN10 = None


def sym_floor(x):
    if _is_fp(x):
        return x.floor()
    if isinstance(x, SymInt):
        return x
    if not is_sym(x):
        return _np.floor(x)
    return SymReal(z3.ToReal(z3.ToInt(lift_real(x))))


def sym_trunc(x):
    if _is_fp(x):
        from . import fp
        return fp.trunc(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    e = x.e
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return SymInt(e.arg(0))
    return SymInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def sym_round(x):
    if _is_fp(x):
        from . import fp
        return fp.trunc(x, z3.RNE())
    if isinstance(x, SymInt):
        return x
    e = lift_real(x)
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    return SymInt(z3.If(d < rv(.5), f, z3.If(d > rv(.5), f + 1,
                  z3.If(f % 2 == 0, f, f + 1))))


def _terms(e):
    """Additive terms of a simplified sum-of-monomials term: [(coef, mono)]
    with mono None for the constant."""
    out = []
    if z3.is_add(e):
        for c in e.children():
            out += _terms(c)
        return out
    c = _const(e)
    if c is not None:
        return [(Fraction(c), None)]
    if z3.is_mul(e):
        k = Fraction(1)
        rest = []
        for ch in e.children():
            cc = _const(ch)
            if cc is not None:
                k *= Fraction(cc)
            else:
                rest.append(ch)
        if len(rest) == 1:
            return [(k * c2, m2) for c2, m2 in _terms(rest[0])] \
                if z3.is_add(rest[0]) else [(k, rest[0])]
        return [(k, z3.Product(rest) if rest else None)]
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return [(-c2, m2) for c2, m2 in _terms(e.arg(0))]
    return [(Fraction(1), e)]


def _epow(base, n):
    r = z3.RealVal(1)
    for _ in range(abs(n)):
        r = base if z3.is_rational_value(r) else r * base
    if n < 0:
        r = 1 / r
    return r


def quiet_exp(x):
    """e^x inside a library routine that guards against overflow itself."""
    E = eng()
    w, E.watch_exp = E.watch_exp, None
    try:
        return sym_exp(x)
    finally:
        E.watch_exp = w


def sym_exp(x):
    E = eng()
    if not is_sym(x):
        with _np.errstate(all='ignore'):
            return _np.exp(_np.float64(x))
    E.note_exp(x)
    e = z3.simplify(lift_real(x), som=True)
    num, den = [], []
    for c, m in _terms(e):
        if c == 0:
            continue
        if m is None:
            t = E.exp_atom(rv(abs(c)), const=abs(c))
            (num if c > 0 else den).append(t)
            continue
        if z3.is_app(m) and m.decl().name() == 'log' and c.denominator == 1:
            u = m.arg(0)
            n = int(c)
            t = u
        else:
            d = c.denominator
            t = E.exp_atom(m if d == 1 else m * rv(Fraction(1, d)))
            n = c.numerator
        if n > 8 or n < -8:
            t = E.exp_atom(m * rv(abs(c)))
            n = 1 if c > 0 else -1
        for _ in range(abs(n)):
            (num if n > 0 else den).append(t)
    if not num and not den:
        return _np.float64(1.)
    r = z3.Product(num) if num else z3.RealVal(1)
    if den:
        r = r / z3.Product(den)
        for d in den:
            E.know_nz(d)
    return SymReal(r)


def _factors(e):
    """Multiplicative factors [(base, int power)] when obvious."""
    if z3.is_mul(e):
        out = []
        for c in e.children():
            out += _factors(c)
        return out
    if z3.is_div(e):
        return _factors(e.arg(0)) + [(b, -p) for b, p in _factors(e.arg(1))]
    return [(e, 1)]


def _is_exp(e):
    return z3.is_app(e) and e.num_args() == 1 and e.decl().name() == 'exp'


def sym_log(x):
    E = eng()
    if not is_sym(x):
        with _np.errstate(all='ignore'):
            return _np.log(_np.float64(x))
    e = lift_real(x)
    if not E.surely_pos(e) and not E.branch(e > 0):
        if E.branch(e == 0):
            return _np.float64(-INF)
        return _np.float64(NAN)
    r = _log_alg(E, e)
    if r is not None:
        return r
    fs = _factors(e)
    if len(fs) > 1 or _is_exp(fs[0][0]):
        r = None
        rest_n, rest_d = [], []
        for b, p in fs:
            if _is_exp(b):
                t = b.arg(0) * p
                r = t if r is None else r + t
            else:
                (rest_n if p > 0 else rest_d).append(b)
        if r is not None:
            base = SymReal(r)
            for lst, sg in ((rest_n, 1), (rest_d, -1)):
                if lst:
                    pr = z3.simplify(z3.Product(lst))
                    c = _const(pr)
                    if c is not None:
                        if c != 1:
                            base = base + sg * E.log_const(c)
                        continue
                    base = base + sg * E.log_atom(pr)
            return base
    es = z3.simplify(e, som=True)
    c = _const(es)
    if c is not None:
        return E.log_const(c)
    return E.log_atom(es)


def _log_alg(E, e):
    """log of a ratio of polynomials in exponentials with positive
    denominators: common exponentials come out of the logarithm."""
    try:
        p, d = alg.rat(e, E.atoms)
    except alg.Big:
        return None
    exps = {}

    def expo(i):
        if i not in exps:
            t = E.atoms.terms[i]
            exps[i] = t.arg(0) if _is_exp(t) else None
        return exps[i]

    def posy(f):
        return all(c > 0 and all(expo(i) is not None for i, _ in m)
                   for m, c in f)
    if not p or not all(posy(f) for f in d):
        return None
    out = None

    def plus(v):
        nonlocal out
        out = v if out is None else out + v
    g = tuple((i, k) for i, k in alg.content(p) if expo(i) is not None)
    for i, k in g:
        plus(SymReal(expo(i)) * _np.float64(k))
    for f, k in d.items():
        if len(f) == 1:
            plus(SymReal(expo(f[0][0][0][0])) * _np.float64(-k))
        else:
            plus(E.log_atom(alg.term(dict(f), E.atoms)) * _np.float64(-k))
    p = alg.p_div_m(p, g)
    if len(p) == 1 and alg.ONE in p:
        c = p[alg.ONE]
        if c != 1 or out is None:
            plus(E.log_const(c))
    else:
        lead = abs(alg.key(p)[1])
        if lead != 1:
            plus(E.log_const(lead))
            p = {m: c / lead for m, c in p.items()}
        plus(E.log_atom(alg.term(p, E.atoms)))
    return out


def sym_log10(x):
    if not is_sym(x):
        return _np.log10(_np.float64(x))
    return sym_log(x) / E_ln10()


def E_ln10():
    return _np.float64(math.log(10.))


def sym_sqrt(x):
    E = eng()
    if not is_sym(x):
        with _np.errstate(all='ignore'):
            return _np.sqrt(_np.float64(x))
    e = lift_real(x)
    if not E.branch(e >= 0):
        return _np.float64(NAN)
    return E.sqrt_of(e)


def sym_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np.maximum(a, b)
    for u, v in ((a, b), (b, a)):
        if special(u):
            if math.isnan(u):
                return u
            return u if u > 0 else v
    return ite(a >= b, a, b)


def sym_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np.minimum(a, b)
    for u, v in ((a, b), (b, a)):
        if special(u):
            if math.isnan(u):
                return u
            return u if u < 0 else v
    return ite(a <= b, a, b)


def sym_sign(x):
    if not is_sym(x):
        return _np.sign(x)
    one, zero = (1, 0) if isinstance(x, SymInt) else (_np.float64(1.),
                                                      _np.float64(0.))
    return ite(x > 0, one, ite(x < 0, -one, zero))


# --------------------------------------------------------------------------
# numeric evaluation of terms under a float assignment

def feval(e, env, cache=None):
    """Evaluate a z3 term with floats: real exp/log, variables from env."""
    if cache is None:
        cache = {}
    stack = [e]
    while stack:
        t = stack[-1]
        k = t.get_id()
        if k in cache:
            stack.pop()
            continue
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        cache[k] = (_fe1(t, [cache[c.get_id()][0] for c in ch], env), t)
    return cache[e.get_id()][0]


def _fe1(t, a, env):
    c = _const(t)
    if c is not None:
        return c if isinstance(c, (bool, int)) else float(c)
    k = t.decl().kind()
    n = t.decl().name()
    if not a:
        if n in env:
            return env[n]
        v = 0
        if z3.is_bool(t):
            return False
        if z3.is_real(t):
            return 0.
        return v
    Z = z3
    try:
        if k == Z.Z3_OP_ADD:
            return sum(a)
        if k == Z.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == Z.Z3_OP_UMINUS:
            return -a[0]
        if k == Z.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if k == Z.Z3_OP_DIV:
            return a[0] / a[1] if a[1] != 0 else NAN
        if k == Z.Z3_OP_IDIV:
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if k in (Z.Z3_OP_MOD, Z.Z3_OP_REM):
            return a[0] % abs(a[1])
        if k == Z.Z3_OP_ITE:
            return a[1] if a[0] else a[2]
        if k == Z.Z3_OP_EQ or k == Z.Z3_OP_IFF:
            return a[0] == a[1]
        if k == Z.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == Z.Z3_OP_LE:
            return a[0] <= a[1]
        if k == Z.Z3_OP_LT:
            return a[0] < a[1]
        if k == Z.Z3_OP_GE:
            return a[0] >= a[1]
        if k == Z.Z3_OP_GT:
            return a[0] > a[1]
        if k == Z.Z3_OP_AND:
            return all(a)
        if k == Z.Z3_OP_OR:
            return any(a)
        if k == Z.Z3_OP_NOT:
            return not a[0]
        if k == Z.Z3_OP_XOR:
            return a[0] != a[1]
        if k == Z.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == Z.Z3_OP_TO_REAL:
            return float(a[0])
        if k == Z.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == Z.Z3_OP_POWER:
            return a[0] ** a[1]
        if n == 'exp':
            return math.exp(a[0])
        if n == 'log':
            return math.log(a[0])
        if n == 'sqrt':
            return math.sqrt(a[0])
    except (ValueError, OverflowError, ZeroDivisionError):
        return NAN
    raise Unsupported('feval ' + n)


def has_uf(e, cache):
    k = e.get_id()
    if k in cache:
        return cache[k]
    r = False
    if e.num_args():
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = True
        else:
            r = any(has_uf(c, cache) for c in e.children())
    cache[k] = r
    return r


def model_float(v):
    if z3.is_fp(v):
        from . import fp
        return fp.to_float(v)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported('model value %r' % v)


# --------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.
        self.branches = 0
        self.paths = 0
        self.cut = 0
        self.checks = 0
        self.trivial = 0
        self.unknown = 0
        self.unknown_checks = 0
        self.replayed = 0
        self.validated = 0
        self.unsupported = []
        self.unconfirmed = []
        self.funcs = set()


class Engine:
    QT = 8000            # ms per feasibility query
    CT = 30000           # ms per assertion query

    def __init__(self, stats=None, deadline=None, max_paths=100000):
        self.stats = stats or Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.work = [[]]
        self.inputs = {}           # name -> z3 const

    # -- one path ----------------------------------------------------------
    def start(self, prefix):
        global ENG
        ENG = self
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.QT)
        self.model = None
        self.inputs = {}
        self.exp_atoms = {}
        self.log_atoms = {}
        self.sqrt_atoms = {}
        self.pos_ids = {}
        self.nonneg = {}
        self.linear = False
        self.nz = set()
        self.exp_args = []
        self.atoms = alg.Atoms()
        self.watch_exp = None
        self.hints = []
        self.inexact = False
        self.fp = False

    def run(self, fn, on_path):
        """Run fn on every path; on_path(self, outcome, exc) is called at the
        end of each path, returning True to stop."""
        global ENG
        while self.work:
            if self.stats.paths + self.stats.cut >= self.max_paths or \
                    (self.deadline and time.time() > self.deadline):
                return False
            prefix = self.work.pop()
            self.start(prefix)
            exc = None
            out = 'done'
            try:
                fn()
            except PathEnd:
                out = 'cut'
            except Violated as ex:
                out, exc = 'violated', ex
            except Unsupported as ex:
                out, exc = 'unsupported', ex
            except BudgetOut:
                return False
            except RecursionError as ex:
                out, exc = 'unsupported', ex
            except Exception as ex:
                out, exc = 'exception', ex
            if out == 'cut':
                self.stats.cut += 1
            else:
                self.stats.paths += 1
            stop = on_path(self, out, exc)
            if stop:
                return True
        return True

    # -- solver ------------------------------------------------------------
    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _check(self, *es, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise BudgetOut()
        t = time.time()
        m = None
        if self.linear and es:
            if abst.refuted(z3.And(*es) if len(es) > 1 else es[0], self.pc,
                            self.atoms, self.nonneg, 4000):
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                return z3.unsat, None
        if self.fp:
            # floating-point queries are much faster from scratch
            s = z3.Solver()
            s.set('timeout', timeout or self.QT)
            s.add(*self.pc)
            s.add(*es)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        else:
            if timeout:
                self.solver.set('timeout', timeout)
            self.solver.push()
            for e in es:
                self.solver.add(e)
            r = self.solver.check()
            if r == z3.sat:
                m = self.solver.model()
            self.solver.pop()
            if timeout:
                self.solver.set('timeout', self.QT)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            r, m = self._nl(es, timeout or self.QT)
        return r, m

    def _nl(self, es, timeout):
        """Second try for nonlinear queries: abstract the uninterpreted
        applications by fresh variables (sound for unsat) and use nlsat."""
        t = time.time()
        sub = {}
        fs = [_abstract(f, sub) for f in list(self.pc) + list(es)]
        r, m = z3.unknown, None
        for tac in ('qfnra-nlsat',):
            try:
                s = z3.Then('simplify', 'purify-arith', 'propagate-values',
                            'elim-term-ite', 'solve-eqs', tac).solver()
                s.set('timeout', timeout)
                s.add(*fs)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = s.model()
                if not sub:
                    break
                # exp/log were abstracted: candidate only
                break
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r, m

    def feasible(self, e):
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                return True
        r, m = self._check(e)
        if r == z3.sat:
            self.last = m
            return True
        if r == z3.unknown:
            self.stats.unknown += 1
            self.last = None
            return True
        return False

    def branch(self, e):
        """Decide a symbolic condition, forking when both sides are
        feasible."""
        c = _const(e)
        if c is None:
            e = z3.simplify(e)
            c = _const(e)
        if c is not None:
            return bool(c)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.stats.branches += 1
            self.add(e if d else z3.Not(e))
            self.model = None
            return d
        self.pos += 1
        ne = z3.Not(e)
        t = self.feasible(e)
        mt = self._pick(e) if t else None
        f = self.feasible(ne)
        mf = self._pick(ne) if f else None
        if not t and not f:
            raise PathEnd()
        self.stats.branches += 1
        if t and f:
            self.work.append(self.trace + [False])
            self.trace.append(True)
            self.add(e)
            self.model = mt
            return True
        self.trace.append(t)
        self.add(e if t else ne)
        self.model = mt if t else mf
        return t

    def _pick(self, e):
        if self.model is not None and z3.is_true(
                self.model.eval(e, model_completion=True)):
            return self.model
        return getattr(self, 'last', None)

    def concretize(self, e):
        e = z3.simplify(e)
        c = _const(e)
        if c is not None:
            return int(c)
        return self._conc(e)

    def concretize_bv(self, e):
        """Signed value of a bit vector."""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return self._conc(e)

    def _conc(self, e):
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                v, taken = d
                self.add(e == v if taken else e != v)
                self.model = None
                if taken:
                    return v
                continue
            r, m = self._check()
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathEnd()
                raise Unsupported('cannot concretize')
            v = m.eval(e, model_completion=True)
            v = v.as_signed_long() if z3.is_bv_value(v) else v.as_long()
            self.pos += 1
            r2, _ = self._check(e != v)
            if r2 != z3.unsat:
                self.work.append(self.trace + [(v, False)])
            self.trace.append((v, True))
            self.stats.branches += 1
            self.add(e == v)
            self.model = m
            return v

    def assume(self, e):
        c = _const(z3.simplify(e))
        if c is not None:
            if not c:
                raise PathEnd()
            return
        if self.pos >= len(self.prefix) and not self.feasible(e):
            raise PathEnd()
        self.add(e)
        self.model = None

    def branch_nz(self, b):
        """True if b != 0 (forks)."""
        e = z3.simplify(lift_real(b))
        k = e.get_id()
        for kk, ee in self.nz:
            if kk == k:
                return True
        if self.surely_pos(e) or self.branch(e != 0):
            self.nz.add((k, e))
            return True
        return False

    def surely_pos(self, e):
        """Quotients of sums of products of exponentials with positive
        coefficients are positive; no query needed."""
        if not self.exp_atoms or e.num_args() == 0:
            return False
        try:
            p, d = alg.rat(e, self.atoms)
        except alg.Big:
            return False
        return bool(p) and all(
            c > 0 and all(_is_exp(self.atoms.terms[i]) for i, _ in m)
            for f in [p.items()] + [list(f) for f in d] for m, c in f)

    def know_nz(self, e):
        e = z3.simplify(e)
        self.nz.add((e.get_id(), e))

    # -- exp / log / sqrt --------------------------------------------------
    def note_exp(self, x):
        self.exp_args.append(x)
        if self.watch_exp is not None:
            self.watch_exp(x)

    def exp_atom(self, m, const=None):
        m = z3.simplify(m, som=True)
        k = m.get_id()
        if k in self.exp_atoms:
            return self.exp_atoms[k][1]
        t = _EXP(m)
        self.inexact = True
        self.solver.add(t > 0)
        self.pc.append(t > 0)
        if const is not None:
            v = math.exp(float(const))
            ax = z3.And(t > rv(v * (1 - 1e-9)), t < rv(v * (1 + 1e-9)))
        else:
            ax = z3.And(t >= 1 + m, (m > 0) == (t > 1), (m < 0) == (t < 1))
        self.solver.add(ax)
        self.pc.append(ax)
        for k2, (m2, t2) in self.exp_atoms.items():
            ax = (m < m2) == (t < t2)
            self.solver.add(ax)
            self.pc.append(ax)
        self.exp_atoms[k] = (m, t)
        self.know_nz(t)
        self.model = None
        return t

    def log_atom(self, e):
        k = e.get_id()
        if k in self.log_atoms:
            return SymReal(self.log_atoms[k][1])
        t = _LOG(e)
        self.inexact = True
        ax = z3.And(t <= e - 1, (e > 1) == (t > 0), (e < 1) == (t < 0))
        self.solver.add(ax)
        self.pc.append(ax)
        for k2, (m2, t2) in self.log_atoms.items():
            ax = (e < m2) == (t < t2)
            self.solver.add(ax)
            self.pc.append(ax)
        self.log_atoms[k] = (e, t)
        self.model = None
        return SymReal(t)

    def log_const(self, c):
        return _np.float64(math.log(float(c)))

    def sqrt_of(self, e):
        """Square root with square factors taken out."""
        try:
            p, d = alg.desq(alg.rat(e, self.atoms), self.atoms)
        except alg.Big:
            return self.sqrt_atom(e)
        if not p:
            return _np.float64(0.)
        out = None
        at = self.atoms

        def times(t, k, inv):
            nonlocal out
            v = SymReal(z3.ToReal(t) if z3.is_int(t) else t)
            if not self.known_pos(t):
                v = abs(v)
            for _ in range(k):
                out = v if out is None and not inv else \
                    (1. if out is None else out) / v if inv else out * v
        g = tuple((i, k // 2 * 2) for i, k in alg.content(p) if k > 1)
        p = alg.p_div_m(p, g)
        rest = {}
        for i, k in g:
            times(at.terms[i], k // 2, False)
        for f, k in d.items():
            if k > 1:
                times(alg.term(dict(f), at), k // 2, True)
            if k % 2:
                rest[f] = 1
        if len(p) == 1 and alg.ONE in p and not rest:
            c = SymReal(z3.RealVal(0)) + _np.sqrt(float(p[alg.ONE])) \
                if out is None else _np.sqrt(float(p[alg.ONE]))
            return c if out is None else out * c
        lead = alg.key(p)[1]
        rn, rd = math.isqrt(abs(lead.numerator)), math.isqrt(lead.denominator)
        if lead > 0 and lead != 1 and rn * rn == lead.numerator and \
                rd * rd == lead.denominator:
            c = _np.float64(rn / rd)
            out = c if out is None else out * c
            p = {m: c / lead for m, c in p.items()}
        t = alg.term(p, at)
        if rest:
            t = t / alg.term(alg.d_poly(rest), at)
        r = self.sqrt_atom(t)
        try:
            i = at.of(r.e)
            at.sq.setdefault(i, (p, rest))
        except AttributeError:
            pass
        return r if out is None else out * r

    def known_pos(self, t):
        return t.get_id() in self.pos_ids

    def sqrt_atom(self, e):
        es = z3.simplify(e, som=True)
        k = es.get_id()
        if k in self.sqrt_atoms:
            return SymReal(self.sqrt_atoms[k][1])
        t = z3.Real('sqrt!%d' % len(self.sqrt_atoms))
        for ax in (t >= 0, t * t == es):
            self.solver.add(ax)
            self.pc.append(ax)
        self.sqrt_atoms[k] = (es, t)
        self.model = None
        return SymReal(t)

    # -- inputs ------------------------------------------------------------
    def var(self, name, sort):
        assert name not in self.inputs, name
        if sort == 'd':
            self.fp = True
            c = z3.FP(name, z3.Float64())
        else:
            c = {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[sort](name)
        self.inputs[name] = c
        return c

    def env_of(self, m):
        """name -> exact value for every input under model m."""
        return {n: model_float(m.eval(c, model_completion=True))
                for n, c in self.inputs.items()}


def _abstract(f, sub):
    """Replace applications of exp/log by fresh reals."""
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if not e.num_args():
            r = e
        elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            key = e.sexpr()
            if key not in sub:
                sub[key] = z3.Real('abs!%d' % len(sub))
            r = sub[key]
        else:
            ch = [go(c) for c in e.children()]
            if all(a.eq(b) for a, b in zip(ch, e.children())):
                r = e
            else:
                d = e.decl()
                kk = d.kind()
                if kk == z3.Z3_OP_AND:
                    r = z3.And(ch)
                elif kk == z3.Z3_OP_OR:
                    r = z3.Or(ch)
                elif kk == z3.Z3_OP_ADD:
                    r = z3.Sum(ch)
                elif kk == z3.Z3_OP_MUL:
                    r = z3.Product(ch)
                else:
                    r = d(*ch)
        cache[k] = r
        return r
    return go(f)

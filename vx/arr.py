"""SymArray: object-dtype ndarray subclass holding concrete and symbolic
scalars, with merging (non-forking) versions of the numpy functions whose
default object behaviour would fork on every comparison."""
import builtins
import functools
import itertools
import math
import operator

import numpy as np

from . import core
from .core import (SymBase, SymBool, SymInt, SymNum, SymReal, Unsupported,
                   arith, is_sym, ite, mk_bool, lift_bool, sym_exp, sym_floor,
                   sym_log, sym_max, sym_min, sym_round, sym_sign, sym_sqrt,
                   sym_trunc, z3)

_PLAIN = np.ndarray


def kind_of_dtype(t):
    if t is None:
        return 'f'
    if t in (float,):
        return 'f'
    if t is int:
        return 'i'
    if t is bool:
        return 'b'
    if t is object or t == 'O':
        return 'O'
    try:
        k = np.dtype(t).kind
    except TypeError:
        raise Unsupported('dtype %r' % (t,))
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k, k)


_DT = {'f': np.dtype('float64'), 'i': np.dtype('int64'),
       'b': np.dtype('bool'), 'O': np.dtype('object'),
       'U': np.dtype('U'), 'S': np.dtype('S'), 'c': np.dtype('complex128')}


def nstd(t):
    """The dtype when it is not the standard one of its kind."""
    if t is None or isinstance(t, str) and t == 'O':
        return None
    try:
        d = np.dtype(t)
    except TypeError:
        return None
    return None if d in (_DT['f'], _DT['i'], _DT['b'], _DT['O']) else d


def scal_kind(v):
    if isinstance(v, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(v, (SymInt, int, np.integer)):
        return 'i'
    if isinstance(v, SymReal):
        return v.dtype.kind
    if isinstance(v, (float, np.floating)):
        return 'f'
    if isinstance(v, core.Fraction):
        return 'f'
    if isinstance(v, str):
        return 'U'
    return 'O'


_ORD = 'bifO'


def join_kinds(ks):
    ks = [k for k in ks]
    if not ks:
        return 'f'
    if any(k not in _ORD for k in ks):
        return ks[0] if len(set(ks)) == 1 else 'O'
    return max(ks, key=_ORD.index)


def cast(v, k):
    """Cast a scalar to kind k with numpy's astype semantics."""
    if not is_sym(v):
        if k == 'f':
            return np.float64(v)
        if k == 'i':
            if core.special(v) or isinstance(v, (float, np.floating)) and \
                    abs(v) >= 2. ** 63:
                return -2 ** 63
            return int(v)
        if k == 'b':
            return bool(v)
        return v
    if k == 'f':
        if isinstance(v, SymReal):
            if v.dtype.kind == 'i':
                return type(v).__mro__[1](v.e)
            return v
        return SymReal(core.lift_real(v))
    if k == 'i':
        if core._is_fp(v):
            from . import fp
            return fp.trunc(v, array=True)
        return sym_trunc(v)
    if k == 'b':
        if isinstance(v, SymBool):
            return v
        return v != 0
    return v


def to_scalar(v):
    """Element -> what numpy would hand out (np scalar types for concrete)."""
    if isinstance(v, SymBase):
        return v
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v) if -2**63 <= v < 2**63 else v
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, core.Fraction):
        return np.float64(float(v))
    return v


def is_sarr(x):
    return isinstance(x, SymArray)


def has_sym(x, depth=3):
    if isinstance(x, (SymArray, SymBase)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in x.values())
    return False


def base(x):
    """Plain object ndarray view/copy of anything array-like."""
    if isinstance(x, SymArray):
        return x.view(_PLAIN)
    if isinstance(x, SymBase):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return base(SymArray.of(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def kind_of(x):
    if isinstance(x, SymArray):
        return x._kind
    if isinstance(x, np.ndarray):
        return kind_of_dtype(x.dtype)
    if isinstance(x, (list, tuple)):
        return SymArray.of(x)._kind
    return scal_kind(x)


def wrap(a, kind):
    if isinstance(a, _PLAIN):
        if a.dtype != object:
            a = a.astype(object)
        r = a.view(SymArray)
        r._kind = kind
        return r
    return to_scalar(a)


def wrap0(a, kind):
    """Like wrap but 0-d arrays become scalars."""
    if isinstance(a, _PLAIN) and a.ndim == 0:
        return to_scalar(a.view(_PLAIN)[()])
    return wrap(a, kind)


class SymArray(np.ndarray):
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', 'f')
        self._dt = getattr(obj, '_dt', None)

    # construction ---------------------------------------------------------
    @staticmethod
    def of(x, dtype=None, copy=True):
        if isinstance(x, SymArray):
            k = x._kind if dtype is None else kind_of_dtype(dtype)
            if k == x._kind and not copy:
                return x
            r = x.astype(_DT.get(k, object))
            return r
        if isinstance(x, SymBase) or not isinstance(
                x, (list, tuple, np.ndarray, range)):
            if hasattr(x, '__array__') and not np.isscalar(x) and \
                    not isinstance(x, (SymBase, np.generic)):
                return SymArray.of(np.asarray(x), dtype)
            if not isinstance(x, (SymBase, str, bytes)) and \
                    not np.isscalar(x) and hasattr(x, '__iter__') and \
                    hasattr(x, '__len__') and \
                    not isinstance(x, (dict, set)):
                return SymArray.of(list(x), dtype)
            a = np.empty((), dtype=object)
            a[()] = x
            k = scal_kind(x)
        elif isinstance(x, np.ndarray):
            a = x.astype(object)
            k = kind_of_dtype(x.dtype)
            if x.dtype == object:
                k = join_kinds(scal_kind(v) for v in a.ravel()) \
                    if a.size else 'O'
        else:
            items = [SymArray.of(i) for i in x]
            if not items:
                a = np.empty((0,), dtype=object)
                k = 'f'
            else:
                shp = items[0].shape
                for i in items:
                    if i.shape != shp:
                        raise ValueError(
                            'setting an array element with a sequence. The '
                            'requested array has an inhomogeneous shape')
                a = np.empty((len(items),) + shp, dtype=object)
                for n, i in enumerate(items):
                    a[n] = i.view(_PLAIN) if i.ndim else i.view(_PLAIN)[()]
                k = join_kinds([i._kind for i in items])
        if dtype is not None:
            kk = kind_of_dtype(dtype)
            if kk != k:
                return wrap(_map(lambda v: cast(v, kk), a), kk)
        if k in 'bif':
            a = _map(lambda v: cast(v, k) if scal_kind(v) != k else v, a)
        r = a.view(SymArray)
        r._kind = k
        return r

    # attributes -----------------------------------------------------------
    @property
    def dtype(self):
        d = self._dt
        if d is not None and kind_of_dtype(d) == self._kind:
            return d
        return _DT.get(self._kind, np.dtype(object))

    @property
    def flat(self):
        return [to_scalar(v) for v in self.view(_PLAIN).ravel()]

    def concrete(self):
        return not any(is_sym(v) for v in self.view(_PLAIN).ravel())

    def plain(self):
        """Real numpy array; forks if symbolic bools/ints remain."""
        b = self.view(_PLAIN)
        k = self._kind
        if self.concrete():
            if b.size == 0:
                return np.empty(b.shape, dtype=self.dtype)
            return np.array(b.tolist(), dtype=self.dtype
                            if k in 'bif' else None).reshape(b.shape)
        if k == 'b':
            out = np.empty(b.shape, dtype=bool)
        elif k == 'i':
            out = np.empty(b.shape, dtype=int)
        else:
            raise Unsupported('symbolic real array used where numpy needs '
                              'concrete values')
        f, g = out.reshape(-1), b.reshape(-1)
        for i in range(g.size):
            f[i] = bool(g[i]) if k == 'b' else int(g[i])
        return out

    def __array__(self, dtype=None, *a, **k):
        if self.concrete():
            r = self.plain()
            return r.astype(dtype) if dtype is not None else r
        raise Unsupported('symbolic array converted to numpy')

    # indexing -------------------------------------------------------------
    def __getitem__(self, key):
        key = fix_key(key)
        r = self.view(_PLAIN)[key]
        if isinstance(r, _PLAIN) and (r.ndim or _keeps0(key)):
            return wrap(r, self._kind)
        if isinstance(r, _PLAIN):
            r = r[()]
        return to_scalar(r)

    def __setitem__(self, key, val):
        b = self.view(_PLAIN)
        # symbolic boolean mask: merge instead of forking
        if isinstance(key, SymArray) and key._kind == 'b' and \
                key.shape == self.shape and not key.concrete():
            v = base(val)
            if v.ndim == 0 or v.shape == self.shape and False:
                kk = key.view(_PLAIN)
                vv = self._coerce(v[()])
                for i in np.ndindex(*b.shape):
                    b[i] = ite(kk[i], vv, b[i])
                return
        key = fix_key(key)
        if is_sym(val) or np.isscalar(val) or val is None:
            tmp = np.empty((), dtype=object)
            tmp[()] = self._coerce(val)
            b[key] = tmp if isinstance(b[key], _PLAIN) else tmp[()]
            return
        v = base(val)
        if self._kind in 'bif' and kind_of(val) != self._kind:
            v = _map(self._coerce, v)
        tgt = b[key]
        if isinstance(tgt, _PLAIN):
            b[key] = v
        else:
            if v.size != 1:
                raise ValueError('setting an array element with a sequence.')
            b[key] = v.ravel()[0]

    def _coerce(self, v):
        k = self._kind
        if k in 'bif':
            if k == 'i' and isinstance(v, (float, np.floating)) and \
                    not math.isfinite(v):
                raise ValueError('cannot convert float NaN to integer')
            return cast(v, k)
        return v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(self.shape[0]))

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(self.view(_PLAIN).ravel()[0])

    def _one(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        return self.view(_PLAIN).ravel()[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim:
            raise TypeError('only integer scalar arrays can be converted to '
                            'a scalar index')
        return operator.index(self._one())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, v):
        return bool(o_any(self == v))

    def __reduce__(self):
        raise Unsupported('pickling an array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return 'SymArray(%s)' % (self.view(_PLAIN).tolist(),)

    __str__ = __repr__

    def __format__(self, s):
        return '<symarray>'

    # methods --------------------------------------------------------------
    def _binop(name, swap=False, inplace=False):
        def f(self, o):
            if o is None or isinstance(o, (str, dict, LazyUnique)) or \
                    type(o).__name__ == 'Dual':
                return NotImplemented
            if inplace:
                return ufunc_call(name, (self, o), out=self)
            return ufunc_call(name, (o, self) if swap else (self, o))
        return f
    for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'),
                   ('truediv', 'divide'), ('floordiv', 'floor_divide'),
                   ('mod', 'remainder'), ('pow', 'power'),
                   ('and', 'bitwise_and'), ('or', 'bitwise_or'),
                   ('xor', 'bitwise_xor')):
        locals()['__%s__' % _n] = _binop(_u)
        locals()['__r%s__' % _n] = _binop(_u, swap=True)
        locals()['__i%s__' % _n] = _binop(_u, inplace=True)

    def __matmul__(self, o):
        return o_dot(self, o)

    def __rmatmul__(self, o):
        return o_dot(o, self)

    def _cmpop(name):
        def f(self, o):
            if o is None or isinstance(o, str) and self._kind != 'U':
                v = name == 'not_equal'
                return wrap(_map(lambda _: np.bool_(v), self.view(_PLAIN)),
                            'b')
            try:
                return ufunc_call(name, (self, o))
            except ValueError:
                if name == 'equal':
                    return False
                if name == 'not_equal':
                    return True
                raise
        return f
    for _n, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
                   ('ge', 'greater_equal'), ('eq', 'equal'),
                   ('ne', 'not_equal')):
        locals()['__%s__' % _n] = _cmpop(_u)

    def __neg__(self):
        return ufunc_call('negative', (self,))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ufunc_call('absolute', (self,))

    def __invert__(self):
        return ufunc_call('invert', (self,))

    def astype(self, dtype, *a, copy=True, **kw):
        k = kind_of_dtype(dtype)
        b = self.view(_PLAIN)
        if k == self._kind:
            if not copy and nstd(dtype) == nstd(self.dtype):
                return self
            r = wrap(b.copy(), k)
        else:
            r = wrap(_map(lambda v: cast(v, k), b), k)
        r._dt = nstd(dtype)
        return r

    def copy(self, order='C'):
        r = wrap(self.view(_PLAIN).copy(), self._kind)
        r._dt = self._dt
        return r

    def tolist(self):
        return self.view(_PLAIN).tolist()

    def item(self, *args):
        if not args:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a '
                                 'Python scalar')
            return self.view(_PLAIN).ravel()[0]
        return self.view(_PLAIN).item(*args)

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        return self.plain().tobytes(*a, **k)

    @property
    def real(self):
        return self


def _keeps0(key):
    """x[..., i] style indexing returning 0-d arrays: numpy gives arrays when
    Ellipsis is used."""
    if key is Ellipsis:
        return True
    return isinstance(key, tuple) and any(k is Ellipsis for k in key)


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return out


def fix_key(key):
    if isinstance(key, tuple):
        return tuple(_fk(k) for k in key)
    return _fk(key)


def _fk(k):
    if isinstance(k, SymArray):
        if k._kind == 'f':
            if k.size == 0:
                return k.plain().astype(int)
            raise IndexError('arrays used as indices must be of integer (or '
                             'boolean) type')
        return k.plain()
    if isinstance(k, SymInt):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymReal):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if isinstance(k, slice):
        def s(v):
            return v.__index__() if isinstance(v, SymInt) else v
        return slice(s(k.start), s(k.stop), s(k.step))
    if isinstance(k, list) and has_sym(k):
        return _fk(SymArray.of(k))
    return k


# --------------------------------------------------------------------------
# element functions for ufuncs

def _c2(name, f):
    uf = getattr(np, name)

    def g(a, b):
        if is_sym(a) or is_sym(b):
            return f(a, b)
        with np.errstate(all='ignore'):
            return uf(a, b)
    return g


def _c1(name, f, uf=None):
    uf = uf or getattr(np, name)

    def g(a):
        if is_sym(a):
            return f(a)
        with np.errstate(all='ignore'):
            return uf(a)
    return g


def _lnot(a):
    return mk_bool(z3.simplify(z3.Not(lift_bool(a))))


def _land(a, b):
    return mk_bool(z3.simplify(z3.And(lift_bool(a), lift_bool(b))))


def _lor(a, b):
    return mk_bool(z3.simplify(z3.Or(lift_bool(a), lift_bool(b))))


def _band(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        return _land(a, b)
    return int(a) & int(b)


def _bor(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        return _lor(a, b)
    return int(a) | int(b)


def _bxor(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        return mk_bool(z3.Xor(lift_bool(a), lift_bool(b)))
    return int(a) ^ int(b)


def _inv(a):
    if isinstance(a, SymBool):
        return ~a
    return -a - 1


def _logaddexp(a, b):
    if core.special(a):
        return b if a < 0 else a
    if core.special(b):
        return a if b < 0 else b
    return sym_log(core.quiet_exp(a) + core.quiet_exp(b))


def _log1p(a):
    return sym_log(1. + a)


def _expm1(a):
    return sym_exp(a) - 1.


def _sub(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        raise TypeError('numpy boolean subtract, the `-` operator, is not '
                        'supported')
    return arith('sub', a, b)


def _add(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        return _lor(a, b)
    return arith('add', a, b)


def _mul(a, b):
    if scal_kind(a) == 'b' and scal_kind(b) == 'b':
        return _land(a, b)
    return arith('mul', a, b)


def _neg(a):
    if isinstance(a, SymBool):
        raise TypeError('The numpy boolean negative, the `-` operator, is not'
                        ' supported')
    return -a


def _xlogy(a, b):
    z = a == 0
    if isinstance(z, SymBool):
        return core.np_float(0.) if bool(z) else a * sym_log(b)
    return np.float64(0.) if z else arith('mul', a, sym_log(b))


core.np_float = np.float64


def _expit(a):
    if not is_sym(a):
        import scipy.special
        return scipy.special.expit(a)
    return 1. / (1. + core.quiet_exp(-a))


def _log_expit(a):
    return -sym_log(1. + core.quiet_exp(-a))


def _logit(a):
    return sym_log(a) - sym_log(1. - a)


def _false(a):
    return np.bool_(False)


def _true(a):
    return np.bool_(True)


def _clip(a, lo, hi):
    if not (is_sym(a) or is_sym(lo) or is_sym(hi)):
        return np.clip(a, lo, hi)
    return sym_min(sym_max(a, lo), hi)


def _ceil(a):
    return -sym_floor(-a)


def _sp(name):
    def f(*a):
        import scipy.special
        return getattr(scipy.special, name)(*a)
    return f


def _floorint(a):
    r = sym_floor(a)
    return r


ELEM = {
    'add': _c2('add', _add), 'subtract': _c2('subtract', _sub),
    'multiply': _c2('multiply', _mul),
    'divide': _c2('divide', lambda a, b: arith('div', a, b)),
    'true_divide': _c2('divide', lambda a, b: arith('div', a, b)),
    'floor_divide': _c2('floor_divide', core.floordiv),
    'remainder': _c2('remainder', core.mod),
    'mod': _c2('remainder', core.mod),
    'power': _c2('power', core.power),
    'float_power': _c2('float_power', core.power),
    'negative': _c1('negative', _neg),
    'positive': _c1('positive', lambda a: a),
    'absolute': _c1('absolute', abs), 'fabs': _c1('fabs', abs),
    'sign': _c1('sign', sym_sign), 'exp': _c1('exp', sym_exp),
    'expm1': _c1('expm1', _expm1), 'log': _c1('log', sym_log),
    'log1p': _c1('log1p', _log1p),
    'log10': _c1('log10', core.sym_log10),
    'log2': _c1('log2', lambda a: sym_log(a) / math.log(2.)),
    'sqrt': _c1('sqrt', sym_sqrt),
    'square': _c1('square', lambda a: a * a),
    'reciprocal': _c1('reciprocal', lambda a: 1. / a),
    'conjugate': _c1('conjugate', lambda a: a),
    'maximum': _c2('maximum', sym_max), 'fmax': _c2('fmax', sym_max),
    'minimum': _c2('minimum', sym_min), 'fmin': _c2('fmin', sym_min),
    'greater': _c2('greater', operator.gt),
    'greater_equal': _c2('greater_equal', operator.ge),
    'less': _c2('less', operator.lt),
    'less_equal': _c2('less_equal', operator.le),
    'equal': _c2('equal', operator.eq),
    'not_equal': _c2('not_equal', operator.ne),
    'logical_and': _c2('logical_and', _land),
    'logical_or': _c2('logical_or', _lor),
    'logical_xor': _c2('logical_xor',
                       lambda a, b: mk_bool(z3.Xor(lift_bool(a),
                                                   lift_bool(b)))),
    'logical_not': _c1('logical_not', _lnot),
    'bitwise_and': _c2('bitwise_and', _band),
    'bitwise_or': _c2('bitwise_or', _bor),
    'bitwise_xor': _c2('bitwise_xor', _bxor),
    'invert': _c1('invert', _inv),
    'isnan': _c1('isnan', _false), 'isinf': _c1('isinf', _false),
    'isfinite': _c1('isfinite', _true),
    'signbit': _c1('signbit', lambda a: a < 0),
    'floor': _c1('floor', sym_floor), 'ceil': _c1('ceil', _ceil),
    'rint': _c1('rint', lambda a: cast(sym_round(a), 'f')),
    'trunc': _c1('trunc', lambda a: cast(sym_trunc(a), 'f')),
    'logaddexp': _c2('logaddexp', _logaddexp),
    'hypot': _c2('hypot', lambda a, b: sym_sqrt(a * a + b * b)),
    'heaviside': _c2('heaviside', lambda a, b: ite(
        a > 0, np.float64(1.), ite(a < 0, np.float64(0.), b))),
    'clip': _clip,
    'tanh': _c1('tanh', lambda a: 2. / (1. + sym_exp(-2. * a)) - 1.),
    'expit': _expit,
    'logit': lambda a: _logit(a) if is_sym(a) else _sp('logit')(a),
    'log_expit': lambda a: _log_expit(a) if is_sym(a)
    else _sp('log_expit')(a),
    'xlogy': lambda a, b: _xlogy(a, b) if is_sym(a) or is_sym(b)
    else _sp('xlogy')(a, b),
    'xlog1py': lambda a, b: _xlogy(a, 1. + b) if is_sym(a) or is_sym(b)
    else _sp('xlog1py')(a, b),
}

_BOOLRES = {'greater', 'greater_equal', 'less', 'less_equal', 'equal',
            'not_equal', 'logical_and', 'logical_or', 'logical_xor',
            'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
_FLOATRES = {'divide', 'true_divide', 'exp', 'expm1', 'log', 'log1p', 'log10',
             'log2', 'sqrt', 'floor', 'ceil', 'rint', 'trunc', 'logaddexp',
             'hypot', 'tanh', 'expit', 'logit', 'log_expit', 'xlogy',
             'xlog1py', 'float_power', 'fabs', 'heaviside'}
_KEEPINT = {'floor', 'ceil', 'trunc', 'rint'}


def res_kind(name, kinds):
    if name in _BOOLRES:
        return 'b'
    if name in _FLOATRES:
        return 'f'
    k = join_kinds(kinds)
    if k == 'b' and name in ('subtract', 'negative', 'floor_divide',
                             'remainder', 'power', 'square'):
        return 'i'
    return k


def ufunc_call(name, inputs, out=None, where=True, dtype=None, **kw):
    f = ELEM.get(name)
    if name == 'matmul':
        r = o_dot(inputs[0], inputs[1])
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    if f is None:
        raise Unsupported('ufunc ' + name)
    kinds = [kind_of(i) for i in inputs]
    arrs = [base(i) for i in inputs]
    rk = res_kind(name, kinds)
    if dtype is not None:
        rk = kind_of_dtype(dtype)
    if not all(a.ndim == 0 for a in arrs):
        bc = np.broadcast(*arrs)
        shape = bc.shape
        bs = [np.broadcast_to(a, shape) for a in arrs]
    else:
        shape, bs = (), arrs
    if where is not True:
        if out is None:
            raise Unsupported('ufunc where without out')
        wh = np.broadcast_to(base(where), shape)
    res = np.empty(shape, dtype=object)
    if shape == ():
        res[()] = f(*[a[()] for a in bs])
    else:
        rf = res.reshape(-1)
        its = [a.ravel() for a in bs]
        for i in range(rf.size):
            rf[i] = f(*[t[i] for t in its])
    if rk in 'bif':
        res = _map(lambda v: v if scal_kind(v) == rk else cast(v, rk), res)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArray):
            if _ORD.index(o._kind) < _ORD.index(rk):
                raise np.core._exceptions.UFuncTypeError(getattr(
                    np, name, np.add)) if False else TypeError(
                    "Cannot cast ufunc '%s' output from dtype('%s') to "
                    "dtype('%s') with casting rule 'same_kind'"
                    % (name, _DT[rk], o.dtype))
        if where is not True:
            cur = base(o)
            res = np.broadcast_to(res, o.shape).copy()
            for i in np.ndindex(*o.shape):
                res[i] = ite(wh[i], res[i], cur[i])
        if res.shape != o.shape:
            if np.broadcast_shapes(res.shape, o.shape) != o.shape:
                raise ValueError('non-broadcastable output operand with '
                                 'shape %s' % (o.shape,))
        if not isinstance(o, SymArray):
            if any(is_sym(v) for v in res.ravel()):
                raise Unsupported('symbolic result into a real numpy array')
            o[...] = res.astype(o.dtype)
            return o
        o[...] = wrap(res, rk)
        return o
    if shape == ():
        return to_scalar(res[()])
    return wrap(res, rk)


def _norm_axis(axis, ndim):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(operator.index(a) % ndim for a in axis)
    a = operator.index(axis)
    if not -ndim <= a < ndim:
        raise np.AxisError(a, ndim)
    return (a % ndim,)


def reduce_(f, x, axis=None, keepdims=False, initial=None, kind=None,
            empty=None):
    """Fold f over axis (list of elements -> element)."""
    b = base(x)
    nd = b.ndim
    ax = _norm_axis(axis, nd) if nd else None
    if ax is None:
        lst = list(b.ravel())
        r = f(lst)
        if keepdims:
            o = np.empty((1,) * nd, dtype=object)
            o[...] = r
            return wrap(o, kind)
        return to_scalar(r)
    other = [i for i in range(nd) if i not in ax]
    t = b.transpose(other + list(ax))
    oshape = tuple(b.shape[i] for i in other)
    n = int(np.prod([b.shape[i] for i in ax], dtype=int))
    t = t.reshape(oshape + (n,))
    out = np.empty(oshape, dtype=object)
    for i in np.ndindex(*oshape):
        out[i] = f(list(t[i]))
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else b.shape[i]
                                for i in range(nd)))
    if out.ndim == 0:
        return to_scalar(out[()])
    return wrap(out, kind)


def _fold(op, start=None, what='reduction'):
    def f(lst):
        if not lst:
            if start is None:
                raise ValueError('zero-size array to reduction operation %s '
                                 'which has no identity' % what)
            return start
        return functools.reduce(op, lst)
    return f


_sum_f = _fold(ELEM['add'], 0)


def _numify(lst):
    return [SymInt(core.lift_int(v)) if isinstance(v, SymBool) else
            (int(v) if isinstance(v, (bool, np.bool_)) else v) for v in lst]


def _sum_list(lst):
    return _fold(ELEM['add'], np.float64(0.))(_numify(lst))


def _sumkind(k):
    return 'i' if k in 'bi' else k


def o_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=None):
    if where is not None and where is not np._NoValue and where is not True:
        a = o_where(where, a, 0)
    k = _sumkind(kind_of(a))
    r = reduce_(_sum_list, a, axis, bool(keepdims) and keepdims is not
                np._NoValue, kind=k)
    if isinstance(initial, (int, float)) and initial:
        r = r + initial
    if dtype is not None:
        r = r.astype(dtype) if is_sarr(r) else cast(r, kind_of_dtype(dtype))
    return _out(r, out)


def _out(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def _kd(k):
    return bool(k) and k is not np._NoValue


def o_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return _out(reduce_(_fold(ELEM['multiply'], 1), a, axis, _kd(keepdims),
                        kind=_sumkind(kind_of(a))), out)


def o_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    def f(lst):
        if not lst:
            return np.float64(np.nan)
        return ELEM['divide'](_sum_list(lst), len(lst))
    return _out(reduce_(f, a, axis, _kd(keepdims), kind='f'), out)


def o_average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return o_mean(a, axis)
    w = SymArray.of(weights)
    a = SymArray.of(a)
    if w.shape != a.shape:
        ax = _norm_axis(axis, a.ndim)[0]
        shp = [1] * a.ndim
        shp[ax] = -1
        w = w.reshape(shp)
    r = o_sum(a * w, axis) / o_sum(w * np.ones(a.shape), axis)
    if returned:
        raise Unsupported('average returned')
    return r


def o_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
          **kw):
    def f(lst):
        m = ELEM['divide'](_sum_list(lst), len(lst))
        d = [ELEM['subtract'](v, m) for v in lst]
        return ELEM['divide'](_sum_list([ELEM['multiply'](v, v) for v in d]),
                              len(lst) - ddof)
    return _out(reduce_(f, a, axis, _kd(keepdims), kind='f'), out)


def o_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    v = o_var(a, axis, ddof=ddof, keepdims=keepdims)
    return _out(np_sqrt(v), out)


def np_sqrt(v):
    return ufunc_call('sqrt', (v,))


def o_max(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return _out(reduce_(_fold(sym_max, None, 'maximum'), a, axis,
                        _kd(keepdims), kind=kind_of(a)), out)


def o_min(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    return _out(reduce_(_fold(sym_min, None, 'minimum'), a, axis,
                        _kd(keepdims), kind=kind_of(a)), out)


def o_any(a, axis=None, out=None, keepdims=False, **kw):
    def f(lst):
        bs = [lift_bool(v) for v in lst]
        return mk_bool(z3.simplify(z3.Or(bs))) if bs else np.bool_(False)
    return _out(reduce_(f, a, axis, _kd(keepdims), kind='b'), out)


def o_all(a, axis=None, out=None, keepdims=False, **kw):
    def f(lst):
        bs = [lift_bool(v) for v in lst]
        return mk_bool(z3.simplify(z3.And(bs))) if bs else np.bool_(True)
    return _out(reduce_(f, a, axis, _kd(keepdims), kind='b'), out)


def o_count_nonzero(a, axis=None, keepdims=False):
    def f(lst):
        return _sum_list([cast(v, 'b') for v in lst]) if lst else 0
    return reduce_(f, a, axis, _kd(keepdims), kind='i')


def sort_list(lst):
    """Merging sorting network (odd-even transposition)."""
    lst = list(lst)
    n = len(lst)
    if not any(is_sym(v) for v in lst):
        return sorted(lst)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            a, b = lst[i], lst[i + 1]
            lst[i], lst[i + 1] = sym_min(a, b), sym_max(a, b)
    return lst


def o_sort(a, axis=-1, kind=None, order=None, **kw):
    a = SymArray.of(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    b = np.moveaxis(base(a), axis, -1).copy()
    for i in np.ndindex(*b.shape[:-1]):
        row = sort_list(b[i])
        for j, v in enumerate(row):
            b[i + (j,)] = v
    return wrap(np.moveaxis(b, -1, axis), a._kind)


def o_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    def f(lst):
        n = len(lst)
        if n == 0:
            return np.float64(np.nan)
        if not any(is_sym(v) for v in lst):
            return np.median(np.array(lst, dtype=float))
        if any(core.special(v) and math.isnan(v) for v in lst):
            return np.float64(np.nan)
        s = sort_list(lst)
        if n % 2:
            return cast(s[n // 2], 'f')
        return ELEM['divide'](ELEM['add'](s[n // 2 - 1], s[n // 2]), 2.)
    return _out(reduce_(f, a, axis, _kd(keepdims), kind='f'), out)


def o_quantile(a, q, axis=None, **kw):
    def f(lst):
        s = sort_list(lst)
        pos = (len(s) - 1) * float(q)
        lo = int(math.floor(pos))
        hi = min(lo + 1, len(s) - 1)
        fr = pos - lo
        return s[lo] + (s[hi] - s[lo]) * fr if fr else s[lo]
    if not np.isscalar(q):
        raise Unsupported('vector quantile')
    return reduce_(f, a, axis, kind='f')


def o_percentile(a, q, axis=None, **kw):
    return o_quantile(a, q / 100., axis)


def _argbest(lst, better):
    """Index of the best element, first on ties; forks."""
    best = 0
    for i in range(1, len(lst)):
        if bool(better(lst[i], lst[best])):
            best = i
    return best


def _argred(better):
    def g(a, axis=None, out=None, *, keepdims=False):
        def f(lst):
            if not lst:
                raise ValueError('attempt to get argmax of an empty '
                                 'sequence')
            for i, v in enumerate(lst):
                if core.special(v) and math.isnan(v):
                    return i
            return _argbest(lst, better)
        return reduce_(f, a, axis, _kd(keepdims), kind='i')
    return g


o_argmax = _argred(lambda x, y: x > y)
o_argmin = _argred(lambda x, y: x < y)
o_nanargmax = o_argmax
o_nanargmin = o_argmin


def o_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = SymArray.of(a)

    def f(lst):
        def c(i, j):
            if bool(lst[i] < lst[j]):
                return -1
            return 1 if bool(lst[i] > lst[j]) else 0
        return sorted(range(len(lst)), key=functools.cmp_to_key(c))
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        for j, v in enumerate(f(list(b[i]))):
            out[i + (j,)] = v
    return wrap(np.moveaxis(out, -1, axis), 'i')


def o_where(cond, *xy, **kw):
    if not xy:
        return o_nonzero(cond)
    x, y = xy
    c, a, b = base(cond), base(x), base(y)
    shape = np.broadcast(c, a, b).shape
    k = join_kinds([kind_of(x), kind_of(y)])
    c, a, b = (np.broadcast_to(t, shape) for t in (c, a, b))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = ite(cast(c[i], 'b'), cast(a[i], k) if k in 'bif' else a[i],
                     cast(b[i], k) if k in 'bif' else b[i])
    return wrap(out, k)


def o_nonzero(a):
    a = SymArray.of(a, copy=False)
    if a.ndim == 0:
        a = a.reshape(1)
    return tuple(SymArray.of(i) for i in np.nonzero(a.astype(bool).plain()))


def o_argwhere(a):
    a = SymArray.of(a, copy=False)
    return SymArray.of(np.argwhere(a.astype(bool).plain()))


def o_flatnonzero(a):
    a = SymArray.of(a, copy=False)
    return SymArray.of(np.flatnonzero(a.astype(bool).plain()))


def _dot1(u, v):
    return _fold(ELEM['add'], np.float64(0.))(
        [ELEM['multiply'](*_nb(x, y)) for x, y in zip(u, v)])


def _nb(x, y):
    if scal_kind(x) == 'b' and scal_kind(y) == 'b':
        return _numify([x])[0], y
    return x, y


def o_dot(a, b, out=None):
    ka, kb = kind_of(a), kind_of(b)
    k = join_kinds([ka, kb])
    A, B = base(a), base(b)
    if A.ndim == 0 or B.ndim == 0:
        return ufunc_call('multiply', (a, b))
    if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
        raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
    if A.ndim == 1 and B.ndim == 1:
        return _out(to_scalar(_dot1(A, B)), out)
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported('dot of >2-d arrays')
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    o = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = _dot1(A2[i], B2[:, j])
    if A.ndim == 1:
        o = o[0]
    elif B.ndim == 1:
        o = o[:, 0]
    return _out(wrap(o, k), out)


def o_outer(a, b, out=None):
    a, b = SymArray.of(a).ravel(), SymArray.of(b).ravel()
    return a[:, None] * b[None, :]


def o_vdot(a, b):
    return o_dot(SymArray.of(a).ravel(), SymArray.of(b).ravel())


def o_einsum(spec, *ops, **kw):
    ins, arrow, outs = spec.replace(' ', '').partition('->')
    terms = ins.split(',')
    if not arrow:
        from collections import Counter
        cnt = Counter(''.join(terms))
        outs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    bs = [base(o) for o in ops]
    for t, o in zip(terms, bs):
        for c, d in zip(t, o.shape):
            dims[c] = d
    allc = outs + ''.join(c for c in dims if c not in outs)
    res = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(outs, oi))
        acc = []
        rest = allc[len(outs):]
        for ri in itertools.product(*[range(dims[c]) for c in rest]):
            env.update(zip(rest, ri))
            v = 1.
            for t, o in zip(terms, bs):
                v = ELEM['multiply'](v, o[tuple(env[c] for c in t)])
            acc.append(v)
        res[oi] = _sum_list(acc)
    return wrap0(res, join_kinds([kind_of(o) for o in ops]))


def o_cumsum(a, axis=None, dtype=None, out=None):
    a = SymArray.of(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(base(a), axis, 0).copy()
    for i in range(1, b.shape[0]):
        b[i] = base(ufunc_call('add', (wrap(b[i - 1:i][0:1][0:1].reshape(
            b[i].shape if b.ndim > 1 else ()), a._kind)
            if b.ndim > 1 else b[i - 1], wrap(b[i], a._kind)
            if b.ndim > 1 else b[i])))[()] if b.ndim == 1 else base(
                ufunc_call('add', (wrap(b[i - 1], a._kind),
                                   wrap(b[i], a._kind))))
    return _out(wrap(np.moveaxis(b, 0, axis), _sumkind(a._kind)), out)


class LazyUnique:
    """np.unique of a symbolic 1-d array; the size is available merged, the
    values only by forking."""
    ndim = 1

    def __init__(self, lst, kind):
        self.lst, self.kind, self._v = lst, kind, None

    @property
    def size(self):
        if self._v is not None:
            return self._v.size
        n = 0
        for i, v in enumerate(self.lst):
            new = mk_bool(z3.simplify(z3.And(
                [lift_bool(v != u) for u in self.lst[:i]]))) \
                if i else True
            n = arith('add', SymInt(core.lift_int(new))
                      if is_sym(new) else int(new), n) if is_sym(new) or \
                is_sym(n) else n + int(new)
        if is_sym(n):
            n = core.mk_int(z3.simplify(n.e))
        return n

    @property
    def shape(self):
        return (self.size,)

    def _mat(self):
        if self._v is None:
            out = []
            for v in self.lst:
                if not any(bool(v == u) for u in out):
                    out.append(v)

            def c(a, b):
                return -1 if bool(a < b) else 1
            out.sort(key=functools.cmp_to_key(c))
            self._v = SymArray.of(out, None)
        return self._v

    def __len__(self):
        return operator.index(self.size)

    def __iter__(self):
        return iter(self._mat())

    def __getitem__(self, k):
        return self._mat()[k]

    def __array__(self, *a, **k):
        return self._mat()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._mat(), n)

    def __eq__(self, o):
        return self._mat() == o

    def __ne__(self, o):
        return self._mat() != o


def o_unique(ar, return_index=False, return_inverse=False,
             return_counts=False, axis=None, **kw):
    a = SymArray.of(ar, copy=False)
    if axis is None:
        lst = list(base(a).ravel())
        if any(is_sym(v) for v in lst):
            if a._kind == 'f' and not (return_index or return_inverse or
                                       return_counts):
                return LazyUnique(lst, a._kind)
            if a._kind == 'f':
                u = LazyUnique(lst, 'f')._mat()
                res = [u]
                if return_index:
                    raise Unsupported('unique return_index symbolic')
                inv = [next(j for j, w in enumerate(u) if bool(v == w))
                       for v in lst]
                if return_inverse:
                    res.append(SymArray.of(inv))
                if return_counts:
                    res.append(SymArray.of([inv.count(j)
                                            for j in range(len(u))]))
                return tuple(res)
    elif a._kind == 'f' and not a.concrete():
        if return_index or return_inverse or return_counts:
            raise Unsupported('unique rows of symbolic reals, extras')
        rows = [a[i] for i in range(a.shape[0])] if axis == 0 else None
        if rows is None:
            raise Unsupported('unique axis')
        out = []
        for r in rows:
            if not any(bool(o_all(r == u)) for u in out):
                out.append(r)
        return SymArray.of(out)
    p = a.plain()
    r = np.unique(p, return_index=return_index, return_inverse=return_inverse,
                  return_counts=return_counts, axis=axis)
    if isinstance(r, tuple):
        return tuple(SymArray.of(x) for x in r)
    return SymArray.of(r)


def o_norm(x, ord=None, axis=None, keepdims=False):
    x = SymArray.of(x)
    if ord in (None, 2, 'fro') and (x.ndim == 1 or axis is not None or
                                    ord != 2):
        return np_sqrt(o_sum(x * x, axis=axis, keepdims=keepdims))
    if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
        return o_sum(abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf and (x.ndim == 1 or isinstance(axis, int)):
        return o_max(abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm ord')


def _scalar_args(args):
    return [SymArray.of(a) if isinstance(a, (SymBase, list, tuple)) else a
            for a in args]


def o_concatenate(arrs, axis=0, out=None, **kw):
    arrs = [SymArray.of(a, copy=False) for a in arrs]
    k = join_kinds([a._kind for a in arrs])
    r = np.concatenate([base(a) for a in arrs], axis=axis)
    if k in 'bif':
        r = _map(lambda v: v if scal_kind(v) == k else cast(v, k), r)
    return _out(wrap(r, k), out)


def _stacker(fn):
    def g(arrs, *a, **kw):
        kw.pop('dtype', None)
        kw.pop('casting', None)
        arrs = [SymArray.of(x, copy=False) for x in arrs]
        k = join_kinds([x._kind for x in arrs])
        r = fn([base(x) for x in arrs], *a, **kw)
        if k in 'bif':
            r = _map(lambda v: v if scal_kind(v) == k else cast(v, k), r)
        return wrap(r, k)
    return g


def o_append(arr, values, axis=None):
    arr, values = SymArray.of(arr, copy=False), SymArray.of(values,
                                                            copy=False)
    if axis is None:
        return o_concatenate([arr.ravel(), values.ravel()])
    return o_concatenate([arr, values], axis=axis)


def o_insert(arr, obj, values, axis=None):
    k = join_kinds([kind_of(arr), kind_of(values)])
    return wrap(np.insert(base(arr), fix_key(obj), base(values)
                          if not np.isscalar(values) else values,
                          axis=axis), k)


def o_delete(arr, obj, axis=None):
    return wrap(np.delete(base(arr), fix_key(obj), axis=axis), kind_of(arr))


def _viabase(fn):
    """Shape-only functions: run on the plain object array."""
    def g(a, *args, **kw):
        return wrap0r(fn(base(a), *[fix_key(x) if is_sarr(x) or
                                    isinstance(x, SymInt) else x
                                    for x in args], **kw), kind_of(a))
    return g


def wrap0r(r, k):
    if isinstance(r, tuple):
        return tuple(wrap0r(x, k) for x in r)
    if isinstance(r, list):
        return [wrap0r(x, k) for x in r]
    if isinstance(r, np.ndarray):
        return wrap(r, k)
    return to_scalar(r)


def o_array_equal(a, b, equal_nan=False):
    a, b = SymArray.of(a), SymArray.of(b)
    if a.shape != b.shape:
        return False
    return o_all(a == b)


def o_array_equiv(a, b):
    a, b = SymArray.of(a), SymArray.of(b)
    try:
        np.broadcast(base(a), base(b))
    except ValueError:
        return False
    return o_all(ufunc_call('equal', (a, b)))


def o_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = SymArray.of(a), SymArray.of(b)
    return abs(a - b) <= atol + rtol * abs(b)


def o_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return o_all(o_isclose(a, b, rtol, atol))


def o_nan_to_num(x, copy=True, nan=0., posinf=None, neginf=None):
    def f(v):
        if core.special(v):
            return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
        return v
    if not isinstance(x, (SymArray, np.ndarray, list, tuple)):
        return f(x)
    return wrap(_map(f, base(x)), kind_of(x))


def o_tile(a, reps):
    r = np.tile(base(a), fix_key(reps) if is_sarr(reps) else reps)
    return wrap(r, kind_of(a))


def o_clip(a, a_min=None, a_max=None, out=None, **kw):
    lo = a_min if a_min is not None else -math.inf
    hi = a_max if a_max is not None else math.inf
    return _out(ufunc_call('clip', (a, lo, hi)), out)


def o_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    num = operator.index(num)
    div = (num - 1) if endpoint else num
    if div <= 0:
        return SymArray.of([start] * num if num else [])
    step = (stop - start) / div
    out = [start + step * i for i in range(num)]
    if endpoint:
        out[-1] = stop + 0. * start if is_sym(stop) else stop
    return SymArray.of([cast(v, 'f') for v in out])


def o_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None,
               axis=0):
    x = o_linspace(start, stop, num, endpoint)
    return SymArray.of([pow10(v) for v in x])


def o_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    l0, l1 = ELEM['log'](start), ELEM['log'](stop)
    x = o_linspace(l0, l1, num, endpoint)
    r = [ELEM['exp'](v) for v in x]
    if r:
        r[0] = start
        if endpoint and len(r) > 1:
            r[-1] = stop
    return SymArray.of([cast(v, 'f') for v in r])


def pow10(v):
    if not is_sym(v):
        return np.float64(10.) ** v
    return sym_exp(v * core.E_ln10())


def o_searchsorted(a, v, side='left', sorter=None):
    def one(x):
        n = 0
        for t in SymArray.of(a):
            c = (t < x) if side == 'left' else (t <= x)
            if bool(c):
                n += 1
        return n
    if is_sarr(v) and v.ndim:
        return SymArray.of([one(x) for x in v])
    return one(v)


def o_bincount(x, weights=None, minlength=0):
    if weights is not None and has_sym(weights):
        xi = SymArray.of(x).plain()
        n = builtins.max(minlength, int(xi.max()) + 1 if xi.size else 0)
        out = [0.] * n
        for i, w in zip(xi, SymArray.of(weights)):
            out[i] = out[i] + w
        return SymArray.of(out)
    return SymArray.of(np.bincount(SymArray.of(x).plain(), weights,
                                   minlength))


def o_zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
    return o_full(np.shape(base(a)) if shape is None else shape, 0, k)


def o_ones_like(a, dtype=None, order='K', subok=True, shape=None):
    k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
    return o_full(np.shape(base(a)) if shape is None else shape, 1, k)


def o_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
    return o_empty(np.shape(base(a)) if shape is None else shape, k)


def o_full_like(a, fill_value, dtype=None, order='K', subok=True,
                shape=None):
    k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
    return o_full(np.shape(base(a)) if shape is None else shape, fill_value,
                  k)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(i) for i in s)
    if isinstance(s, np.ndarray):
        return tuple(operator.index(i) for i in s) if s.ndim else \
            (operator.index(s),)
    return (operator.index(s),)


def o_full(shape, v, kind):
    a = np.empty(_shape(shape), dtype=object)
    v = cast(v, kind) if kind in 'bif' else v
    af = a.reshape(-1)
    for i in range(af.size):
        af[i] = v
    return wrap(a, kind)


_UNINIT = [0]


def o_empty(shape, kind='f'):
    """Uninitialised memory: arbitrary values."""
    E = core.ENG
    a = np.empty(_shape(shape), dtype=object)
    af = a.reshape(-1)
    E.uninit = getattr(E, 'uninit', 0)
    for i in range(af.size):
        E.uninit += 1
        if kind == 'i':
            af[i] = SymInt(z3.Int('uninit!%d' % E.uninit))
        elif kind == 'b':
            af[i] = SymBool(z3.Bool('uninit!%d' % E.uninit))
        else:
            af[i] = SymReal(z3.Real('uninit!%d' % E.uninit))
    return wrap(a, kind)


def o_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = o_where(where, src, dst)


def o_put(a, ind, v, mode='raise'):
    a.ravel()[ind] = v if a.flags.c_contiguous else None


def o_putmask(a, mask, values):
    a[mask] = values


def o_take(a, indices, axis=None, out=None, mode='raise'):
    return wrap0(np.take(base(a), fix_key(indices) if has_sym(indices)
                         else indices, axis=axis), kind_of(a))


def o_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = o_where(c, v, r)
    return r


def o_ptp(a, axis=None, **kw):
    return o_max(a, axis) - o_min(a, axis)


def o_diff(a, n=1, axis=-1, **kw):
    b = SymArray.of(a)
    if b.ndim != 1 or n != 1:
        raise Unsupported('diff')
    return b[1:] - b[:-1]


def o_isin(el, test, **kw):
    e = SymArray.of(el)
    t = list(base(SymArray.of(test)).ravel())
    return wrap(_map(lambda v: o_any(SymArray.of([v == u for u in t]))
                     if t else False, base(e)), 'b')


def o_digitize(x, bins, right=False):
    return o_searchsorted(bins, x, side='left' if right else 'right')


def o_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported('round decimals')
    return ufunc_call('rint', (a,))


def o_array_split(ary, n, axis=0):
    return wrap0r(np.array_split(base(ary), n if not has_sym(n) else
                                 fix_key(n), axis=axis), kind_of(ary))


def o_apply_along_axis(f, axis, arr, *a, **k):
    b = SymArray.of(arr)
    if b.ndim == 1:
        return f(b, *a, **k)
    if b.ndim != 2:
        raise Unsupported('apply_along_axis')
    rows = b if axis in (1, -1) else b.T
    return SymArray.of([f(r, *a, **k) for r in rows])


def o_trace(a, *r):
    return o_sum(SymArray.of([a[i, i] for i in range(builtins.min(a.shape))]))


def o_fill_diagonal(a, v, wrap=False):
    for i in range(builtins.min(a.shape)):
        a[i, i] = v


def o_shape(a):
    return base(a).shape


def o_ndim(a):
    return base(a).ndim


def o_size(a, axis=None):
    return base(a).size if axis is None else base(a).shape[axis]


def o_iscomplexobj(x):
    return False


def o_isscalar(x):
    return isinstance(x, SymBase) or np.isscalar(x)


def o_atleast_1d(*a):
    r = []
    for x in a:
        x = SymArray.of(x, copy=False)
        r.append(x.reshape(1) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def o_atleast_2d(*a):
    r = []
    for x in a:
        x = SymArray.of(x, copy=False)
        r.append(x.reshape(1, -1) if x.ndim < 2 else x)
    return r[0] if len(r) == 1 else r


def o_issubdtype(a, b):
    return np.issubdtype(a, b)


def o_result_type(*a):
    return _DT[join_kinds([kind_of(x) for x in a])]


OVR = {}


def _reg():
    g = globals()
    for n in list(g):
        if n.startswith('o_') and hasattr(np, n[2:]):
            OVR[n[2:]] = g[n]
    OVR['amax'] = o_max
    OVR['amin'] = o_min
    OVR['nansum'] = o_sum
    OVR['nanmean'] = o_mean
    OVR['nanmedian'] = o_median
    OVR['nanmax'] = o_max
    OVR['nanmin'] = o_min
    OVR['nanstd'] = o_std
    OVR['nanvar'] = o_var
    OVR['in1d'] = o_isin
    OVR['around'] = o_round
    OVR['round_'] = o_round
    OVR['inner'] = lambda a, b: o_dot(a, b) if base(b).ndim < 2 else \
        o_dot(a, SymArray.of(b).T)
    for n in ('stack', 'hstack', 'vstack', 'dstack', 'column_stack',
              'row_stack'):
        OVR[n] = _stacker(getattr(np, n))
    for n in ('squeeze', 'reshape', 'ravel', 'transpose', 'swapaxes',
              'moveaxis', 'rollaxis', 'expand_dims', 'flip', 'fliplr',
              'flipud', 'roll', 'rot90', 'repeat', 'diag', 'diagonal',
              'split', 'hsplit', 'vsplit', 'triu', 'tril', 'broadcast_to',
              'resize', 'pad', 'compress', 'copy'):
        OVR[n] = _viabase(getattr(np, n))
    OVR['product'] = o_prod
    OVR['sometrue'] = o_any
    OVR['alltrue'] = o_all


_reg()
OVR.pop('full', None)
OVR.pop('empty', None)
OVR.pop('array_split', None)
OVR['array_split'] = o_array_split

_FN2OVR = {}
for _n, _f in OVR.items():
    _FN2OVR[getattr(np, _n)] = _f
_FN2OVR[np.linalg.norm] = o_norm


def _array_function(self, func, types, args, kwargs):
    f = _FN2OVR.get(func)
    if f is not None:
        return f(*args, **kwargs)
    try:
        r = np.ndarray.__array_function__(self, func, types, args, kwargs)
    except TypeError as e:
        raise Unsupported('numpy.%s: %s' % (func.__name__, e))
    return r


def _array_ufunc(self, ufunc, method, *inputs, **kw):
    name = ufunc.__name__
    if method == '__call__':
        return ufunc_call(name, inputs, **kw)
    if method == 'reduce':
        a = inputs[0]
        ax = kw.get('axis', 0)
        kd = kw.get('keepdims', False)
        out = kw.get('out')
        out = out[0] if isinstance(out, tuple) else out
        t = {'add': o_sum, 'multiply': o_prod, 'maximum': o_max,
             'minimum': o_min, 'logical_and': o_all, 'logical_or': o_any}
        if name in t:
            return t[name](a, axis=ax, keepdims=kd, out=out)
        f = ELEM.get(name)
        if f:
            return reduce_(_fold(f, None, name), a, ax, kd,
                           kind=kind_of(a))
    if method == 'accumulate' and name == 'add':
        return o_cumsum(inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = SymArray.of(inputs[0]), SymArray.of(inputs[1])
        return ufunc_call(name, (a.reshape(a.shape + (1,) * b.ndim), b))
    if method == 'at':
        a, idx = inputs[0], fix_key(inputs[1])
        ix = np.arange(a.size).reshape(a.shape)[idx].ravel()
        b = a.view(_PLAIN).reshape(-1)
        vals = None
        if len(inputs) > 2:
            vals = np.broadcast_to(base(inputs[2]), (ix.size,)).ravel()
        for n, i in enumerate(ix):
            b[i] = ELEM[name](b[i], vals[n]) if vals is not None else \
                ELEM[name](b[i])
        return None
    raise Unsupported('ufunc %s.%s' % (name, method))


SymArray.__array_function__ = _array_function
SymArray.__array_ufunc__ = _array_ufunc


def _meth(f):
    def m(self, *a, **k):
        return f(self, *a, **k)
    return m


for _n, _f in dict(sum=o_sum, mean=o_mean, var=o_var, std=o_std, max=o_max,
                   min=o_min, any=o_any, all=o_all, argmax=o_argmax,
                   argmin=o_argmin, prod=o_prod, cumsum=o_cumsum,
                   dot=o_dot, argsort=o_argsort, nonzero=o_nonzero,
                   clip=o_clip, round=o_round, take=o_take, ptp=o_ptp,
                   searchsorted=o_searchsorted, trace=o_trace,
                   ).items():
    setattr(SymArray, _n, _meth(_f))


def _sort_inplace(self, axis=-1, kind=None, order=None):
    self[...] = o_sort(self, axis)


def _repeat_m(self, reps, axis=None):
    return OVR['repeat'](self, reps, axis=axis)


SymArray.sort = _sort_inplace
SymArray.repeat = _repeat_m
SymArray.conjugate = lambda self: self
SymArray.conj = lambda self: self


def conc(x):
    """Convert fully concrete SymArrays / scalars in a structure into real
    numpy values for an external function; Unsupported when symbolic."""
    if isinstance(x, SymArray):
        return x.plain()
    if isinstance(x, LazyUnique):
        return x._mat().plain()
    if isinstance(x, SymBase):
        if isinstance(x, SymInt):
            return x.__index__()
        if isinstance(x, SymBool):
            return bool(x)
        return float(x)
    if isinstance(x, list):
        return [conc(i) for i in x]
    if type(x) is tuple:
        return tuple(conc(i) for i in x)
    if type(x) is dict:
        return {k: conc(v) for k, v in x.items()}
    return x

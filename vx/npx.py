"""Symbolic-mode views of external libraries: numpy, scipy, sklearn."""
import functools
import math
import operator
import types

import numpy as np

from . import arr, core
from .arr import (ELEM, OVR, SymArray, base, conc, has_sym, kind_of_dtype,
                  o_dot, o_empty, o_full, ufunc_call, wrap)
from .core import SymBase, SymReal, Unsupported, is_sym


def lift(r):
    """Real numpy results become SymArrays in symbolic mode."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fiub':
            x = SymArray.of(r)
            x._dt = arr.nstd(r.dtype)
            return x
        return SymArray.of(r)
    if type(r) is tuple:
        return tuple(lift(i) for i in r)
    if type(r) is list:
        return [lift(i) for i in r]
    return r


def _dt(x, dtype):
    x._dt = arr.nstd(dtype)
    return x


def c_zeros(shape, dtype=float, order='C', **k):
    return _dt(o_full(shape, 0, kind_of_dtype(dtype)), dtype)


def c_ones(shape, dtype=None, order='C', **k):
    return _dt(o_full(shape, 1, kind_of_dtype(dtype)), dtype)


def c_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        if arr.is_sarr(fill_value) or isinstance(fill_value, (list, tuple,
                                                              np.ndarray)):
            r = o_full(shape, 0., arr.kind_of(fill_value))
            r[...] = fill_value
            return r
        kd = arr.scal_kind(fill_value)
    else:
        kd = kind_of_dtype(dtype)
    return o_full(shape, fill_value, kd)


def c_empty(shape, dtype=float, order='C', **k):
    return _dt(o_empty(shape, kind_of_dtype(dtype)), dtype)


def c_array(x, dtype=None, copy=True, order='K', ndmin=0, subok=False, **k):
    if isinstance(x, arr.LazyUnique):
        x = x._mat()
    r = SymArray.of(x, dtype, copy=copy)
    if dtype is not None and arr.nstd(dtype) is not None:
        r._dt = arr.nstd(dtype)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return _order(r, order)


def _order(r, order):
    if order == 'C' and not r.flags['C_CONTIGUOUS'] or \
            order == 'F' and not r.flags['F_CONTIGUOUS']:
        n = wrap(np.array(base(r), order=order), r._kind)
        n._dt = r._dt
        return n
    return r


def c_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, arr.LazyUnique):
        x = x._mat()
    if isinstance(x, SymArray):
        if dtype is None or kind_of_dtype(dtype) == x._kind and (
                x._dt is None or np.dtype(dtype) == x._dt):
            return _order(x, order)
        return _order(x.astype(dtype), order)
    return c_array(x, dtype, order=order)


def c_ascontig(x, dtype=None, **k):
    r = c_asarray(x, dtype)
    if r.ndim == 0:
        r = r.reshape(1)
    if not r.flags['C_CONTIGUOUS']:
        r = r.copy()
    return r


def c_arange(*a, dtype=None, **k):
    a = [operator.index(x) if isinstance(x, core.SymInt) else x for x in a]
    if any(is_sym(x) for x in a):
        raise Unsupported('arange of symbolic reals')
    return SymArray.of(np.arange(*a, dtype=dtype))


def c_eye(N, M=None, k=0, dtype=float, **kw):
    return SymArray.of(np.eye(operator.index(N), M, k, dtype))


def c_identity(n, dtype=None, **kw):
    return SymArray.of(np.eye(operator.index(n), dtype=dtype))


def c_fromiter(it, dtype=float, count=-1, **k):
    return SymArray.of(list(it), dtype)


def c_errstate(*a, **k):
    return np.errstate(*a, **k)


CREATE = dict(zeros=c_zeros, ones=c_ones, full=c_full, empty=c_empty,
              array=c_array, asarray=c_asarray, asanyarray=c_asarray,
              ascontiguousarray=c_ascontig, asfortranarray=c_asarray,
              arange=c_arange, eye=c_eye, identity=c_identity,
              fromiter=c_fromiter, float64=None)
CREATE.pop('float64')


class UfuncProxy:
    def __init__(self, uf, name=None):
        self._uf = uf
        self.__name__ = name or uf.__name__

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(k):
            a = list(a)
            nin = self._uf.nin
            if len(a) > nin:
                k['out'] = a[nin]
                a = a[:nin]
            return ufunc_call(self.__name__, a, **k)
        return lift(self._uf(*a, **k))

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, where=True):
        return arr._array_ufunc(None, self._uf, 'reduce', SymArray.of(a),
                                axis=axis, keepdims=keepdims, out=out)

    def accumulate(self, a, axis=0, **k):
        return arr._array_ufunc(None, self._uf, 'accumulate', SymArray.of(a),
                                axis=axis)

    def outer(self, a, b, **k):
        return arr._array_ufunc(None, self._uf, 'outer', a, b)

    def at(self, *a):
        return arr._array_ufunc(None, self._uf, 'at', *a)

    def __getattr__(self, n):
        return getattr(self._uf, n)


@functools.lru_cache(None)
def _ufp(uf):
    return UfuncProxy(uf)


@functools.lru_cache(None)
def _np_fn(name, v):
    ovr = arr._FN2OVR.get(v)
    if ovr is None:
        ovr = OVR.get(name)

    def f(*a, **k):
        if has_sym(a, 4) or has_sym(k):
            if ovr is not None:
                return ovr(*a, **k)
            return lift(v(*conc(a), **conc(k)))
        if ovr is not None and any(isinstance(x, arr.LazyUnique) for x in a):
            return ovr(*[x._mat() if isinstance(x, arr.LazyUnique) else x
                         for x in a], **k)
        return lift(v(*a, **k))
    f.__name__ = name
    f.__vx_real__ = v
    return f


class _RandomStub:
    pass


def external(loader, mod, name, v):
    mn = mod.__name__
    if mn == 'numpy':
        if name in CREATE:
            return CREATE[name]
        if name == 'vectorize':
            return _vectorize
    lib = libmodels()
    if id(v) in lib:
        return lib[id(v)]
    if isinstance(v, np.ufunc):
        return _ufp(v)
    if mn.split('.')[0] == 'numpy' and not isinstance(v, type) and \
            callable(v):
        return _np_fn(name, v)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and \
            mn.split('.')[0] in ('scipy', 'sklearn', 'math', 'statistics'):
        return _ext_fn(mn, name, v)
    return v


def _vectorize(f, **k):
    def g(x):
        return SymArray.of([f(i) for i in SymArray.of(x).flat]).reshape(
            np.shape(base(x)))
    return g


def _ext_fn(mn, name, v):
    if mn == 'math':
        el = ELEM.get({'pow': 'power', 'fabs': 'absolute'}.get(name, name))

        def m(*a):
            if has_sym(a) and el is not None:
                r = el(*a)
                if name == 'log' and core.special(r):
                    raise ValueError('math domain error')
                return r
            return v(*conc(a))
        return m

    def f(*a, **k):
        if has_sym(a, 4) or has_sym(k):
            return lift(v(*conc(a), **conc(k)))
        return lift(v(*a, **k))
    f.__name__ = name
    f.__vx_real__ = v
    return f


# --------------------------------------------------------------------------
# library models (symbolic mode only); keyed by identity of the real object

_LIB = None
_KEEP = []


def libmodels():
    global _LIB
    if _LIB is None:
        from . import skx
        _LIB = {}
        for real, rep in skx.models():
            _KEEP.append(real)
            _LIB[id(real)] = rep
    return _LIB

"""Symbolic models of the scipy / scikit-learn helper functions pyuoi calls.
Each follows the documented behaviour of the library version installed here
and is validated against it by path replay."""
import math
import numbers

import numpy as np

from . import arr, core
from .arr import (SymArray, base, has_sym, o_all, o_any, o_dot, o_max, o_mean,
                  o_sum, ufunc_call, wrap)
from .core import SymReal, Unsupported, is_sym


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if b is not None or return_sign:
        raise Unsupported('logsumexp with weights')
    a = SymArray.of(a)
    s = o_sum(_exp(a), axis=axis, keepdims=keepdims)
    return ufunc_call('log', (s,))


def _exp(a):
    """exp inside a routine that guards against overflow itself."""
    E = core.eng()
    w, E.watch_exp = E.watch_exp, None
    try:
        return ufunc_call('exp', (a,))
    finally:
        E.watch_exp = w


def softmax(x, axis=None):
    e = _exp(SymArray.of(x))
    return e / o_sum(e, axis=axis, keepdims=True)


def safe_sparse_dot(a, b, *, dense_output=False):
    return o_dot(a, b)


def log_logistic(X, out=None):
    r = ufunc_call('log_expit', (X,))
    if out is not None:
        out[...] = r
        return out
    return r


def squared_norm(x):
    x = SymArray.of(x).ravel()
    return o_dot(x, x)


def check_array(array, accept_sparse=False, *, accept_large_sparse=True,
                dtype='numeric', order=None, copy=False,
                force_all_finite=True, ensure_2d=True, allow_nd=False,
                ensure_min_samples=1, ensure_min_features=1, estimator=None,
                input_name=''):
    x = array if isinstance(array, SymArray) else SymArray.of(array)
    tgt = None
    if isinstance(dtype, (list, tuple)):
        if x.dtype not in [np.dtype(d) for d in dtype]:
            tgt = dtype[0]
    elif dtype is not None and not (isinstance(dtype, str) and
                                    dtype == 'numeric'):
        tgt = dtype
    if tgt is not None and arr.kind_of_dtype(tgt) != x._kind:
        x = x.astype(tgt)
    if ensure_2d:
        if x.ndim == 0:
            raise ValueError('Expected 2D array, got scalar array instead')
        if x.ndim == 1:
            raise ValueError('Expected 2D array, got 1D array instead')
    if not allow_nd and x.ndim >= 3:
        raise ValueError('Found array with dim %d' % x.ndim)
    if force_all_finite and x._kind == 'f':
        for v in base(x).ravel():
            if core.special(v):
                raise ValueError('Input contains NaN or infinity')
    if ensure_min_samples > 0 and (x.shape[0] if x.ndim else 1) < \
            ensure_min_samples:
        raise ValueError('Found array with 0 sample(s)')
    if ensure_min_features > 0 and x.ndim == 2 and x.shape[1] < \
            ensure_min_features:
        raise ValueError('Found array with 0 feature(s)')
    if copy and x is array:
        x = x.copy()
    if order == 'C' and not x.flags['C_CONTIGUOUS']:
        x = x.copy()
    return x


def check_X_y(X, y, accept_sparse=False, *, accept_large_sparse=True,
              dtype='numeric', order=None, copy=False, force_all_finite=True,
              ensure_2d=True, allow_nd=False, multi_output=False,
              ensure_min_samples=1, ensure_min_features=1, y_numeric=False,
              estimator=None):
    if y is None:
        raise ValueError('requires y to be passed, but the target y is None')
    X = check_array(X, dtype=dtype, order=order, copy=copy,
                    force_all_finite=force_all_finite, ensure_2d=ensure_2d,
                    allow_nd=allow_nd, ensure_min_samples=ensure_min_samples,
                    ensure_min_features=ensure_min_features)
    y = y if isinstance(y, SymArray) else SymArray.of(y)
    if multi_output:
        y = check_array(y, ensure_2d=False, dtype=None)
    else:
        if y.ndim == 2 and y.shape[1] == 1:
            y = y.ravel()
        elif y.ndim != 1:
            raise ValueError('y should be a 1d array')
        for v in base(y).ravel():
            if core.special(v):
                raise ValueError('Input y contains NaN or infinity.')
    if y_numeric and y._kind == 'O':
        y = y.astype(float)
    check_consistent_length(X, y)
    return X, y


def check_consistent_length(*arrays):
    ls = {np.shape(base(a))[0] for a in arrays if a is not None}
    if len(ls) > 1:
        raise ValueError('Found input variables with inconsistent numbers of '
                         'samples: %r' % (sorted(ls),))


def check_non_negative(X, whom):
    if bool(o_any(SymArray.of(X) < 0)):
        raise ValueError('Negative values in data passed to %s' % whom)


def check_classification_targets(y):
    return None


def normalize(X, norm='l2', *, axis=1, copy=True, return_norm=False):
    X = SymArray.of(X, copy=copy)
    if not X.shape[0] or not X.shape[1]:
        raise ValueError('Found array with 0 sample(s)')
    if norm != 'l2' and norm != 'l1':
        raise Unsupported('normalize norm')
    for i in range(X.shape[0] if axis == 1 else X.shape[1]):
        row = X[i] if axis == 1 else X[:, i]
        if norm == 'l2':
            n = core.sym_sqrt(o_dot(row, row))
        else:
            n = o_sum(abs(row))
        if is_sym(n):
            if bool(n == 0):
                n = 1.
        elif n == 0:
            n = 1.
        if axis == 1:
            X[i] = row / n
        else:
            X[:, i] = row / n
    if return_norm:
        raise Unsupported('return_norm')
    return X


def _classes_of(y):
    return arr.o_unique(y)


class LabelEncoder:
    def fit(self, y):
        self.classes_ = _mat(arr.o_unique(y))
        return self

    def transform(self, y):
        c = list(self.classes_)
        out = []
        for v in SymArray.of(y).ravel():
            for i, k in enumerate(c):
                if bool(v == k):
                    out.append(i)
                    break
            else:
                raise ValueError('y contains previously unseen labels')
        return SymArray.of(out, int)

    def fit_transform(self, y):
        y = SymArray.of(y)
        if y.ndim == 2 and y.shape[1] == 1:
            y = y.ravel()
        if y.ndim != 1:
            raise ValueError('y should be a 1d array')
        return self.fit(y).transform(y)

    def inverse_transform(self, y):
        return self.classes_[y]


def _mat(u):
    return u._mat() if isinstance(u, arr.LazyUnique) else u


class OneHotEncoder:
    def __init__(self, *, categories='auto', drop=None, sparse='deprecated',
                 sparse_output=True, dtype=float, handle_unknown='error',
                 **k):
        self.categories = categories
        self.unk = handle_unknown

    def fit(self, X, y=None):
        X = SymArray.of(X)
        if isinstance(self.categories, str):
            self.categories_ = [_mat(arr.o_unique(X[:, j]))
                                for j in range(X.shape[1])]
        else:
            self.categories_ = [SymArray.of(list(c)) for c in self.categories]
        return self

    def transform(self, X):
        X = SymArray.of(X)
        cols = []
        for j, c in enumerate(self.categories_):
            for k in c:
                cols.append((X[:, j] == k).astype(float))
        return arr.OVR['stack'](cols, axis=1)

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def compute_class_weight(class_weight, *, classes, y):
    n = len(classes)
    if class_weight is None:
        return SymArray.of([1.] * n)
    if isinstance(class_weight, str) and class_weight == 'balanced':
        out = []
        y = SymArray.of(y)
        for c in classes:
            out.append(y.size / (n * arr.o_count_nonzero(y == c)))
        return SymArray.of(out)
    out = []
    for c in classes:
        out.append(next((w for k, w in class_weight.items()
                         if bool(c == k)), 1.))
    return SymArray.of(out)


class StandardScaler:
    """Exact formulas: population mean and standard deviation, unit scale for
    constant features."""

    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None, sample_weight=None):
        X = SymArray.of(X)
        self.mean_ = X.mean(axis=0) if self.with_mean or self.with_std \
            else None
        if self.with_std:
            self.var_ = X.var(axis=0)
            s = []
            for v in self.var_:
                r = core.sym_sqrt(v)
                if is_sym(r):
                    r = core.np_float(1.) if bool(r == 0) else r
                elif r == 0:
                    r = np.float64(1.)
                s.append(r)
            self.scale_ = SymArray.of(s)
        else:
            self.scale_ = self.var_ = None
        return self

    def transform(self, X, copy=None):
        X = SymArray.of(X)
        copy = self.copy if copy is None else copy
        if X._kind != 'f':
            X = X.astype(float)
        elif copy:
            X = X.copy()
        if self.with_mean:
            X -= self.mean_
        if self.with_std:
            X /= self.scale_
        return X

    def fit_transform(self, X, y=None, **k):
        return self.fit(X).transform(X)


def log_loss(y_true, y_pred, *, eps='auto', normalize=True,
             sample_weight=None, labels=None):
    """Mean negative log probability; as in scikit-learn the probabilities
    are paired with the sorted distinct labels."""
    yt = SymArray.of(y_true).ravel()
    yp = SymArray.of(y_pred)
    labs = _mat(arr.o_unique(labels if labels is not None else yt))
    labs = list(labs)
    if len(labs) == 1:
        raise ValueError('y_true contains only one label')
    if yp.ndim == 1:
        yp = yp[:, np.newaxis]
    if yp.shape[1] == 1:
        yp = arr.OVR['stack']([1. - yp[:, 0], yp[:, 0]], axis=1)
    if yp.shape[1] != len(labs):
        raise ValueError('y_true and y_pred contain different number of '
                         'classes')
    check_consistent_length(yt, yp)
    if eps == 'auto':
        eps = np.finfo(np.float64).eps
    s = o_sum(yp, axis=1)
    tot = 0.
    n = yt.size
    for i in range(n):
        for j, lab in enumerate(labs):
            hit = yt[i] == lab
            if isinstance(hit, core.SymBool):
                hit = bool(hit)
            if hit:
                p = yp[i, j]
                if not is_sym(p):
                    p = min(max(float(p), eps), 1 - eps)
                t = arr.ELEM['log'](p)
                w = 1. if sample_weight is None else sample_weight[i]
                tot = tot + (-t) * w
    if normalize:
        if sample_weight is not None:
            return tot / o_sum(SymArray.of(sample_weight))
        return tot / n
    return tot


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    e = SymArray.of(y_true).ravel() == SymArray.of(y_pred).ravel()
    if sample_weight is not None:
        raise Unsupported('accuracy weights')
    c = arr.o_count_nonzero(e)
    return c / e.size if normalize else c


def r2_score(y_true, y_pred, **k):
    y, p = SymArray.of(y_true).ravel(), SymArray.of(y_pred).ravel()
    check_consistent_length(y, p)
    if y.size < 2:
        return float('nan')
    num = o_sum((y - p) ** 2)
    den = o_sum((y - o_mean(y)) ** 2)
    nz = bool(den != 0)
    if nz:
        return 1. - num / den
    return 0.0 if bool(num != 0) else 1.0


def alpha_grid(X, y, Xy=None, l1_ratio=1.0, fit_intercept=True, eps=1e-3,
               n_alphas=100, copy_X=True):
    if l1_ratio == 0:
        raise ValueError('Automatic alpha grid generation is not supported '
                         'for l1_ratio=0')
    X = SymArray.of(X, float)
    y = SymArray.of(y, float)
    n = X.shape[0]
    if Xy is None:
        if fit_intercept:
            X = X - X.mean(axis=0)
        Xy = o_dot(X.T, y)
    if Xy.ndim == 1:
        Xy = Xy[:, np.newaxis]
    am = o_max(ufunc_call('sqrt', (o_sum(Xy ** 2, axis=1),))) / (n * l1_ratio)
    if bool(am <= np.finfo(float).resolution):
        return SymArray.of([np.finfo(float).resolution] * n_alphas)
    return arr.OVR['geomspace'](am, am * eps, num=n_alphas)


def issparse(x):
    return False


def check_random_state(seed):
    import sklearn.utils
    if seed is None or isinstance(seed, (numbers.Integral, np.random.
                                         RandomState)):
        return sklearn.utils.check_random_state(seed)
    return seed


def models():
    import scipy.special
    import scipy.sparse
    import sklearn.linear_model._coordinate_descent as cd
    import sklearn.metrics
    import sklearn.preprocessing
    import sklearn.utils
    import sklearn.utils.class_weight
    import sklearn.utils.extmath as ex
    import sklearn.utils.multiclass as mc
    import sklearn.utils.validation as va
    return [
        (scipy.special.logsumexp, logsumexp),
        (scipy.special.softmax, softmax),
        (scipy.sparse.issparse, issparse),
        (ex.safe_sparse_dot, safe_sparse_dot),
        (ex.log_logistic, log_logistic),
        (ex.squared_norm, squared_norm),
        (sklearn.utils.check_array, check_array),
        (sklearn.utils.check_X_y, check_X_y),
        (sklearn.utils.check_consistent_length, check_consistent_length),
        (va.check_non_negative, check_non_negative),
        (mc.check_classification_targets, check_classification_targets),
        (sklearn.preprocessing.normalize, normalize),
        (sklearn.preprocessing.LabelEncoder, LabelEncoder),
        (sklearn.preprocessing.OneHotEncoder, OneHotEncoder),
        (sklearn.preprocessing.StandardScaler, StandardScaler),
        (sklearn.utils.class_weight.compute_class_weight,
         compute_class_weight),
        (sklearn.metrics.log_loss, log_loss),
        (sklearn.metrics.accuracy_score, accuracy_score),
        (sklearn.metrics.r2_score, r2_score),
        (cd._alpha_grid, alpha_grid),
    ]

"""C28: NMF transform and inverse transform."""
import numpy as np
import sklearn.base

from vx.core import Unsupported
from vx.run import Task

from .nmflib import NMF, Env
from .c27 import tagged

ID = 'C28'
BOUNDS = ('0-3 rows, 1-3 components, 1-3 features; every real or integer '
          'data matrix, every weight matrix and every outcome of the '
          'non-negative regression; components from a fit (fixed bases) or '
          'any real unit-length component; the default regression, a '
          'function and an estimator')
OUTSIDE = 'the non-negative regression itself (unknown here); rounding'


def fitted(w, k, F, nn='nnls', cls='UoI_NMF', sym=False):
    """A fitted model with k components."""
    def bases(c, kk, F_):
        if sym:
            return w.reals('H%d' % c, (kk, F_), .25, 4)
        return tagged(w)(c, kk, F_)

    def labels(n):
        return w.array(np.arange(n))
    env = Env(w, bases, labels)
    kw = {}
    if nn == 'function':
        kw['nnreg'] = env.regress
    elif nn == 'estimator':
        class Reg(sklearn.base.BaseEstimator):
            def fit(self, A, b):
                self.coef_ = env.regress(A, b)
                return self
        kw['nnreg'] = Reg()
    M = getattr(env.L.mod(NMF), cls)
    m = M(n_boots=1, ranks=[k], use_dissimilarity=False, random_state=1,
          **kw)
    return env, m


def train(w, F):
    return w.array(np.arange(1., 1 + F).reshape(1, F))


def data(w, name, shape, kind):
    if kind == 'int':
        return w.ints(name, shape, 0, 9)
    if kind == 'signed':
        return w.reals(name, shape, -9, 9)
    return w.reals(name, shape, 0, 9)


def weights(w, env, C, X0, W, since=0):
    """Every row of W is the regression of that row of X on C."""
    n, k = np.shape(X0)[0], np.shape(C)[0]
    F = np.shape(C)[1]
    w.check(np.shape(W) == (n, k), 'one weight per row and component')
    for i in range(n):
        hit = []
        for A, b, x in env.nn[since:]:
            if np.shape(A) != (F, k) or np.shape(b) != (F,):
                continue
            hit.append(w.all((
                [A[f, j] == C[j, f] for f in range(F) for j in range(k)] +
                [b[f] == X0[i, f] for f in range(F)] +
                [W[i, j] == x[j] for j in range(k)])))
        w.check(bool(hit) and w.any(hit), 'each row is the regression of '
                'that row on the components')


def product(W, C):
    n, k = np.shape(W)
    return [[sum([W[i, j] * C[j, f] for j in range(k)], 0.)
             for f in range(np.shape(C)[1])] for i in range(n)]


def frob(w, X, W, C):
    P = product(W, C)
    s = 0.
    for i in range(np.shape(X)[0]):
        for f in range(np.shape(X)[1]):
            s = s + (X[i, f] - P[i][f]) * (X[i, f] - P[i][f])
    return w.sqrt(s)


def run(w, k, F, n, nn='nnls', kind='real', cls='UoI_NMF', sym=False,
        err=None):
    env, m = fitted(w, k, F, nn, cls, sym)
    m.fit(train(w, F))
    C = m.components_.copy()
    w.check(np.shape(C) == (k, F), 'components')
    X = data(w, 'X', (n, F), kind)
    X0 = X.copy()
    kw = {} if err is None else dict(reconstruction_err=err)
    old = m.reconstruction_err_
    W = m.transform(X, **kw)
    weights(w, env, C, X0, W)
    w.eq(X, X0, 'the data are not modified')
    w.eq(m.components_, C, 'the model is not modified')
    if err is False:
        w.check(m.reconstruction_err_ is old, 'no error was asked for')
    else:
        w.eq(m.reconstruction_err_, frob(w, X0, W, C),
             'the error is the Frobenius norm of the difference')
        W0 = W.copy()
        # another data matrix: the error is updated
        e0 = m.reconstruction_err_
        n0 = len(env.nn)
        Y = data(w, 'Y', (1, F), kind)
        V = m.transform(Y, reconstruction_err=False)
        w.eq(m.reconstruction_err_, e0, 'no error was asked for')
        weights(w, env, C, Y, V, n0)
        V = m.transform(Y)
        w.eq(m.reconstruction_err_, frob(w, Y, V, C),
             'the error is the Frobenius norm of the difference')
        w.eq(W, W0, 'earlier results stay as they are')


def both(w, k, F, n, nn='nnls', err=None, kind='real'):
    """fit_transform is a fit and a transform of the same data."""
    env, m = fitted(w, k, F, nn)
    X = data(w, 'X', (n, F), kind)
    X0 = X.copy()
    kw = {} if err is None else dict(reconstruction_err=err)
    W = m.fit_transform(X, **kw)
    C = m.components_
    w.check(len(env.fits) == 1 and np.shape(C) == (k, F), 'fitted')
    weights(w, env, C, X0, W)
    if err is False:
        w.check(m.reconstruction_err_ is None, 'no error was asked for')
    else:
        w.eq(m.reconstruction_err_, frob(w, X0, W, C),
             'the error is the Frobenius norm of the difference')
    w.eq(X, X0, 'the data are not modified')


def inverse(w, k, F, n, sym=False, kind='real', cls='UoI_NMF'):
    env, m = fitted(w, k, F, sym=sym, cls=cls)
    m.fit(train(w, F))
    C = m.components_.copy()
    W = data(w, 'W', (n, k), kind)
    W0 = W.copy()
    X = m.inverse_transform(W)
    w.check(np.shape(X) == (n, F), 'one row per row of weights')
    P = product(W0, C)
    for i in range(n):
        for f in range(F):
            w.eq(X[i, f], P[i][f], 'weights times components')
    w.eq(W, W0, 'the weights are not modified')
    w.eq(m.components_, C, 'the model is not modified')


def shapes(w, fn):
    k, F = 2, 3
    env, m = fitted(w, k, F)
    m.fit(train(w, F))
    C = m.components_.copy()
    a = w.choose('columns', [1, 2, 3, 4, 6])
    n = w.choose('rows', [1, 2, 3])
    X = data(w, 'X', (n, a), 'real')
    r = w.call(getattr(m, fn), X)
    want = F if fn == 'transform' else k
    if a == want:
        w.check(r.ok, 'a matching shape is accepted', repr(r.exc))
    else:
        w.check(isinstance(r.exc, ValueError), 'incompatible shapes are '
                'refused')
        w.check(not env.nn, 'nothing was computed')
    w.eq(m.components_, C, 'the model is not modified')


def unfitted(w, fn, cls):
    env, m = fitted(w, 2, 3, cls=cls)
    X = data(w, 'X', (2, 3 if fn == 'transform' else 2), 'real')
    r = w.call(getattr(m, fn), X)
    w.check(not r.ok and not isinstance(r.exc, Unsupported),
            'a model that was not fitted is refused')
    w.check(not env.nn, 'nothing was computed')


def tasks(tier):
    out = []

    def add(name, f, **cfg):
        out.append(Task(name, f, cfg))
    dims = ((1, 1, 1), (1, 2, 2), (2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2),
            (1, 3, 3), (3, 3, 1), (2, 3, 3))
    for k, F, n in dims:
        add('transform-%d-%d-%d' % (k, F, n), run, k=k, F=F, n=n)
        add('inverse-%d-%d-%d' % (k, F, n), inverse, k=k, F=F, n=n)
        if n < 3:
            add('both-%d-%d-%d' % (k, F, n), both, k=k, F=F, n=n)
    for nn in ('function', 'estimator'):
        add('transform-' + nn, run, k=2, F=2, n=2, nn=nn)
        add('both-' + nn, both, k=2, F=2, n=2, nn=nn)
    for kind in ('int', 'signed'):
        for nn in ('nnls', 'estimator'):
            add('transform-%s-%s' % (kind, nn), run, k=2, F=2, n=2,
                kind=kind, nn=nn)
        add('inverse-' + kind, inverse, k=2, F=2, n=2, kind=kind)
    add('both-int', both, k=2, F=2, n=2, kind='int')
    for err in (True, False):
        add('transform-err-%d' % err, run, k=2, F=2, n=2, err=err)
        add('both-err-%d' % err, both, k=2, F=2, n=2, err=err)
    add('transform-sym', run, k=1, F=2, n=2, sym=True)
    add('inverse-sym', inverse, k=1, F=2, n=2, sym=True)
    add('inverse-sym2', inverse, k=2, F=2, n=1, sym=True)
    for cls in ('UoI_NMF', 'UoI_NMF_Base'):
        add('transform-' + cls, run, k=2, F=2, n=1, cls=cls)
        add('inverse-' + cls, inverse, k=2, F=2, n=1, cls=cls)
        for fn in ('transform', 'inverse_transform'):
            add('unfitted-%s-%s' % (cls, fn), unfitted, fn=fn, cls=cls)
    for fn in ('transform', 'inverse_transform'):
        add('shapes-' + fn, shapes, fn=fn)
    if tier != 'quick':
        for k, F, n in ((3, 4, 3), (4, 3, 4), (2, 5, 4)):
            add('transform-%d-%d-%d' % (k, F, n), run, k=k, F=F, n=n)
            add('inverse-%d-%d-%d' % (k, F, n), inverse, k=k, F=F, n=n)
    return out

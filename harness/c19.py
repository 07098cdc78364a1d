"""C19: Poisson coordinate descent."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from .solvers import expo

ID = 'C19'
BOUNDS = ('every real design, response, sample weight, penalty, mixing '
          'ratio, tolerance and starting point for 2-3 samples x 1-2 '
          'features (3 features for one sweep), one or two sweeps; during '
          'sweeps the linearization is an arbitrary positive weight and '
          'working response per sample, and the linearization itself is '
          'compared with its formula')
OUTSIDE = 'rounding of double arithmetic; larger shapes; more sweeps'


def cls(w):
    return w.load().mod('pyuoi.linear_model.poisson').Poisson


def soft(w, n):
    P = cls(w)
    x = w.reals('x', n, -5, 5)
    t = w.real('t', 0, 5)
    x0 = x.copy()
    r = P.soft_threshold(x, t)
    w.check(np.shape(r) == (n,), 'shape')
    for i in range(n):
        v = x0[i]
        want = w.ite(v > t, v - t, w.ite(v < -t, v + t, 0.))
        w.eq(r[i], want, 'values shrink towards zero by the threshold')


def linear(w, N, F, icpt):
    P = cls(w)
    X = w.reals('X', (N, F), -2, 2)
    y = w.reals('y', N, 0, 3)
    c = w.reals('c', F, -2, 2)
    b = w.real('b', -2, 2) if icpt else 0
    wt, z = P.adjusted_response(X, y, c, b) if icpt else \
        P.adjusted_response(X, y, c)
    w.check(np.shape(wt) == (N,) and np.shape(z) == (N,), 'shape')
    for i in range(N):
        e = b
        for j in range(F):
            e = e + X[i, j] * c[j]
        mu = expo(w, e)
        w.eq(wt[i], mu, 'the weight is the mean')
        w.eq(z[i], e + y[i] / mu - 1, 'the working response')


def st(v, t):
    if bool(v > t):
        return v - t
    if bool(v < -t):
        return v + t
    return 0.


def descend(w, N, F, icpt, wt, warm, sweeps, l1r, tol, hook=True,
            zero=False):
    """hook: the soft threshold is an unknown function too."""
    P = cls(w)
    if not hasattr(P, 'soft_threshold'):
        raise Unsupported('no threshold hook')
    if not hasattr(P, 'adjusted_response'):
        raise Unsupported('no linearization hook')
    X = w.reals('X', (N, F), -2, 2)
    if zero:
        X[:, F - 1] = 0.
    if hook:
        # (features without any effect: see the tasks without hook)
        for j in range(F):
            w.assume(w.any([abs(X[i, j]) > .25 for i in range(N)]))
    y = np.array([1., 4., 0.][:N])
    sw = w.reals('sw', N, .1, 3) if wt else None
    alpha = w.real('alpha', 0, 2)
    ratio = w.real('l1_ratio', 0, 1) if l1r is None else l1r
    limit = w.real('tol', 0, 1) if tol else -1.
    est = P(alpha=alpha, l1_ratio=ratio, fit_intercept=icpt, solver='cd',
            max_iter=sweeps, tol=limit, warm_start=warm is not None)
    c0 = [0.] * F
    b0 = 0.
    if warm is not None:
        if warm == 'zero':
            est.coef_ = np.zeros(F)
            est.intercept_ = 0.
        else:
            est.coef_ = w.reals('c0', F, -1, 1)
            c0 = [v for v in est.coef_]
            est.intercept_ = w.real('b0', -1, 1) if icpt else 0.
            b0 = est.intercept_
    calls = []

    def adj(X_, y_, coef, intercept=0):
        k = len(calls)
        ww = w.reals('w%d' % k, N, .05, 3)
        zz = w.reals('z%d' % k, N, -3, 3)
        calls.append(([v for v in _flat(coef)], intercept, ww.copy(),
                      zz.copy()))
        return ww, zz
    est.adjusted_response = adj
    cut = []

    def thresh(v, t):
        if np.size(v) != 1 or np.size(t) != 1:
            raise Unsupported('vector threshold')
        s = w.real('s%d' % len(cut), -3, 3)
        w.assume(w.implies(v == 0, s == 0))
        cut.append((v, t, s))
        return s
    if hook:
        est.soft_threshold = thresh
    X0 = X.copy()
    r = w.call(est.fit, X, y) if sw is None else \
        w.call(est.fit, X, y, sample_weight=sw)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    if not calls:
        raise Unsupported('the linearization is not called')
    if hook and not cut:
        raise Unsupported('the threshold is not called')
    c, b = list(c0), b0
    used = 0
    active = list(range(F))
    for k in range(sweeps):
        if k >= len(calls):
            w.check(False, 'the iteration stops only when it has converged')
        cc, cb, W, Z = calls[k]
        for j in range(F):
            w.eq(cc[j], c[j], 'linearized at the current coefficients')
        w.eq(cb, b, 'linearized at the current intercept')
        if sw is not None:
            W = [W[i] * sw[i] for i in range(N)]
        prev = list(c)
        if icpt:
            s, t = 0., 0.
            for i in range(N):
                v = Z[i]
                for j in range(F):
                    v = v - X0[i, j] * c[j]
                s = s + W[i] * v
                t = t + W[i]
            b = s / t
        for j in active:
            num, den = 0., 0.
            for i in range(N):
                v = Z[i] - b
                for l in range(F):
                    if l != j:
                        v = v - X0[i, l] * c[l]
                num = num + W[i] * X0[i, j] * v
                den = den + W[i] * X0[i, j] * X0[i, j]
            num, den = num / N, den / N + alpha * (1 - ratio)
            if not hook:
                # nothing to minimize: a feature without any effect
                c[j] = 0. if bool(den == 0) else \
                    st(num, alpha * ratio) / den
                continue
            w.check(used < len(cut), 'every active coordinate is updated')
            v, t, s = cut[used]
            used += 1
            # the problem may be scaled: S(k v, k t) = k S(v, t)
            k_ = 1
            for k2 in (1, N, 1 / den, 1 / (N * den)):
                if w.same(v, num * k2) and w.same(t, alpha * ratio * k2):
                    k_ = k2
                    break
            w.eq(v, num * k_, 'the partial residual correlation of the '
                 'coordinate is thresholded')
            w.eq(t, alpha * ratio * k_, 'the threshold is the L1 penalty')
            c[j] = s / (den * k_)
        active = [j for j in active if bool(c[j] != 0)]
        if tol:
            if all(bool(abs(c[j] - prev[j]) < limit) for j in range(F)):
                w.check(len(calls) == k + 1, 'a converged fit stops')
                break
    if hook:
        w.check(used == len(cut), 'only active coordinates are updated')
    for j in range(F):
        w.eq(est.coef_[j], c[j],
             'the coefficient is the exact minimizer in its coordinate')
    w.eq(est.intercept_, b, 'the intercept is the weighted mean residual')


def learns(w, N):
    """A warm start from zero coefficients is no obstacle."""
    P = cls(w)
    X = np.array([[1.], [2.], [-1.]])[:N]
    y = np.array([1., 4., 0.])[:N]
    a = P(alpha=0., solver='cd', max_iter=1, warm_start=True)
    a.coef_, a.intercept_ = np.zeros(1), w.real('b', -1, 1)
    a.fit(X, y)
    w.check(a.coef_[0] != 0, 'a warm start from zero still learns')


def tasks(tier):
    out = []
    big = tier != 'quick'
    for n in (1, 2, 3):
        out.append(Task('soft-%d' % n, soft, dict(n=n)))
    for icpt in (True, False):
        for N, F in ((1, 1), (2, 2), (3, 2)):
            out.append(Task('linear-%d-%dx%d' % (icpt, N, F), linear,
                            dict(N=N, F=F, icpt=icpt)))
        for l1r in (None, 0., 1.):
            for wt in (False, True):
                for warm in (None, 'zero', 'any'):
                    for N, F, sweeps in ((2, 1, 1), (2, 2, 1), (2, 3, 1),
                                         (3, 2, 1), (2, 1, 2), (2, 2, 2)) + (
                            ((3, 3, 1), (2, 2, 3)) if big else ()):
                        if l1r is not None and (wt or warm == 'any') and \
                                not big:
                            continue
                        out.append(Task('cd-%d-%s-%d-%s-%dx%d-s%d' % (
                            icpt, l1r, wt, warm, N, F, sweeps), descend,
                            dict(N=N, F=F, icpt=icpt, wt=wt, warm=warm,
                                 sweeps=sweeps, l1r=l1r, tol=False)))
        for F in (1, 2):
            out.append(Task('cd-%d-tol-F%d' % (icpt, F), descend,
                            dict(N=2, F=F, icpt=icpt, wt=False, warm=None,
                                 sweeps=2, l1r=1., tol=True)))
        out.append(Task('cd-%d-tol-s3' % icpt, descend,
                        dict(N=2, F=1, icpt=icpt, wt=False, warm=None,
                             sweeps=3, l1r=1., tol=True)))
    for l1r in (0., 1., None):
        for warm in (None, 'zero', 'any'):
            out.append(Task('plain-%s-%s' % (l1r, warm), descend,
                            dict(N=2, F=1, icpt=False, wt=False, warm=warm,
                                 sweeps=1, l1r=l1r, tol=False,
                                 hook=False)))
    for l1r in (0., 1., None):
        out.append(Task('plain-%s-zero' % l1r, descend,
                        dict(N=2, F=2, icpt=False, wt=False, warm=None,
                             sweeps=2 if l1r == 1. else 1, l1r=l1r,
                             tol=False, hook=False, zero=True)))
    out.append(Task('learns', learns, dict(N=3)))
    return out

"""C21: softmax and sigmoid."""
import numpy as np

from vx.run import Task

ID = 'C21'
BOUNDS = ('every real input of magnitude up to 1e6 (softmax: vectors of 1-4 '
          'entries, matrices up to 2x3 on either axis; sigmoid: scalars and '
          'vectors up to 3); exp/log are the real functions')
OUTSIDE = 'double rounding; longer vectors'


def expo(w, v):
    return np.exp(w.array([v]))[0]


def utils(w):
    return w.load().mod('pyuoi.utils')


def watched(w, f):
    """f() with every exponential it takes kept within double range; a
    violation is confirmed by the wrong or NaN result it gives."""
    args = []
    w.watch_exp(args.append)
    r = f()
    w.watch_exp(None)
    for a in args:
        w.check(a <= 700, 'no exponential overflows')
    return r


def sig(w, n, big):
    u = utils(w)
    lim = 1e6 if big else 30
    scalar = n == 0
    x = w.real('x', -lim, lim) if scalar else w.reals('x', n, -lim, lim)
    s = watched(w, lambda: u.sigmoid(x))
    t = watched(w, lambda: u.sigmoid(-x))
    w.check(np.shape(s) == (() if scalar else (n,)), 'shape')
    xs = [x] if scalar else list(x)
    ss = [s] if scalar else list(s)
    ts = [t] if scalar else list(t)
    for v, p, q in zip(xs, ss, ts):
        w.check(w.and_(p >= 0, p <= 1), 'sigmoid lies in [0, 1]')
        w.check(w.near(p + q, 1.), 'sigmoid(x) + sigmoid(-x) = 1')
        if not big:
            w.eq(p, 1 / (1 + expo(w, -v)), 'sigmoid value')


def soft(w, shape, axis, big):
    u = utils(w)
    lim = 1e6 if big else 30
    y = w.reals('y', shape, -lim, lim)
    y0 = y.copy()
    p = watched(w, lambda: u.softmax(y) if axis is None
                else u.softmax(y, axis=axis))
    ax = -1 if axis is None else axis
    w.check(np.shape(p) == tuple(np.shape(y0)), 'shape')
    w.check(w.all([a == b for a, b in zip(y.ravel(), y0.ravel())]),
            'input unchanged')
    P = np.moveaxis(p, ax, -1).reshape(-1, np.shape(y0)[ax])
    Y = np.moveaxis(y0, ax, -1).reshape(-1, np.shape(y0)[ax])
    n = P.shape[1]
    for i in range(P.shape[0]):
        tot = 0.
        for k in range(n):
            w.check(P[i, k] >= 0, 'entries are not negative')
            tot = tot + P[i, k]
        w.check(w.near(tot, 1.), 'entries sum to one')
        if big:
            continue
        for k in range(n):
            for j in range(n):
                if j != k:
                    w.eq(P[i, j], P[i, k] * expo(w, Y[i, j] - Y[i, k]),
                         'softmax value')


def tasks(tier):
    out = []
    for n in (0, 1, 2, 3):
        for big in (False, True):
            out.append(Task('sigmoid-%d%s' % (n, '-big' * big), sig,
                            dict(n=n, big=big)))
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    for big in (False, True):
        for n in ns:
            out.append(Task('softmax-%d%s' % (n, '-big' * big), soft,
                            dict(shape=(n,), axis=None, big=big)))
        for shape in ((1, 2), (2, 2), (2, 3), (3, 2)):
            for axis in (None, 0, 1, -1):
                out.append(Task('softmax-%dx%d-%s%s' % (
                    shape + (axis, '-big' * big)), soft,
                    dict(shape=shape, axis=axis, big=big)))
    return out

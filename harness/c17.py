"""C17: logistic and multinomial objectives and gradients."""
import itertools

import numpy as np

from vx.run import Task

ID = 'C17'
BOUNDS = ('every real design, coefficient vector, intercept, sample weight '
          'and penalty, every label assignment and every coefficient mask, '
          'for 1-3 samples x 1-2 features (binary) and 1-2 samples x 1-2 '
          'features x 2-3 classes; exp/log are the real functions '
          '(uninterpreted with their algebraic laws)')
OUTSIDE = 'rounding of double arithmetic; larger shapes'


def expo(w, v):
    return np.exp(w.array([v]))[0]


def loga(w, v):
    return np.log(w.array([v]))[0]


def binary(w, N, F, icpt, wt, masked):
    L = w.load()
    f = L.mod('pyuoi.linear_model.logistic')._logistic_loss_and_grad
    X = w.reals('X', (N, F), -3, 3)
    y = np.array(w.choose('y', list(itertools.product([-1., 1.],
                                                      repeat=N))))
    x = w.reals('x', F + int(icpt), -2, 2)
    l2 = w.real('l2', 0, 10)
    sw = w.reals('sw', N, 0, 5) if wt == 'sym' else None
    mask = None
    if masked:
        mask = np.array(w.choose('mask', list(itertools.product(
            [0., 1.], repeat=F))))
        if masked == 'bool':
            mask = mask.astype(bool)
    x_in = x.copy()
    r = w.call(f, x, X, y, l2, mask, sw)
    w.check(r.ok, 'evaluation succeeds', repr(r.exc))
    out, grad = r.value
    w.check(np.shape(grad) == (F + int(icpt),), 'gradient shape')
    m = [1.] * F if mask is None else [float(v) for v in mask]
    c = [x_in[j] * m[j] for j in range(F)]
    b = x_in[F] if icpt else 0.
    loss, g, gb = 0., [0.] * F, 0.
    for i in range(N):
        z = b
        for j in range(F):
            z = z + X[i, j] * c[j]
        wi = 1. if sw is None else sw[i]
        e = expo(w, -(z * float(y[i])))
        loss = loss + wi * loga(w, 1 + e)
        d = -wi * float(y[i]) * (e / (1 + e))
        for j in range(F):
            g[j] = g[j] + d * X[i, j]
        gb = gb + d
    loss = loss / N
    for j in range(F):
        loss = loss + .5 * l2 * c[j] * c[j]
        g[j] = (g[j] / N + l2 * c[j]) * m[j]
    w.eq(out, loss, 'objective')
    for j in range(F):
        w.eq(grad[j], g[j], 'gradient in a coefficient')
    if icpt:
        w.eq(grad[F], gb / N, 'gradient in the intercept')
    w.eq(x, x_in, 'the point is left alone')


def multi(w, N, F, K, icpt, wt, masked):
    L = w.load()
    f = L.mod('pyuoi.linear_model.logistic')._multinomial_loss_grad
    X = w.reals('X', (N, F), -3, 3)
    y = w.choose('y', list(itertools.product(range(K), repeat=N)))
    Y = np.eye(K)[list(y)]
    M = F + int(icpt)
    x = w.reals('x', K * M, -2, 2)
    l2 = w.real('l2', 0, 10)
    sw = w.reals('sw', N, 0, 5) if wt == 'sym' else np.ones(N)
    mask = None
    if masked:
        mask = np.array(w.choose('mask', list(itertools.product(
            [0., 1.], repeat=K * F)))).reshape(K, F)
        if masked == 'bool':
            mask = mask.astype(bool)
    x_in = x.copy()
    r = w.call(f, x, X, Y, l2, mask, sw)
    w.check(r.ok, 'evaluation succeeds', repr(r.exc))
    out, grad, p = r.value
    w.check(np.shape(grad) == (K * M,), 'gradient shape')
    w.check(np.shape(p) == (N, K), 'probability shape')
    m = np.ones((K, F)) if mask is None else mask.astype(float)
    c = [[x_in[k * M + j] * float(m[k, j]) for j in range(F)]
         for k in range(K)]
    b = [x_in[k * M + F] if icpt else 0. for k in range(K)]
    loss = 0.
    g = [[0.] * F for _ in range(K)]
    gb = [0.] * K
    for i in range(N):
        z = []
        for k in range(K):
            v = b[k]
            for j in range(F):
                v = v + X[i, j] * c[k][j]
            z.append(v)
        # relative to the true class
        tot = 0.
        e = []
        for k in range(K):
            e.append(expo(w, z[k] - z[y[i]]))
            tot = tot + e[k]
        wi = 1. if wt != 'sym' else sw[i]
        loss = loss + wi * loga(w, tot)
        for k in range(K):
            pk = e[k] / tot
            w.eq(p[i, k], pk, 'class probability')
            d = wi * (pk - Y[i, k])
            for j in range(F):
                g[k][j] = g[k][j] + d * X[i, j]
            gb[k] = gb[k] + d
    loss = loss / N
    for k in range(K):
        for j in range(F):
            loss = loss + .5 * l2 * c[k][j] * c[k][j]
            g[k][j] = (g[k][j] / N + l2 * c[k][j]) * float(m[k, j])
    for k in range(K):
        for j in range(F):
            w.eq(grad[k * M + j], g[k][j], 'gradient in a coefficient')
        if icpt:
            w.eq(grad[k * M + F], gb[k] / N, 'gradient in an intercept')
    w.eq(out, loss, 'objective')
    w.eq(x, x_in, 'the point is left alone')


def tasks(tier):
    out = []
    shapes = [(1, 1), (2, 1), (2, 2), (3, 1)]
    if tier != 'quick':
        shapes += [(3, 2), (2, 3)]
    for N, F in shapes:
        for icpt in (True, False):
            for wt in ('none', 'sym'):
                for masked in (None, 'float', 'bool'):
                    if masked == 'bool' and (N, F) != (2, 1):
                        continue
                    out.append(Task('binary-N%d-F%d%s-w%s-m%s' % (
                        N, F, '-int' * icpt, wt, masked), binary,
                        dict(N=N, F=F, icpt=icpt, wt=wt, masked=masked)))
    shapes = [(1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3), (1, 2, 3)]
    if tier != 'quick':
        shapes += [(2, 2, 2), (2, 1, 3), (2, 2, 3)]
    for N, F, K in shapes:
        for icpt in (True, False):
            for wt in ('none', 'sym'):
                for masked in (None, 'float', 'bool'):
                    if masked == 'bool' and (N, F, K) != (1, 1, 2):
                        continue
                    out.append(Task('multi-N%d-F%d-K%d%s-w%s-m%s' % (
                        N, F, K, '-int' * icpt, wt, masked), multi,
                        dict(N=N, F=F, K=K, icpt=icpt, wt=wt,
                             masked=masked)))
    return out

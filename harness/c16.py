"""C16: the Poisson objective and its gradient."""
import numpy as np

from vx.run import Task

ID = 'C16'
BOUNDS = ('every real design, response, weight, coefficient, intercept and '
          'L2 penalty for 1-3 samples x 1-3 features, with and without '
          'intercept and sample weights; exp is the real exponential '
          '(uninterpreted with its algebraic laws)')
OUTSIDE = 'rounding of double arithmetic; larger shapes'


def expo(w, v):
    return np.exp(w.array([v]))[0]


def main(w, N, F, icpt, wt):
    L = w.load()
    f = L.mod('pyuoi.linear_model.poisson')._poisson_loss_and_grad
    X = w.reals('X', (N, F), -3, 3)
    y = w.reals('y', N, 0, 20)
    x = w.reals('x', F + int(icpt), -2, 2)
    l2 = w.real('l2', 0, 10)
    sw = w.reals('sw', N, 0, 5) if wt == 'sym' else \
        np.ones(N) if wt == 'ones' else None
    x_in = x.copy()
    r = w.call(f, x, X, y, l2, sw) if wt != 'none' else \
        w.call(f, x, X, y, l2)
    w.check(r.ok, 'evaluation succeeds', repr(r.exc))
    out, grad = r.value
    w.check(np.shape(grad) == (F + int(icpt),), 'gradient shape')
    c = [x_in[j] for j in range(F)]
    b = x_in[F] if icpt else 0.
    loss = 0.
    g = [0.] * F
    gb = 0.
    for i in range(N):
        eta = b
        for j in range(F):
            eta = eta + X[i, j] * c[j]
        mu = expo(w, eta)
        wi = 1. if wt != 'sym' else sw[i]
        loss = loss - wi * (y[i] * eta - mu)
        for j in range(F):
            g[j] = g[j] - wi * (y[i] - mu) * X[i, j]
        gb = gb - wi * (y[i] - mu)
    loss = loss / N
    for j in range(F):
        loss = loss + .5 * l2 * c[j] * c[j]
        g[j] = g[j] / N + l2 * c[j]
    w.eq(out, loss, 'objective')
    for j in range(F):
        w.eq(grad[j], g[j], 'gradient in a coefficient')
    if icpt:
        w.eq(grad[F], gb / N, 'gradient in the intercept')


def tasks(tier):
    out = []
    shapes = [(1, 1), (2, 1), (2, 2), (3, 2), (1, 3)]
    if tier != 'quick':
        shapes += [(3, 3), (4, 2), (5, 3), (2, 4)]
    for N, F in shapes:
        for icpt in (True, False):
            for wt in ('none', 'sym') + (('ones',) if N == 2 else ()):
                out.append(Task('N%d-F%d%s-w%s' % (
                    N, F, '-int' * icpt, wt), main,
                    dict(N=N, F=F, icpt=icpt, wt=wt)))
    return out

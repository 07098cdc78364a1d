"""Base solvers with the numerical optimizer replaced: the problem that is
handed over is evaluated at an arbitrary point and compared with the penalized
likelihood the user asked for (C18 and C20)."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.world import _flat

from . import fitlib


def expo(w, v):
    return np.exp(w.array([v]))[0]


def loga(w, v):
    return np.log(w.array([v]))[0]


class Opt:
    """Stands for fmin_lbfgs and scipy's fmin_l_bfgs_b."""

    def __init__(self, w):
        self.w = w
        self.calls = []
        self.answer = None         # f(call) -> point
        self.Zero = None

    def lbfgs(self, f, x0, progress=None, args=(), orthantwise_c=0,
              orthantwise_start=0, orthantwise_end=-1, m=10, epsilon=1e-5,
              past=0, delta=0., max_iterations=0, **k):
        n = np.size(x0)
        end = orthantwise_end if orthantwise_end >= 0 else n

        def value(p):
            g = np.zeros(n) if not self.w.sym else self.w.array(np.zeros(n))
            v = f(p, g, *args)
            return v, g
        c = fitlib.Fit(kind='lbfgs', n=n, value=value,
                       x0=np.array(_flat(x0), dtype=object),
                       l1=orthantwise_c, pen=range(orthantwise_start, end),
                       tol=epsilon, limit=max_iterations, progress=progress,
                       ndim=np.ndim(x0), past=past)
        self.calls.append(c)
        return self.answer(c)

    def scipy(self, func, x0, fprime=None, args=(), approx_grad=0,
              bounds=None, m=10, factr=1e7, pgtol=1e-5, epsilon=1e-8,
              iprint=-1, maxfun=15000, maxiter=15000, disp=None,
              callback=None, maxls=20):
        if fprime is not None or approx_grad:
            raise Unsupported('separate gradient')
        n = np.size(x0)

        def value(p):
            v, g = func(p, *args)
            return v, g
        c = fitlib.Fit(kind='scipy', n=n, value=value,
                       x0=np.array(_flat(x0), dtype=object), l1=0,
                       pen=range(0), tol=pgtol, limit=maxiter,
                       progress=None, ndim=np.ndim(x0), bounds=bounds)
        self.calls.append(c)
        p = self.answer(c)
        return p, 0., dict(warnflag=0, nit=3, grad=None, task='', funcalls=3)


def load(w):
    import scipy.optimize as so
    o = Opt(w)
    L = w.load(overrides=[(so.fmin_l_bfgs_b, o.scipy)])
    L.mod('pyuoi.linear_model')
    fitlib.patch(L, 'pyuoi.lbfgs', 'fmin_lbfgs', o.lbfgs)
    o.Zero = L.mod('pyuoi.lbfgs').AllZeroLBFGSError
    return L, o


def positions(w, est, o, run, K, F):
    """Which entry of the optimizer's vector lands in which coefficient."""
    o.answer = lambda c: np.arange(1., c.n + 1)
    run()
    n = o.calls[-1].n
    where = {}
    co = np.reshape([float(v) for v in _flat(est.coef_)], (K, F))
    ic = [float(v) for v in _flat(est.intercept_)]
    used = {}
    for k in range(K):
        for j in range(F):
            v = co[k, j]
            if v != 0:
                if v != int(v) or not 1 <= v <= n:
                    raise Unsupported('coefficients are rescaled')
                used.setdefault(int(v) - 1, []).append((k, j))
    for k in range(len(ic)):
        if ic[k] != 0:
            if ic[k] != int(ic[k]) or not 1 <= ic[k] <= n:
                raise Unsupported('intercepts are shifted')
            used.setdefault(int(ic[k]) - 1, []).append((k, F))
    for i, l in used.items():
        w.check(len(l) == 1, 'every optimizer coordinate is one coefficient')
        where[i] = l[0]
    return where


def nll(w, model, X, y, sw, C, b, K):
    """Mean negative log-likelihood and its derivative in (C, b)."""
    N, F = np.shape(X)
    loss = 0.
    G = [[0.] * F for _ in range(K)]
    gb = [0.] * K
    for i in range(N):
        z = []
        for k in range(K):
            v = b[k]
            for j in range(F):
                v = v + X[i, j] * C[k][j]
            z.append(v)
        wi = sw[i]
        if model == 'poisson':
            mu = expo(w, z[0])
            loss = loss - wi * (y[i] * z[0] - mu)
            d = [-wi * (y[i] - mu)]
        elif model == 'binary':
            s = 1. if y[i] else -1.
            e = expo(w, -(z[0] * s))
            loss = loss + wi * loga(w, 1 + e)
            d = [-wi * s * (e / (1 + e))]
        else:
            e = [expo(w, z[k] - z[y[i]]) for k in range(K)]
            tot = 0.
            for v in e:
                tot = tot + v
            loss = loss + wi * loga(w, tot)
            d = [wi * (e[k] / tot - (1. if k == y[i] else 0.))
                 for k in range(K)]
        for k in range(K):
            for j in range(F):
                G[k][j] = G[k][j] + d[k] * X[i, j]
            gb[k] = gb[k] + d[k]
    return (loss / N, [[v / N for v in r] for r in G], [v / N for v in gb])


def problem(w, model, est, o, where, X, y, sw, K, F, icpt, l1, l2, mask,
            tol, limit):
    """The captured call is the problem asked for."""
    c = o.calls[-1]
    n = c.n
    p = w.reals('p', n, -2, 2)
    p0 = p.copy()
    val, g = c.value(p)
    w.check(np.shape(g) == (n,), 'gradient has one entry per coordinate')
    C = [[0.] * F for _ in range(K)]
    b = [0.] * K
    for i, (k, j) in where.items():
        if j == F:
            b[k] = p0[i]
        elif mask[k][j]:
            C[k][j] = p0[i]
    # all free parameters are there
    have = set(where.values())
    for k in range(K):
        for j in range(F):
            if mask[k][j]:
                w.check((k, j) in have, 'every free coefficient is optimized')
        if icpt:
            w.check((k, F) in have, 'every intercept is optimized')
    loss, G, gb = nll(w, model, X, y, sw, C, b, K)
    for k in range(K):
        for j in range(F):
            loss = loss + .5 * l2 * C[k][j] * C[k][j]
            G[k][j] = G[k][j] + l2 * C[k][j]
    w.eq(val, loss, 'the objective is the mean loss plus the L2 part')
    for i in range(n):
        if i not in where:
            continue
        k, j = where[i]
        want = gb[k] if j == F else (G[k][j] if mask[k][j] else 0.)
        w.eq(g[i], want, 'the gradient is the derivative of the objective')
    # L1 weight
    w.eq(c.l1, l1, 'the L1 weight') if l1 is not None else \
        w.check(c.l1 == 0, 'no L1 weight')
    if l1 is not None:
        for i, (k, j) in where.items():
            if j == F:
                w.check(i not in c.pen, 'intercepts are not penalized')
            elif mask[k][j]:
                w.check(i in c.pen, 'every coefficient is penalized')
    w.check(c.tol == tol, 'the tolerance is passed on')
    w.check(c.limit == limit, 'the iteration limit is passed on')
    return c


def start(w, c, where, coef, icpt, mask, F, label):
    for i, (k, j) in where.items():
        v = icpt[k] if j == F else (coef[k][j] if mask[k][j] else 0.)
        w.eq(c.x0[i], v, label)


# --------------------------------------------------------------------------

def poisson(w, N, F, icpt, wt, warm, l1r, solver='lbfgs'):
    L, o = load(w)
    X = w.reals('X', (N, F), -2, 2)
    y = np.array([0., 2., 5., 1.][:N])
    sw = w.reals('sw', N, 0, 3) if wt else None
    alpha = w.real('alpha', 0, 5)
    ratio = w.real('l1_ratio', 0, 1) if l1r is None else l1r
    tol = w.real('tol', 0, 1)
    limit = w.int('max_iter', 1, 1000)
    mk = lambda **k: L.mod('pyuoi.linear_model.poisson').Poisson(
        alpha=alpha, l1_ratio=ratio, fit_intercept=icpt, tol=tol,
        max_iter=limit, **k)
    est = mk()

    def fit(e):
        return e.fit(X, y) if sw is None else e.fit(X, y, sample_weight=sw)
    where = positions(w, est, o, lambda: fit(est), 1, F)
    est = mk(warm_start=warm)
    q = w.reals('q', F + 1, -2, 2)
    o.answer = lambda c: q[:c.n].copy()
    r = w.call(fit, est)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    w.check(r.value is est, 'fit returns the estimator')
    inv = {v: i for i, v in where.items()}
    mask = [[True] * F]

    def back(vec):
        for j in range(F):
            w.eq(est.coef_[j], vec[inv[0, j]], 'coefficients are read back')
        if icpt:
            w.eq(est.intercept_, vec[inv[0, F]], 'the intercept is read back')
        else:
            w.check(est.intercept_ == 0, 'no intercept')
    w.check(np.shape(est.coef_) == (F,), 'one coefficient per feature')
    back(q)
    ones = [1.] * N if sw is None else sw
    problem(w, 'poisson', est, o, where, X, y, ones, 1, F, icpt,
            alpha * ratio, alpha * (1 - ratio), mask, tol, limit)
    if warm:
        q2 = w.reals('r', F + 1, -2, 2)
        o.answer = lambda c: q2[:c.n].copy()
        fit(est)
        start(w, o.calls[-1], where, [q[:F]], [q[F]], mask, F,
              'a warm start begins at the previous solution')
        back(q2)


def logistic(w, N, F, K, pen, icpt, wt, cw, warm, masked, labels, multi=None,
             zero=False, Cinf=False):
    """K == 1: binary."""
    L, o = load(w)
    X = w.reals('X', (N, F), -2, 2)
    ycls = {1: [0, 1, 1, 0], 2: [1, 0, 1, 1], 3: [2, 0, 1, 0]}[K][:max(N, K)]
    y = np.array(labels)[ycls]
    sw = w.reals('sw', N, 0, 3) if wt else None
    C = np.inf if Cinf else w.real('C', .1, 50)
    tol = w.real('tol', 0, 1)
    limit = w.int('max_iter', 1, 1000)
    kw = dict(penalty=pen, C=C, tol=tol, max_iter=limit, fit_intercept=icpt,
              class_weight=cw)
    if multi is not None:
        kw['multi_class'] = multi
    mk = lambda **k: L.mod(
        'pyuoi.linear_model.logistic').MaskedCoefLogisticRegression(
            **dict(kw, **k))
    if masked is not None:
        opts = [m for m in itertools.product([0, 1], repeat=K * F)
                if zero or any(m)]
        mm = np.array(w.choose('mask', opts))
        flat = mm.astype({'bool': bool, 'float': float}[masked])
        arg = flat if K > 1 else flat.reshape(F)
    else:
        mm = np.ones(K * F, dtype=int)
        arg = None
    mask = mm.reshape(K, F).astype(bool).tolist()
    keep = None if arg is None else arg.copy()

    def fit(e):
        k = {}
        if sw is not None:
            k['sample_weight'] = sw
        if arg is not None:
            k['coef_mask'] = arg
        return e.fit(X, y, **k)
    if not any(map(any, mask)):
        o.answer = lambda c: w.reals('q', c.n, -2, 2)
        est = mk()
        r = w.call(fit, est)
        w.check(r.ok, 'fit succeeds', repr(r.exc))
        for v in _flat(est.coef_):
            w.check(v == 0, 'masked coefficients are zero')
        w.check(np.shape(est.coef_) == (K, F), 'coefficient shape')
        return
    est = mk()
    where = positions(w, est, o, lambda: fit(est), K, F)
    # coordinates with an identically zero gradient stay where they start
    est = mk(warm_start=warm)
    got = {}

    def answer(tag):
        def f(c):
            q = w.reals(tag, c.n, -2, 2)
            for i in range(c.n):
                if i in where and where[i][1] < F and \
                        not mask[where[i][0]][where[i][1]]:
                    q[i] = c.x0[i]
            got[tag] = q.copy()
            return q
        return f
    o.answer = answer('q')
    n0 = len(o.calls)
    r = w.call(fit, est)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    w.check(r.value is est, 'fit returns the estimator')
    w.check(len(o.calls) == n0 + 1, 'one optimization')
    inv = {v: i for i, v in where.items()}

    def back(q):
        w.check(np.shape(est.coef_) == (K, F), 'coefficient shape')
        for k in range(K):
            for j in range(F):
                if mask[k][j]:
                    w.eq(est.coef_[k, j], q[inv[k, j]],
                         'coefficients are read back')
                else:
                    w.check(est.coef_[k, j] == 0,
                            'masked coefficients are zero')
            if icpt:
                w.eq(est.intercept_[k], q[inv[k, F]],
                     'intercepts are read back')
        if not icpt:
            for v in _flat(est.intercept_):
                w.check(v == 0, 'no intercept')
    back(got['q'])
    wts = [1. if sw is None else sw[i] for i in range(N)]
    if cw == 'balanced':
        cnt = [ycls.count(k) for k in range(max(K, 2))]
        wts = [v * N / (len(cnt) * float(cnt[ycls[i]]))
               for i, v in enumerate(wts)]
    elif cw is not None:
        wts = [v * cw[labels[ycls[i]]] for i, v in enumerate(wts)]
    model = 'binary' if K == 1 else 'multi'
    inC = 0. if Cinf else 1 / C
    problem(w, model, est, o, where, X, ycls, wts, K, F, icpt,
            inC if pen == 'l1' else None, inC if pen == 'l2' else 0.,
            mask, tol, limit)
    if masked is not None:
        w.check(bool(np.all(np.asarray(arg == keep))), 'the mask is kept')
    c = o.calls[-1]
    if c.progress is not None:
        # the early stop fires only at all-zero coefficients
        z = []
        for t in range(2):
            v = w.reals('it%d' % t, c.n, -1, 1)
            stop = c.progress(v, v, 0., 0., 0., 0., 0, 0)
            z.append(v)
            w.check(w.or_(not stop, w.all(
                [z[t][i] == 0 for i in where if where[i][1] < F])),
                'early stop only at all-zero coefficients')
    if warm:
        co = [[v for v in est.coef_[k]] for k in range(K)]
        ic = [v for v in _flat(est.intercept_)]
        o.answer = answer('r')
        fit(est)
        start(w, o.calls[-1], where, co, ic, mask, F,
              'a warm start begins at the previous solution')
        back(got['r'])


def allzero(w, K, F, icpt, masked):
    """The optimizer stops because every coefficient is zero."""
    L, o = load(w)
    N = max(K, 2) + 1
    X = w.reals('X', (N, F), -2, 2)
    y = np.array([0, 1, 2, 1][:N]) if K == 3 else np.array([0, 1, 1][:N])
    est = L.mod('pyuoi.linear_model.logistic').MaskedCoefLogisticRegression(
        penalty='l1', C=w.real('C', .1, 5), fit_intercept=icpt,
        multi_class='multinomial' if K == 2 else 'auto')

    def stop(c):
        raise o.Zero('all zero')
    o.answer = stop
    mask = np.ones(K * F, dtype=bool) if masked else None
    if masked:
        mask[0] = False
    r = w.call(est.fit, X, y, coef_mask=mask)
    w.check(r.ok, 'the all-zero stop is a result, not an error', repr(r.exc))
    w.check(np.shape(est.coef_) == (K, F), 'coefficient shape')
    for v in _flat(est.coef_):
        w.check(v == 0, 'the all-zero stop gives zero coefficients')

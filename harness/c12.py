"""C12: refitting does not depend on earlier fits."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from . import fitlib

ID = 'C12'
BOUNDS = ('two consecutive complete fits of one estimator object on different '
          'data (other rows, other numbers of rows, features and classes, '
          'constant responses in between) compared with a fresh object: 2 '
          'selection and 1-2 estimation bootstraps, 1-3 settings; every real '
          'outcome of the solvers and every score; base solvers refitted '
          'without warm start with the optimizer returning arbitrary points')
OUTSIDE = 'more than two fits; warm starts inside one fit (C07)'


class Data:
    def __init__(self, base, N, F, y, tweak=1.0):
        self.N, self.F = N, F
        self.X = np.array([[(base + i + 1) + (j + 1) / 16.
                            for j in range(F)] for i in range(N)])
        self.y = np.array(y)
        self.base = base


DATA = {
    'lin': [dict(base=0, N=6, F=2, y=[100., 103, 112, 127, 148, 175]),
            dict(base=6, N=6, F=2, y=[3., 50, -7, 20, 21, 19]),
            dict(base=6, N=7, F=3, y=[3., 50, -7, 20, 21, 19, 4])],
    'poi': [dict(base=0, N=6, F=2, y=[1., 3, 5, 7, 9, 11]),
            dict(base=6, N=6, F=2, y=[4., 0, 2, 8, 1, 30]),
            dict(base=6, N=7, F=3, y=[4., 0, 2, 8, 1, 30, 6])],
    'log2': [dict(base=0, N=6, F=2, y=[0., 1, 0, 1, 0, 1]),
             dict(base=6, N=6, F=2, y=[1., 1, 0, 1, 0, 0]),
             dict(base=6, N=7, F=3, y=[1., 0, 0, 1, 0, 0, 1])],
    'log3': [dict(base=6, N=7, F=2, y=[0., 1, 2, 0, 1, 2, 1])],
}
RES = ('supports_', 'scores_', 'estimates_', 'rp_max_idx_', 'coef_',
       'intercept_', 'n_supports_', 'n_reg_params_', 'output_dim')


def snap(est):
    r = {k: getattr(est, k) for k in RES if hasattr(est, k)}
    r['reg'] = [sorted(d.items()) for d in getattr(est, 'reg_params_', [])]
    for k in ('classes_', 'lambdas', 'alphas', 'Cs'):
        v = getattr(est, k, None)
        if v is not None:
            r[k] = np.array(v)
    return r


def flat_reg(reg):
    out = []
    for d in reg:
        for k, v in d:
            if isinstance(v, (str, bool, type(None))):
                out.append((k, v))
            else:
                out.append((k, tuple(round(float(x), 9)
                                     for x in fitlib._flat(v))))
    return out


def go(w, L, ctx, est, d):
    """One fit on data d; the stub solvers only know this data's responses."""
    ctx.N, ctx.F = d.N, d.F
    ctx.yenc_now = d.y
    ctx.splits = {}
    n = len(ctx.calls)
    est.fit(d.X.copy(), d.y.copy())
    return ctx.calls[n:]


class Ctx2(fitlib.Ctx):
    """Row tags run over both data sets."""

    def setup(self, *datas):
        self.yenc = [None] * (max(d.base + d.N for d in datas))
        for d in datas:
            cl = {v: i for i, v in enumerate(sorted(set(d.y)))}
            for i in range(d.N):
                self.yenc[d.base + i] = float(
                    cl[d.y[i]] if self.model == 'logistic' else d.y[i])

    def tts(self, *arrays, **k):
        return super().tts(*arrays, **k)


def main(w, model, first, second, D1=1, D2=1, Be=1, R=2, kw=None):
    kw = dict(kw or {})
    d1, d2 = Data(**first), Data(**second)
    ctx = Ctx2(w, N=d1.N, F=d1.F, D=D1, y=first['y'],
               model=fitlib.mod_of(model))
    ctx.setup(d1, d2)
    ctx.sel_values = kw.pop('sel', 'zero')
    pre = kw.pop('sups', None)
    L = fitlib.loader(w, ctx)
    kw.setdefault('n_boots_sel', 2)
    kw.setdefault('n_boots_est', Be)
    kw.setdefault('regs', R)

    def mk():
        ctx.D = D1
        est = fitlib.build(w, L, ctx, model, **kw)
        if model == 'poisson':
            est._fit_intercept = lambda X, y: setattr(
                est, 'intercept_', np.array([1.5]))
        if pre is not None:
            def inter(coef, thresholds):
                F = ctx.F
                s = np.zeros((1 + F, F), dtype=bool)
                for i in range(F):
                    s[i + 1, i] = True
                return s
            est.intersect = inter
        return est

    used = mk()
    r1 = w.call(go, w, L, ctx, used, d1)
    w.check(r1.ok, 'the first fit succeeds', str(r1.exc))
    s1 = snap(used)
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in s1.items()}
    ctx.D = D2
    c2 = go(w, L, ctx, used, d2)
    fresh = mk()
    ctx.D = D2
    c3 = go(w, L, ctx, fresh, d2)
    compare(w, snap(used), snap(fresh), const=np.unique(d2.y).size == 1)
    # the same solver calls with the same starting points
    w.check(len(c2) == len(c3), 'same number of solver fits')
    for (f, st, sf, _), (g, st2, sg, _) in zip(c2, c3):
        w.check(f is g, 'refits solve the same problems')
        if f.kind == 'est':      # never warm started (C20)
            continue
        w.check(set(st) == set(st2), 'refits start from the same state')
        for k in st:
            a, b = fitlib._flat(st[k]), fitlib._flat(st2[k])
            w.check(len(a) == len(b), 'refits start from the same state')
            w.eq(w.array(list(a)), w.array(list(b)),
                 'refits start from the same state')
    # what the first fit reported was not overwritten in place
    for k, v in keep.items():
        if isinstance(v, np.ndarray) and k in s1:
            a, b = fitlib._flat(v), fitlib._flat(s1[k])
            if v.dtype == bool or any(isinstance(x, (bool, np.bool_, str))
                                      for x in a):
                continue
            w.eq(w.array(list(a)), w.array(list(b)),
                 'earlier results stay as they were: ' + k)


def compare(w, a, b, const=False):
    keys = ('coef_', 'intercept_', 'output_dim', 'classes_') if const \
        else sorted(b)
    for k in keys:
        if k not in b:
            continue
        w.check(k in a, 'refit reports ' + k)
        x, y = a[k], b[k]
        if k == 'reg':
            w.check(flat_reg(x) == flat_reg(y), 'the grid is rebuilt')
            continue
        w.check(np.shape(x) == np.shape(y), 'refit: shape of ' + k)
        p, q = fitlib._flat(x), fitlib._flat(y)
        if k == 'supports_':
            for u, v in zip(p, q):
                w.check(w.or_(w.and_(u, v), w.and_(w.not_(u), w.not_(v))),
                        'refit: ' + k)
            continue
        if not q:
            continue
        w.eq(w.array(list(p)), w.array(list(q)), 'refit: ' + k)


def solver(w, which, std, F1, F2):
    """A base solver refitted without warm start."""
    import scipy.optimize as so
    calls = []
    memo = {}

    def point(x0, what):
        n = np.size(x0)
        key = (what, n, len(calls))
        k = (what, n)
        if k not in memo:
            memo[k] = w.reals('%s%d' % (what, n), n)
        v = memo[k]
        return v.copy()

    def lb(f, x0, **k):
        calls.append((np.array(fitlib._flat(x0), dtype=object).copy(), k))
        return point(x0, 'lb')

    def sl(f, x0, fprime=None, args=(), **k):
        calls.append((np.array(fitlib._flat(x0), dtype=object).copy(),
                      dict(k, args=args)))
        return point(x0, 'sc'), 0.0, dict(warnflag=0, nit=1)
    L = w.load(overrides=[(so.fmin_l_bfgs_b, sl)])
    lm = L.mod('pyuoi.linear_model')
    fitlib.patch(L, 'pyuoi.lbfgs', 'fmin_lbfgs', lb)
    y1 = np.array([0., 1, 2, 1]) if 'poisson' in which else \
        np.array([0., 1, 0, 1])
    y2 = np.array([3., 1, 0, 1, 5]) if 'poisson' in which else \
        np.array([1., 1, 0, 1, 0])
    X1 = w.reals('X', (4, F1), -5, 5)
    X2 = w.reals('Z', (5, F2), -5, 5)
    if std:
        X1 = np.array([[1., 2, 4], [3, 0, 5], [2, 2, 9], [7, 1, 1]])[:, :F1]
        X2 = np.array([[8., 2, 4], [3, 0, 5], [2, 6, 9], [7, 1, 1],
                       [0, 5, 3]])[:, :F2]
    if which == 'poisson':
        mk = lambda: L.mod('pyuoi.linear_model.poisson').Poisson(
            alpha=.3, standardize=std)
    elif which == 'poisson-cd':
        def mk():
            p = L.mod('pyuoi.linear_model.poisson').Poisson(
                alpha=.3, standardize=std, solver='cd', max_iter=1)
            if not hasattr(p, '_cd_sweep'):
                raise Unsupported('no _cd_sweep')

            def sweep(coef, X, w, z, active_idx, intercept=0):
                calls.append((np.array(fitlib._flat(coef) + [intercept],
                                       dtype=object), {}))
                return point(coef, 'cd'), 0.25
            p._cd_sweep = sweep
            return p
    else:
        pen = which.split('-')[1]
        mk = lambda: L.mod(
            'pyuoi.linear_model.logistic').MaskedCoefLogisticRegression(
            penalty=pen, standardize=std)
    a = mk()
    a.fit(X1, y1)
    n = len(calls)
    a.fit(X2, y2)
    b = mk()
    m = len(calls)
    b.fit(X2, y2)
    c2, c3 = calls[n:m], calls[m:]
    w.check(len(c2) == len(c3), 'the same optimizations run')
    for (x, k), (z, q) in zip(c2, c3):
        w.check(x.shape == z.shape, 'refit: starting point')
        w.eq(w.array(list(x)), w.array(list(z)), 'refit: starting point')
        for kk in ('max_iterations', 'epsilon', 'orthantwise_c',
                   'orthantwise_end', 'pgtol', 'maxiter'):
            if kk in q:
                w.check(k.get(kk) == q[kk], 'refit: ' + kk)
        for u, v in zip(k.get('args', ()), q.get('args', ())):
            if isinstance(v, np.ndarray) or hasattr(v, 'e'):
                w.check(np.shape(u) == np.shape(v), 'refit: problem data')
                w.eq(w.array(fitlib._flat(u)), w.array(fitlib._flat(v)),
                     'refit: problem data')
    w.check(np.shape(a.coef_) == np.shape(b.coef_), 'refit: coefficients')
    w.eq(w.array(fitlib._flat(a.coef_)), w.array(fitlib._flat(b.coef_)),
         'refit: coefficients')
    w.eq(w.array(fitlib._flat(a.intercept_)),
         w.array(fitlib._flat(b.intercept_)), 'refit: intercept')


def tasks(tier):
    out = []

    def add(nm, model, i, j, D1=1, D2=1, **c):
        out.append(Task(nm, main, dict(model=model, first=i, second=j,
                                       D1=D1, D2=D2, **c)))
    const = dict(base=0, N=6, F=2, y=[4.] * 6)
    const2 = dict(base=6, N=5, F=3, y=[7.] * 5)
    lin, poi, l2, l3 = (DATA[k] for k in ('lin', 'poi', 'log2', 'log3'))
    for m in ('lasso', 'en'):
        for std in (False,):
            add(m + '-same-shape', m, lin[0], lin[1],
                kw=dict(sel='sym'), R=1)
            add(m + '-other-shape', m, lin[0], lin[2], R=3,
                kw=dict(sups=1))
            add(m + '-const-first', m, const, lin[2], R=2,
                kw=dict(sups=1))
            add(m + '-const-second', m, lin[0], const2, R=2,
                kw=dict(sups=1))
    add('en-l1', 'en', lin[0], lin[2], R=2,
        kw=dict(alphas=np.array([.2, .9]), sups=1))
    add('en-l1-again', 'en', lin[0], lin[1], R=3,
        kw=dict(alphas=np.array([.5]), sups=1))
    add('lasso-eps', 'lasso', lin[0], lin[1], R=3,
        kw=dict(eps=1e-2, fit_intercept=False, sups=1))
    add('lasso-est2', 'lasso', lin[0], lin[1], R=1, Be=2,
        kw=dict(sel='sym'))
    add('poisson-same-shape', 'poisson', poi[0], poi[1], R=1,
        kw=dict(sel='sym'))
    add('poisson-other-shape', 'poisson', poi[0], poi[2], R=3,
        kw=dict(sups=1))
    add('poisson-alphas', 'poisson', poi[0], poi[2], R=2,
        kw=dict(alphas=np.array([.5, 1.]), sups=1))
    add('poisson-noint', 'poisson', poi[0], poi[1], R=2,
        kw=dict(fit_intercept=False, sups=1))
    add('poisson-const-first', 'poisson', const, poi[2], R=2,
        kw=dict(sups=1))
    add('poisson-const-second', 'poisson', poi[0], const2, R=2,
        kw=dict(sups=1))
    add('logistic-same-shape', 'logistic', l2[0], l2[1], R=1,
        kw=dict(sel='sym'))
    add('logistic-other-shape', 'logistic', l2[0], l2[2], R=3,
        kw=dict(sups=1))
    add('logistic-noint', 'logistic', l2[0], l2[1], R=2,
        kw=dict(fit_intercept=False, sups=1))
    add('logistic-2-3', 'logistic', l2[0], l3[0], 1, 3, R=2,
        kw=dict(sups=1))
    add('logistic-3-2', 'logistic', dict(l3[0], base=0),
        dict(l2[2], base=7), 3, 1, R=2, kw=dict(sups=1))
    for which in ('poisson', 'poisson-cd', 'logistic-l1', 'logistic-l2'):
        for std in (False, True):
            out.append(Task('solver-%s%s' % (which, '-std' * std), solver,
                            dict(which=which, std=std, F1=2, F2=3)))
            out.append(Task('solver-%s%s-same' % (which, '-std' * std),
                            solver,
                            dict(which=which, std=std, F1=2, F2=2)))
    if tier != 'quick':
        for m, d in (('lasso', lin), ('en', lin), ('poisson', poi)):
            add(m + '-deep', m, d[0], d[2], R=2, Be=2, kw=dict(sel='sym'))
        add('logistic-deep', 'logistic', l2[0], l2[1], R=2, Be=2,
            kw=dict(sel='sym'))
    return out

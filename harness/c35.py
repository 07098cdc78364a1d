"""C35: constant and degenerate responses."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from . import fitlib

ID = 'C35'
BOUNDS = ('constant responses: every real constant (every positive one and '
          'zero for counts), every real feature matrix of 3x1 and 3x2 '
          '(positive scale when standardizing), with and without '
          'intercept and standardization; complete fits with one feature, one '
          'regularization value, one threshold or one bootstrap and every '
          'solver outcome and score')
OUTSIDE = 'sklearn\'s own predict methods (coefficients and intercept decide)'


def feats(w, N, F, std, X=None):
    """Any features; standardization needs one nonconstant column at least
    (numerically constant columns are sklearn's business)."""
    X = w.reals('X', (N, F), -50, 50)
    if std:
        for j in range(F):
            w.assume(w.or_(X[0, j] > X[1, j] + 1, X[0, j] < X[1, j] - 1))
    return X


def mk(w, L, model, **kw):
    lm = L.mod('pyuoi.linear_model')
    return getattr(lm, fitlib.CLS[model])(
        n_boots_sel=2, n_boots_est=2, random_state=fitlib.Rng(), **kw)


def const(w, model, N, F, std, icpt, col=False):
    import scipy.optimize as so

    class Opt:
        pass

    def minimize(fun, x0, **k):
        o = Opt()
        o.x = w.reals('opt', np.size(x0), -30, 30)
        return o
    L = w.load(overrides=[(so.minimize, minimize)])
    est = mk(w, L, model, standardize=std, fit_intercept=icpt)
    X = feats(w, N, F, std)
    if model in ('lasso', 'en'):
        c = w.real('c', -100, 100)
    elif model == 'poisson':
        c = 0. if w.choose('zero', [True, False]) else w.real('c', .1, 50)
    else:
        c = w.choose('label', [0., 1., 7.])
    y = w.array([c] * N)
    if col:
        y = y.reshape(N, 1)
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fitting a constant response succeeds', repr(r.exc))
    co = est.coef_
    if model == 'logistic':
        w.check(np.size(co) == F, 'one coefficient per feature')
    else:
        w.check(np.shape(co) == (F,), 'one coefficient per feature')
    for v in fitlib._flat(co):
        w.check(v == 0, 'coefficients are zero')
    ic = fitlib._flat(est.intercept_)
    w.check(len(ic) == 1, 'one intercept')
    if not icpt:
        w.check(ic[0] == 0, 'no intercept')
    elif model in ('lasso', 'en'):
        w.eq(ic[0], c, 'the intercept is the constant')
    if model == 'poisson':
        for nm in ('predict_mean', 'predict'):
            r = w.call(getattr(est, nm), X)
            w.check(r.ok, nm + ' works')
            v = fitlib._flat(r.value)
            w.check(np.shape(r.value) == (N,), nm + ': one value per row')
            for p in v:
                w.check(p == p, nm + ' is not NaN')
                if nm == 'predict_mean':
                    w.eq(p, c if icpt else 1., 'the constant is predicted')


def solver(w, solver, N, F, std, icpt):
    L = w.load()
    P = L.mod('pyuoi.linear_model.poisson').Poisson
    est = P(alpha=.5, standardize=std, fit_intercept=icpt, solver=solver,
            max_iter=1)
    X = feats(w, N, F, std)
    c = 0. if w.choose('zero', [True, False]) else w.real('c', .1, 50)
    r = w.call(est.fit, X, w.array([c] * N))
    w.check(r.ok, 'fitting a constant response succeeds', repr(r.exc))
    w.check(np.shape(est.coef_) == (F,), 'one coefficient per feature')
    for v in fitlib._flat(est.coef_):
        w.check(v == 0, 'coefficients are zero')
    if not icpt:
        w.check(fitlib._flat(est.intercept_)[0] == 0, 'no intercept')
    r = w.call(est.predict_mean, X)
    w.check(r.ok and np.shape(r.value) == (N,), 'predict_mean works')
    for p in fitlib._flat(r.value):
        w.check(p == p, 'predict_mean is not NaN')
        w.eq(p, c if icpt else 1., 'the constant is predicted')


def degenerate(w, model, F=1, R=1, Bs=2, Be=2, D=1, th=1., sel='sym',
               std=False, icpt=True, kw=None, alt=False):
    ctx = fitlib.Ctx(w, N=6, F=F, D=D, model=fitlib.mod_of(model))
    ctx.sel_values = sel
    if alt:           # a solver outcome that keeps and drops features
        ctx.sel_values = lambda f, shape: np.ones(shape) * (f.id % 2)
    L = fitlib.loader(w, ctx)
    est = fitlib.build(w, L, ctx, model, n_boots_sel=Bs, n_boots_est=Be,
                       regs=R, stability_selection=th, fit_intercept=icpt,
                       **(kw or {}))
    if model == 'poisson' and icpt:
        est._fit_intercept = lambda X, y: setattr(
            est, 'intercept_', np.array([1.5]))
    r = w.call(est.fit, ctx.X.copy(), ctx.y.copy())
    w.check(r.ok, 'degenerate sizes are fitted', repr(r.exc))
    sh = (F,) if model != 'logistic' else (max(1, D), F)
    w.check(np.shape(est.coef_) == sh, 'coefficients have their usual shape')
    nc = F
    w.check(np.ndim(est.supports_) == 2 and
            np.shape(est.supports_)[1] == nc, 'supports have their shape')
    ns = np.shape(est.supports_)[0]
    w.check(np.shape(est.scores_) == (Be, ns), 'scores have their shape')
    w.check(np.shape(est.estimates_) == (Be, ns, F * max(1, D)),
            'estimates have their shape')
    w.check(np.shape(est.rp_max_idx_) == (Be,), 'winners have their shape')
    w.check(len(fitlib._flat(est.intercept_)) == max(1, D),
            'one intercept per output')
    nreg = R * len((kw or {}).get('alphas', [0]))
    w.check(sum(1 for f, *_ in ctx.calls if f.kind in ('sel',)) ==
            Bs * nreg, 'every setting is fitted')


def tasks(tier):
    out = []
    for model in ('lasso', 'en', 'poisson', 'logistic'):
        for std in (False, True):
            for icpt in (True, False):
                for F in (1, 2):
                    out.append(Task('const-%s%s%s-F%d' % (
                        model, '-std' * std, '-noint' * (not icpt), F),
                        const, dict(model=model, N=3, F=F, std=std,
                                    icpt=icpt)))
        if model in ('lasso', 'en'):
            out.append(Task('const-%s-col' % model, const, dict(
                model=model, N=3, F=2, std=True, icpt=True, col=True)))
    for s in ('lbfgs', 'cd'):
        for std in (False, True):
            for icpt in (True, False):
                out.append(Task('poisson-%s%s%s' % (
                    s, '-std' * std, '-noint' * (not icpt)), solver, dict(
                    solver=s, N=3, F=2, std=std, icpt=icpt)))

    def add(model, **c):
        nm = '-'.join([model] + ['%s%s' % kv for kv in c.items()])
        out.append(Task(nm.replace(' ', ''), degenerate,
                        dict(model=model, **c)))
    for model in ('lasso', 'en', 'poisson', 'logistic'):
        add(model, F=1, R=1)
        add(model, F=1, R=1, Bs=1, Be=1)
        add(model, F=1, R=2, th=[.5, 1.])
        add(model, F=2, R=1)
        add(model, F=2, R=1, th=np.array([1, 2]), alt=True)
        add(model, F=1, R=3, alt=True, icpt=False)
    add('en', F=1, R=1, kw=dict(alphas=np.array([.5, 1.])))
    add('poisson', F=1, R=1, kw=dict(alphas=np.array([.5, 1.])))
    add('logistic', F=1, R=1, D=3, alt=True)
    add('logistic', F=1, R=1, D=2, alt=True)
    add('lasso', F=1, R=1, kw=dict(estimation_score='BIC'))
    return out

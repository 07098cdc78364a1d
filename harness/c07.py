"""C07: the selection sweep."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from . import fitlib

ID = 'C07'
BOUNDS = ('complete selection modules with 1-3 bootstraps, 1-3 regularization '
          'settings, 1-2 features, 1-3 outputs; every real coefficient '
          'outcome and finite/+inf/-inf intercept outcome of every fit; lasso '
          '(both solvers), elastic net (1-2 mixing ratios), logistic, Poisson')
OUTSIDE = 'longer grids; the warm start inside the solvers themselves (C20)'


def check(w, ctx, est, B, R, n_coef, pyc=False):
    if not ctx.splits.get(0):
        raise Unsupported('splits are not drawn by train_test_split')
    sp = ctx.splits[0]
    regs = est.reg_params_
    w.check(len(regs) == R, 'one fit per grid entry')
    calls = [c for c in ctx.calls if c[0].kind != 'est']
    want = {tuple(int(i) for i in sp[b].train): b for b in range(B)}
    prev = {}
    seen = {}
    for f, start, start_fit, _ in calls:
        w.check(f.rows in want, 'a bootstrap is fitted on its training rows')
        b = want[f.rows]
        if pyc:
            w.check(b not in seen, 'one sweep per bootstrap')
            seen[b] = f
            w.check(f.par['alphas'] == tuple(fitlib.parn(r['alpha'])
                                             for r in regs),
                    'the sweep covers the grid in order')
        else:
            k = len(seen.setdefault(b, []))
            w.check(k < R, 'each setting is fitted once')
            ok = all(f.par.get(n) == ctx.parval(v)
                     for n, v in regs[k].items())
            w.check(ok, 'settings are fitted in grid order')
            seen[b].append(f)
        p = prev.get(b)
        for a, v in start.items():
            zero = w.all([not _bad(x) and x == 0 for x in v])
            if p is None:
                w.check(zero, 'nothing of another bootstrap is left over')
            else:
                r = p.coef if a == 'coef_' else np.asarray(p.intercept)
                same = np.size(r) == len(v) and w.all(
                    [_same(w, x, y) for x, y in zip(v, r.ravel())])
                w.check(w.or_(zero, same), 'warm starts come from the '
                        'previous setting of the same bootstrap')
        prev[b] = f
    w.check(len(seen) == B and (pyc or all(len(v) == R
                                           for v in seen.values())),
            'every bootstrap is fitted at every setting')
    w.check(len(ctx.inter) == 1, 'one intersection')
    co, thr = ctx.inter[0]
    w.check(np.shape(co) == (B, R, n_coef), 'one coefficient row per fit')
    for b in range(B):
        for k in range(R):
            ex = seen[b].coef[k] if pyc else seen[b][k].coef.ravel()
            w.eq(co[b, k], w.array(list(ex)),
                 'coefficients recorded belong to that fit')
    w.eq(w.array(fitlib._flat(thr)), w.array(fitlib._flat(
        est.selection_thresholds_)), 'thresholds of the settings')


def _bad(x):
    return not fitlib.is_sym(x) and not np.isfinite(float(x))


def _same(w, x, y):
    if _bad(x) or _bad(y):
        return _bad(x) and _bad(y) and float(x) == float(y)
    return w.near(x, y)


def main(w, model, B=2, R=2, F=2, D=1, inf=True, alphas=None, pyc=False,
         **kw):
    ctx = fitlib.Ctx(w, F=F, D=D, model=fitlib.mod_of(model))
    ctx.sel_values = 'sym'
    ctx.est_values = 'zero'
    if inf:
        ctx.sel_int = 'inf'
    L = fitlib.loader(w, ctx)
    n = R
    if alphas:
        kw['alphas'] = np.array(alphas)
        n = R * len(alphas)
    if pyc:
        kw['solver'] = 'pyc'
    est = fitlib.build(w, L, ctx, model, n_boots_sel=B, n_boots_est=1,
                       regs=R, **kw)
    fitlib.watch_intersect(est, ctx, np.ones((1, F), dtype=bool))
    if model == 'poisson':
        def no_refit(X, y):
            est.intercept_ = np.zeros(1)
        est._fit_intercept = no_refit
    est.fit(ctx.X.copy(), ctx.y.copy())
    check(w, ctx, est, B, n, F * D, pyc)


def tasks(tier):
    out = []

    def add(model, **c):
        nm = '-'.join([model] + ['%s%s' % (k, v) for k, v in c.items()])
        out.append(Task(nm, main, dict(model=model, **c)))
    add('lasso')
    add('lasso', B=3, R=1)
    add('lasso', B=1, R=1, F=1)
    add('lasso', B=2, R=3, inf=False)
    add('lasso', B=3, R=2, F=1, inf=False, fit_intercept=False)
    add('lasso', pyc=True, inf=False)
    add('lasso', pyc=True, inf=False, B=3, R=1, F=1)
    add('en', inf=False, alphas=[.3, .7], R=2)
    add('en', inf=False, alphas=[.5, 1.], R=1, B=2)
    add('logistic', R=2, B=2)
    add('logistic', R=1, B=2, D=2)
    add('logistic', R=2, B=2, D=3, inf=False)
    add('poisson', R=2, B=2)
    add('poisson', R=2, B=2, alphas=[.5, 1.], inf=False)
    if tier != 'quick':
        add('lasso', B=3, R=2)
        add('logistic', B=3, R=2, D=2)
        add('poisson', B=3, R=2)
        add('en', inf=False, alphas=[.2, .5, .9], R=3, B=3)
    return out

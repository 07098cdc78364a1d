"""C14: the regularization path."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from . import fitlib
from .c11 import Solver

ID = 'C14'
BOUNDS = ('every real design (and response, for the linear and Poisson '
          'models; every label vector for logistic) of 2-4 samples x 1-2 '
          'features, 1-3 mixing ratios, 1-4 path values, several spans, '
          'with and without an intercept; log10 and powers are the real '
          'functions')
OUTSIDE = ('rounding of double arithmetic; designs whose null-model gradient '
           'is below 0.01 everywhere; larger shapes')


class Rec(Solver):
    """Remembers the regularization parameters it is given."""

    def __init__(self, coef, K, log):
        self.coef, self.K, self.log, self.par = coef, K, log, {}

    def __deepcopy__(self, memo):
        return Rec(self.coef, self.K, self.log)

    def set_params(self, **k):
        self.par.update(k)
        return self

    def fit(self, X, y, sample_weight=None, coef_mask=None):
        if 'alphas' in self.par:
            for a in _flat(self.par['alphas']):
                self.log.append(dict(alpha=a))
            Solver.fit(self, X, y)
            self.coef_ = np.zeros((np.size(self.par['alphas']),
                                   np.size(self.coef)))
            return self
        self.log.append(dict(self.par))
        return Solver.fit(self, X, y)


def path(w, model, N, F, K, icpt, num, eps, ratios, labels=None,
         solver=None):
    import sklearn.model_selection as ms

    def tts(*arrays, **k):
        out = []
        for a in arrays:
            out.extend([a[np.arange(N)], a[np.arange(N)]])
        return out
    L = w.load(overrides=[(ms.train_test_split, tts)])
    lm = L.mod('pyuoi.linear_model')
    kw = dict(n_boots_sel=1, n_boots_est=1, standardize=False,
              random_state=fitlib.Rng(), fit_intercept=icpt, eps=eps)
    if model == 'logistic':
        kw['n_C'] = num
        fitlib.patch(L, 'pyuoi.linear_model.logistic',
                     'fit_intercept_fixed_coef',
                     lambda X, coef_, y, output_dim: np.zeros(output_dim))
        if K == 2:
            kw['multi_class'] = 'multinomial'
    else:
        kw['n_lambdas'] = num
    if model in ('en', 'poisson'):
        kw['alphas'] = np.array(ratios)
    est = getattr(lm, fitlib.CLS[model])(**kw)
    if solver:
        est.solver = solver
    for a in ('_selection_lm', '_estimation_lm', 'intersect'):
        if not hasattr(est, a):
            raise Unsupported('estimator has no ' + a)
    if hasattr(est, '_score_predictions'):
        est._score_predictions = lambda *a, **k: 0.
    else:
        raise Unsupported('no scoring hook')
    log = []
    coef = np.zeros((F,) if K is None else (K, F))
    est._selection_lm = Rec(coef, K, log)
    est._estimation_lm = Solver(coef, K)
    est.intersect = lambda coef, thresholds: np.ones((1, F), dtype=bool)
    X = w.reals('X', (N, F), -3, 3)
    if model == 'logistic':
        n = max(K, 2)
        opts = [c for c in itertools.product(range(n), repeat=N)
                if len(set(c)) == n]
        yc = w.choose('y', opts)
        y = np.array(labels)[list(yc)]
        fr = [list(yc).count(k) / N for k in range(n)]
        if not icpt:
            fr = [1. / n] * n
        R = [[fr[k] - (yc[i] == k) for i in range(N)] for k in
             ([1] if K == 1 else range(K))]
    elif model == 'poisson':
        y = w.reals('y', N, 0, 3)
        w.assume(w.any([y[i] != y[0] for i in range(1, N)]))
        m = 1.
        if icpt:
            m = 0.
            for v in y:
                m = m + v
            m = m / N
        R = [[m - v for v in y]]
    else:
        y = w.reals('y', N, -3, 3)
        w.assume(w.any([y[i] != y[0] for i in range(1, N)]))
        m = 0.
        if icpt:
            for v in y:
                m = m + v
            m = m / N
        R = [[m - v for v in y]]
    # gradient of the mean loss at the null model
    G = []
    for r in R:
        for j in range(F):
            g = 0.
            for i in range(N):
                g = g + r[i] * X[i, j]
            G.append(g / N)
    w.assume(w.any([w.or_(g > .01, g < -.01) for g in G]))
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    if model == 'logistic':
        got = [(1 / p['C'], 1.) for p in log]
        ratios = [1.]
    else:
        if model == 'lasso':
            ratios = [1.]
        got = [(p['alpha'], p.get('l1_ratio', 1.)) for p in log]
    w.check(len(got) == num * len(ratios),
            'the path has the requested number of values')
    for a, ratio in enumerate(ratios):
        p = got[a * num:(a + 1) * num]
        for lam, q in p:
            w.check(bool(q == ratio),
                    'each entry carries its own mixing ratio')
        top = p[0][0] * ratio
        for g in G:
            w.check(w.and_(g <= top * (1 + 1e-6), -g <= top * (1 + 1e-6)),
                    'the null model is optimal at the first value')
        w.check(w.any([w.or_(g >= top * (1 - 1e-6),
                             -g >= top * (1 - 1e-6)) for g in G]),
                'the first value is the weakest such penalty')
        for i in range(1, num):
            c = eps ** (i / (num - 1.))
            w.check(w.and_(p[i][0] <= p[0][0] * c * (1 + 1e-6),
                           p[i][0] >= p[0][0] * c * (1 - 1e-6)),
                    'the path is geometric over the requested span')


def tasks(tier):
    out = []
    big = tier != 'quick'
    for icpt in (True, False):
        s = '-int' * icpt
        for model, ratios, solver in (
                ('lasso', None, None), ('lasso', None, 'pyc'),
                ('en', (.5,), None), ('en', (1., .25, .5), None),
                ('poisson', (1.,), None), ('poisson', (.5, 1., .1), None)):
            for N, F, num, eps in ((2, 1, 3, .01), (3, 2, 2, 1e-3),
                                   (2, 2, 4, .1), (2, 1, 1, 1e-3)) + (
                                       ((3, 3, 3, .01),) if big else ()):
                if solver == 'pyc' and num == 1:
                    continue
                out.append(Task('%s%s-%d-N%dF%d-n%d%s' % (
                    model, solver or '', len(ratios or ()), N, F, num, s),
                    path, dict(model=model, N=N, F=F, K=None, icpt=icpt,
                               num=num, eps=eps, ratios=ratios,
                               solver=solver)))
        for K, labels in ((1, [0, 1]), (1, [4, 7]), (2, [0, 1]),
                          (3, [1, 5, 6])):
            for N, F, num, eps in ((2, 1, 3, .01), (2, 2, 2, 1e-3),
                                   (3, 1, 4, .1), (4, 2, 2, .01),
                                   (3, 2, 1, .1)):
                if N < max(K, 2) or (
                        K == 3 and F == 2 and not big):
                    continue
                out.append(Task('logistic-K%d-%d-N%dF%d-n%d%s' % (
                    K, labels[0], N, F, num, s), path,
                    dict(model='logistic', N=N, F=F, K=K, icpt=icpt,
                         num=num, eps=eps, ratios=None, labels=labels)))
    return out

"""C15: likelihoods, information criteria and support scores."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from . import fitlib
from .solvers import loga

ID = 'C15'
BOUNDS = ('criteria: every log-likelihood up to 1e6 and every k, n up to '
          '1000; likelihoods: every response and prediction vector of 1-3 '
          'samples; support scores: whole fits of every estimator, metric '
          'and target with unknown predictions for 2 scored samples, '
          'supports of 0-2 features and 1-3 outputs; log is the real '
          'function (uninterpreted with its algebraic laws)')
OUTSIDE = ('rounding of double arithmetic; clipping of probabilities inside '
           'scikit-learn')


def criteria(w):
    u = w.load().mod('pyuoi.utils')
    ll = w.real('ll', -1e6, 1e6)
    k = w.int('k', 0, 1000)
    n = w.int('n', 1, 1000)
    aic = 2 * k - 2 * ll
    w.eq(u.AIC(ll, k), aic, 'AIC')
    w.eq(u.BIC(ll, k, n), k * loga(w, n * 1.) - 2 * ll, 'BIC')
    got = u.AICc(ll, k, n)
    if bool(n > k + 1):
        aic = aic + 2. * k * (k + 1) / (n - k - 1)
    w.eq(got, aic, 'AICc')


def gauss(y, p):
    n = len(y)
    s = 0.
    for a, b in zip(y, p):
        s = s + (a - b) * (a - b)
    return s / n


def normal(w, n):
    u = w.load().mod('pyuoi.utils')
    y, p = w.reals('y', n, -3, 3), w.reals('p', n, -3, 3)
    m = gauss(y, p)
    ll = u.log_likelihood_glm('normal', y, p)
    w.eq(ll, -n / 2. * (1 + loga(w, m)), 'Gaussian log-likelihood')
    w.check(w.or_(ll == np.inf, ll < np.inf), 'never NaN')


def pois(w, y, p):
    t = 0.
    for a, b in zip(y, p):
        if not bool(a == 0):
            t = t + a * loga(w, b)
        t = t - b
    return t / len(y)


def poisson(w, n):
    u = w.load().mod('pyuoi.utils')
    y, p = w.reals('y', n, 0, 3), w.reals('p', n, 0, 3)
    ll = u.log_likelihood_glm('poisson', y, p)
    w.eq(ll, pois(w, y, p), 'Poisson log-likelihood')
    w.check(w.or_(ll == -np.inf, ll > -np.inf), 'never NaN')


def unknown(w):
    u = w.load().mod('pyuoi.utils')
    y = w.reals('y', 2, 0, 3)
    w.check(w.raises(u.log_likelihood_glm, 'gamma', y, y, exc=ValueError),
            'unknown models are refused')


class Pred:
    """A fitted model with unknown predictions."""

    def __init__(self, t):
        self.t = t

    def __deepcopy__(self, memo):
        return Pred(self.t)

    def set_params(self, **k):
        return self

    def fit(self, X, y, sample_weight=None, coef_mask=None):
        t = self.t
        n = np.shape(X)[1]
        self.mask = None if coef_mask is None else \
            tuple(bool(v) for v in _flat(coef_mask))
        self.cols = t.decode(X)[1]
        K = t.K
        self.coef_ = np.ones((K, n)) if t.model == 'logistic' else np.ones(n)
        if self.mask is not None:
            self.coef_ = self.coef_ * np.reshape(self.mask, (K, n))
        self.intercept_ = t.icpt
        self.classes_ = np.arange(max(K, 2))
        return self

    def key(self, X):
        rows, cols = self.t.decode(X)
        if cols != self.cols:
            raise self.t.ctx.fail('scored on the columns that were fitted')
        return rows, (cols if self.mask is None else self.mask)

    def predict(self, X):
        rows, sup = self.key(X)
        return self.t.values('predict', rows, sup)

    def predict_mean(self, X):
        rows, sup = self.key(X)
        return self.t.values('mean', rows, sup)

    def predict_proba(self, X):
        rows, sup = self.key(X)
        return self.t.values('proba', rows, sup)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('coef_', 'intercept_', 'classes_'):
            raise AttributeError(n)
        raise Unsupported('solver attribute ' + n)


class Truth:
    def __init__(self, w, ctx, model, K, icpt):
        self.w, self.ctx, self.model, self.K = w, ctx, model, K
        self.icpt = icpt
        self.decode = ctx.decode
        self.memo = {}

    def values(self, kind, rows, sup):
        w = self.w
        k = (kind, sup)
        if k not in self.memo:
            N = self.ctx.N
            nm = '%s%s' % (kind, ''.join(str(int(v)) for v in sup))
            if kind == 'proba':
                K = max(self.K, 2)
                e = w.reals(nm, (N, K), .001, 1)
                t = e[:, 0]
                for j in range(1, K):
                    t = t + e[:, j]
                v = np.stack([e[:, j] / t for j in range(K)], axis=1)
            elif kind == 'mean':
                v = w.reals(nm, N, .001, 3)
            elif self.model == 'logistic':
                v = w.ints(nm, N, 0, max(self.K, 2) - 1)
            else:
                v = w.reals(nm, N, -3, 3)
            self.memo[k] = v
        return self.memo[k][np.array(rows)]


def score(w, model, metric, target, K, shared, labels, sup, y0):
    import sklearn.model_selection as ms
    N, F = 5, 2
    ctx = fitlib.Ctx(w, N=N, F=F, D=K or 1,
                     model={'lasso': 'linear', 'en': 'linear'}.get(model,
                                                                   model))
    tr, te = [3, 0, 2], [4, 1]

    def tts(*arrays, **k):
        out = []
        for a in arrays:
            out.extend([a[np.array(tr)], a[np.array(te)]])
        return out
    L = w.load(overrides=[(ms.train_test_split, tts)])
    lm = L.mod('pyuoi.linear_model')
    if model == 'logistic':
        fitlib.patch(L, 'pyuoi.linear_model.logistic',
                     'fit_intercept_fixed_coef',
                     lambda X, coef_, y, output_dim: np.zeros(output_dim))
    kw = dict(n_boots_sel=1, n_boots_est=1, standardize=False,
              random_state=fitlib.Rng(), estimation_score=metric,
              estimation_target=target)
    if model == 'logistic':
        kw['shared_support'] = shared
        if K == 2:
            kw['multi_class'] = 'multinomial'
    est = getattr(lm, fitlib.CLS[model])(**kw)
    for a in ('_selection_lm', '_estimation_lm', 'get_reg_params',
              'intersect'):
        if not hasattr(est, a):
            raise Unsupported('estimator has no ' + a)
    icpt = w.real('icpt', -1, 1) if model == 'poisson' else \
        (.5 if K is None else np.full(K, .5))
    t = Truth(w, ctx, model, K or 1, icpt)
    est._selection_lm, est._estimation_lm = Pred(t), Pred(t)
    rp = {'lasso': dict(alpha=1.), 'logistic': dict(C=1.)}.get(
        model, dict(alpha=1., l1_ratio=1.))
    est.get_reg_params = lambda X, y: [dict(rp)]
    S = np.array(sup, dtype=bool)
    est.intersect = lambda coef, thresholds: S.copy()
    if model == 'logistic':
        cls = list(y0)
        y = np.array(labels)[cls]
    elif model == 'poisson':
        y = w.reals('y', N, .5, 3)
        cls = None
    else:
        y = w.reals('y', N, -3, 3)
        cls = None
    if cls is None:
        w.assume(w.not_(y[0] == y[1]))
        yv = [v for v in y]
    r = w.call(est.fit, ctx.X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    sc = est.scores_
    w.check(np.shape(sc) == (1, len(sup)), 'one score per support')
    if target is None:
        target = 'test' if metric in ('r2', 'acc', 'log') else 'train'
    rows = {'train': tr, 'test': te}[target]
    n = len(rows)
    for s, one in enumerate(sup):
        k = sum(one)
        if not k:
            continue
        key = tuple(j for j in range(F) if one[j]) if shared else \
            tuple(bool(v) for v in one)
        if metric == 'acc':
            p = t.values('predict', rows, key)
            a = 0.
            for i, v in zip(rows, p):
                a = a + w.ite(v == cls[i], 1., 0.)
            w.eq(sc[0, s], a / n, 'the score is the accuracy')
            continue
        if metric == 'r2':
            p = t.values('predict', rows, key)
            m = 0.
            for i in rows:
                m = m + yv[i]
            m = m / n
            den = 0.
            num = 0.
            for i, v in zip(rows, p):
                den = den + (yv[i] - m) * (yv[i] - m)
                num = num + (yv[i] - v) * (yv[i] - v)
            if bool(den == 0):
                continue
            w.eq(sc[0, s], 1 - num / den, 'the score is r2')
            continue
        if model == 'logistic':
            p = t.values('proba', rows, key)
            ll = 0.
            for a, i in enumerate(rows):
                ll = ll + loga(w, p[a, cls[i]])
            mean, total = ll / n, ll
        elif model == 'poisson':
            p = t.values('mean', rows, key)
            mean = pois(w, [yv[i] for i in rows], p)
            total = mean * n
            if not bool(icpt == 0):
                k += 1
        else:
            p = t.values('predict', rows, key)
            g = gauss([yv[i] for i in rows], p)
            mean, total = None, -n / 2. * (1 + loga(w, g))
        if metric == 'log':
            w.eq(sc[0, s], mean, 'the score is the mean log-likelihood')
            continue
        c = 2 * k - 2 * total
        if metric == 'BIC':
            c = k * np.log(float(n)) - 2 * total
        elif metric == 'AICc' and n > k + 1:
            c = c + 2. * k * (k + 1) / (n - k - 1)
        w.eq(sc[0, s], -c, 'the score is the negated ' + metric)


def tasks(tier):
    out = [Task('criteria', criteria, {}), Task('unknown', unknown, {})]
    for n in (1, 2, 3):
        out.append(Task('normal-%d' % n, normal, dict(n=n)))
        out.append(Task('poisson-%d' % n, poisson, dict(n=n)))
    for model in ('lasso', 'en', 'poisson', 'logistic'):
        for K in ((1, 2, 3) if model == 'logistic' else (None,)):
            for metric in (('r2',) if model in ('lasso', 'en') else
                           ('log', 'acc') if model == 'logistic' else
                           ('log',)) + ('AIC', 'AICc', 'BIC'):
                for target in (None, 'train', 'test'):
                    for shared in (True, False) if model == 'logistic' \
                            else (True,):
                        if not shared and K == 1:
                            continue
                        if tier == 'quick' and model == 'en' and \
                                target != 'train':
                            continue
                        sup = [(True, False), (True, True)]
                        if shared:
                            sup.append((False, False))
                        else:
                            sup = [tuple(i % 2 == 0 for i in range(2 * K)),
                                   tuple(i != 2 for i in range(2 * K))]
                        lab = {1: [3, 8], 2: [0, 4], 3: [7, 2, 5],
                               None: None}[K]
                        if lab:
                            lab = sorted(lab)
                        y0 = {1: (0, 1, 1, 0, 1), 2: (1, 0, 1, 1, 0),
                              3: (2, 0, 1, 0, 2), None: None}[K]
                        out.append(Task(
                            'score-%s%s-%s-%s%s' % (
                                model, K or '', metric, target,
                                '' if shared else '-own'), score,
                            dict(model=model, metric=metric, target=target,
                                 K=K, shared=shared, labels=lab, sup=sup,
                                 y0=y0)))
    return out

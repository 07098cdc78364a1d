"""C11: the refitted intercept and the intercept-only models."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from . import fitlib
from .solvers import expo, loga

ID = 'C11'
BOUNDS = ('every real design, response, coefficient vector and optimizer '
          'answer for 2-4 samples x 1-2 features (logistic: every label '
          'vector, 2-3 classes), whole fits with the coefficient solvers '
          'replaced by unknowns; intercept-only models for 1-4 samples; '
          'exp/log are the real functions (uninterpreted with their '
          'algebraic laws)')
OUTSIDE = ('rounding of double arithmetic; convergence of the scalar '
           'optimizer used for logistic intercepts; larger shapes')


class Solver:
    """Returns the given coefficients whatever the data."""

    def __init__(self, coef, K):
        self.coef, self.K = coef, K

    def __deepcopy__(self, memo):
        return Solver(self.coef, self.K)

    def set_params(self, **k):
        return self

    def fit(self, X, y, sample_weight=None, coef_mask=None):
        self.coef_ = self.coef.copy()
        self.intercept_ = 0.25 if self.K is None else np.full(self.K, 0.25)
        return self

    def predict(self, X):
        return np.zeros(np.shape(X)[0])

    predict_mean = predict

    def predict_proba(self, X):
        return np.full((np.shape(X)[0], max(2, self.K)), .5)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('coef_', 'intercept_'):
            raise AttributeError(n)
        raise Unsupported('solver attribute ' + n)


class Min:
    """scipy.optimize.minimize, answered by an unknown point."""

    def __init__(self):
        self.calls = []
        self.answer = None

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        if bounds is not None or constraints:
            raise Unsupported('constrained intercept')
        n = np.size(x0)

        def value(p):
            r = fun(p, *args)
            if jac is True:
                return r
            if callable(jac):
                return r, jac(p, *args)
            return r, None
        c = fitlib.Fit(n=n, value=value)
        self.calls.append(c)
        x = self.answer(c)
        return fitlib.Fit(x=x, success=True, fun=0., status=0, nit=1,
                          message='', jac=None)


def setup(w, model, N, F, K, icpt, empty, extra=()):
    """An estimator whose solvers answer `coef`; one bootstrap each."""
    import sklearn.metrics as sm
    import sklearn.model_selection as ms
    got = []

    def score(kind):
        def f(y_true, y_pred, **k):
            got.append((kind, y_true, y_pred))
            return 0.
        return f

    def tts(*arrays, **k):
        tr = list(range(N - 1)) if N > 2 else [0, 1]
        te = [N - 1]
        out = []
        for a in arrays:
            out.extend([a[np.array(tr)], a[np.array(te)]])
        return out
    tts.train = list(range(N - 1)) if N > 2 else [0, 1]
    mini = Min()
    import scipy.optimize as so
    L = w.load(overrides=[(ms.train_test_split, tts),
                          (sm.r2_score, score('r2')),
                          (sm.accuracy_score, score('acc')),
                          (sm.log_loss, score('ll')) if empty else
                          (sm.r2_score, score('r2')),
                          (so.minimize, mini)])
    lm = L.mod('pyuoi.linear_model')
    if model == 'poisson':
        fitlib.patch(L, 'pyuoi.utils', 'log_likelihood_glm',
                     lambda model, y_true, y_pred:
                     score('ll')(y_true, y_pred))
    kw = dict(n_boots_sel=1, n_boots_est=1, standardize=False,
              random_state=fitlib.Rng(), fit_intercept=icpt)
    if model == 'logistic':
        kw['estimation_score'] = 'log'
        if K == 2:
            kw['multi_class'] = 'multinomial'
    elif model == 'en':
        kw['alphas'] = [1.]
    est = getattr(lm, fitlib.CLS[model])(**kw)
    for a in ('_selection_lm', '_estimation_lm', 'get_reg_params',
              'intersect'):
        if not hasattr(est, a):
            raise Unsupported('estimator has no ' + a)
    shape = (F,) if K is None else (K, F)
    coef = np.zeros(shape) if empty else w.reals('coef', shape, -2, 2)
    est._selection_lm = Solver(coef, K)
    est._estimation_lm = Solver(coef, K)
    rp = {'lasso': dict(alpha=1.), 'logistic': dict(C=1.)}.get(
        model, dict(alpha=1., l1_ratio=1.))
    est.get_reg_params = lambda X, y: [dict(rp)]
    sup = np.full((1, F), not empty)
    est.intersect = lambda coef, thresholds: sup.copy()
    return L, est, coef, got, tts, mini


def linear(w, model, N, F, icpt):
    L, est, coef, _, _, _ = setup(w, model, N, F, None, icpt, False)
    X = w.reals('X', (N, F), -3, 3)
    y = w.reals('y', N, -3, 3) if model != 'poisson' else \
        w.reals('y', N, 0, 3)
    X0, y0 = X.copy(), y.copy()
    w.assume(w.any([y0[i] != y0[0] for i in range(1, N)]))
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    for a, b in zip(_flat(est.coef_), _flat(coef)):
        w.eq(a, b, 'the coefficients are the bagged ones')
    b = _flat(est.intercept_)
    w.check(len(b) == 1, 'one intercept')
    b = b[0]
    if not icpt:
        w.check(b == 0, 'no intercept is reported')
        return
    co = _flat(est.coef_)
    s, t = 0., 0.
    for i in range(N):
        z = b
        for j in range(F):
            z = z + X0[i, j] * co[j]
        s = s + y0[i]
        t = t + (z if model != 'poisson' else expo(w, z))
    w.eq(s, t, 'responses and predictions have the same mean')


def logistic(w, N, F, K, icpt, labels):
    L, est, coef, _, _, mini = setup(w, 'logistic', N, F, K, icpt, False)
    X = w.reals('X', (N, F), -3, 3)
    n_cls = max(K, 2)
    opts = [c for c in itertools.product(range(n_cls), repeat=N)
            if len(set(c)) == n_cls]
    if N > 3:
        opts = [(0, 1, 2, 1), (2, 0, 1, 2), (0, 1, 0, 2)]
    yc = w.choose('y', opts)
    y = np.array(labels)[list(yc)]
    X0 = X.copy()
    seen = []

    def ans(v):
        def f(c):
            seen.append(c)
            return np.array(v[:c.n]) if not hasattr(v, 'e') else v
        return f
    A = None
    if icpt:
        base = []
        mini.answer = ans([0.] * K)
        r = w.call(est.fit, X, y)
        w.check(r.ok, 'fit succeeds', repr(r.exc))
        if len(seen) != 1:
            raise Unsupported('intercept is not found by minimize')
        n = seen[0].n
        base = [float(v) for v in _flat(est.intercept_)]
        w.check(len(base) == K, 'one intercept per output')

        def cent(v):
            return v if K == 1 else [x - v[0] for x in v]
        A = []
        for i in range(n):
            e = [0.] * n
            e[i] = 1.
            mini.answer = ans(e)
            est.fit(X, y)
            v = [float(t) for t in _flat(est.intercept_)]
            A.append([p - q for p, q in zip(cent(v), cent(base))])
        w.check(np.linalg.matrix_rank(np.array(A)) == max(K - 1, 1),
                'the optimizer reaches every intercept')
        v = w.reals('v', n, -2, 2)
        mini.answer = lambda c: v.copy()
        seen = mini.calls
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    b = _flat(est.intercept_)
    w.check(len(b) == K, 'one intercept per output')
    co = np.reshape(np.array(_flat(est.coef_), dtype=object), (K, F))
    for p, q in zip(_flat(est.coef_), _flat(coef)):
        w.eq(p, q, 'the coefficients are the bagged ones')
    if not icpt:
        for t in b:
            w.check(t == 0, 'no intercept is reported')
        return
    c = mini.calls[-1]
    val, g = c.value(v.copy())
    loss = 0.
    gb = [0.] * K
    for i in range(N):
        z = []
        for k in range(K):
            s = b[k]
            for j in range(F):
                s = s + X0[i, j] * co[k, j]
            z.append(s)
        if K == 1:
            sg = 1. if yc[i] else -1.
            e = expo(w, -(z[0] * sg))
            loss = loss + loga(w, 1 + e)
            gb[0] = gb[0] - sg * (e / (1 + e))
        else:
            e = [expo(w, z[k] - z[yc[i]]) for k in range(K)]
            tot = 0.
            for t in e:
                tot = tot + t
            loss = loss + loga(w, tot)
            for k in range(K):
                gb[k] = gb[k] + (e[k] / tot - (1. if k == yc[i] else 0.))
    w.eq(val, loss / N, 'the intercept objective is the mean log-loss at '
         'the intercept that is reported')
    if g is not None:
        w.check(np.size(g) == n, 'one derivative per coordinate')
        g = _flat(g)
        for i in range(n):
            t = 0.
            for k in range(K):
                if A[i][k]:
                    t = t + A[i][k] * gb[k]
            w.eq(g[i], t / N, 'the intercept gradient is the derivative of '
                 'the mean log-loss')


def only(w, model, N, K):
    """Intercept-only models by themselves."""
    L = w.load()
    L.mod('pyuoi.linear_model')
    if model == 'linear':
        y = w.reals('y', N, -3, 3)
        f = L.mod('pyuoi.linear_model.base').LinearInterceptFitterNoFeatures(
            y)
    elif model == 'poisson':
        y = w.reals('y', N, 0, 3)
        f = L.mod('pyuoi.linear_model.poisson') \
            .PoissonInterceptFitterNoFeatures(y)
    else:
        y = w.ints('y', N, 0, max(K, 2) - 1) if K < 3 else \
            np.array(w.choose('y', list(itertools.product(range(K),
                                                          repeat=N))))
        f = L.mod('pyuoi.linear_model.logistic') \
            .LogisticInterceptFitterNoFeatures(y, K)
    X = np.zeros((3, 0))
    s = 0.
    for v in y:
        s = s + v
    m = s / N
    pr = f.predict(X)
    w.check(np.shape(pr) == (3,), 'one prediction per row')
    if model == 'linear':
        w.eq(f.intercept_, m, 'the intercept is the mean')
        for v in pr:
            w.eq(v, m, 'the prediction is the mean')
    elif model == 'poisson':
        pm = f.predict_mean(X)
        w.check(np.shape(pm) == (3,), 'one mean per row')
        for v in pm:
            w.eq(v, m, 'the predicted mean is the mean response')
        for v in pr:
            w.check(w.and_(v <= m + 1e-9, v > m - 1 - 1e-9),
                    'the predicted mode is the floor of the mean')
        w.check(w.implies(w.not_(m == 0), f.intercept_ > -50),
                'the intercept is the log mean')
    elif K == 1:
        pp = f.predict_proba(X)
        w.check(np.shape(pp)[0] == 3, 'one probability per row')
        pp = np.reshape(pp, (3, -1))
        for i in range(3):
            w.check(w.and_(pp[i, -1] - m <= 1e-8, m - pp[i, -1] <= 1e-8),
                    'the predicted probability is the class frequency')
            w.check(w.implies(m > .5, pr[i] == 1),
                    'the likelier class is predicted')
            w.check(w.implies(m < .5, pr[i] == 0),
                    'the likelier class is predicted')
    else:
        pp = f.predict_proba(X)
        w.check(np.shape(pp) == (3, K), 'one probability per row and class')
        fr = []
        for k in range(K):
            t = 0.
            for v in y:
                t = t + w.ite(v == k, 1., 0.)
            fr.append(t / N)
        for i in range(3):
            for k in range(K):
                w.check(w.and_(pp[i, k] - fr[k] <= 1e-8,
                               fr[k] - pp[i, k] <= 1e-8),
                        'the predicted probabilities are the frequencies')
                w.check(pp[i, k] > 0, 'no class is impossible')
                for l in range(K):
                    w.check(w.implies(fr[l] > fr[k], pr[i] != k),
                            'the likeliest class is predicted')


def empty(w, model, N, K):
    """Empty supports are scored with the intercept-only model."""
    F = 1
    L, est, coef, got, tts, mini = setup(w, model, N, F, K, True, True)
    X = w.reals('X', (N, F), -3, 3)
    if model == 'logistic':
        n = max(K, 2)
        opts = [c for c in itertools.product(range(n), repeat=N)
                if len(set(c)) == n]
        y = np.array(w.choose('y', opts))
        mini.answer = lambda c: np.zeros(c.n)
    elif model == 'poisson':
        y = w.reals('y', N, 0, 3)
    else:
        y = w.reals('y', N, -3, 3)
    w.assume(w.any([y[i] != y[0] for i in range(1, N)]))
    y0 = y.copy()
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    for v in _flat(est.coef_):
        w.check(v == 0, 'an empty support gives zero coefficients')
    w.check(len(got) == 1, 'the empty support is scored once')
    kind, yt, yp = got[0]
    tr = tts.train
    te = [N - 1]
    w.check(np.shape(yt) == (1,), 'scored on the test rows')
    w.eq(yt[0], y0[te[0]], 'scored on the test rows')
    if model == 'logistic':
        yp = np.reshape(yp, (1, -1))
        if K == 1:
            f = sum(float(y0[i]) for i in tr) / len(tr)
            w.check(abs(float(yp[0, -1]) - f) < 1e-8,
                    'the class frequencies of the training rows')
        else:
            for k in range(K):
                f = sum(y0[i] == k for i in tr) / len(tr)
                w.check(abs(float(yp[0, k]) - f) < 1e-8,
                        'the class frequencies of the training rows')
        return
    m = 0.
    for i in tr:
        m = m + y0[i]
    w.eq(np.reshape(yp, -1)[0], m / len(tr),
         'the prediction is the mean of the training rows')


def tasks(tier):
    out = []
    big = tier != 'quick'
    for icpt in (True, False):
        s = '-int' * icpt
        for model in ('lasso', 'en', 'poisson'):
            for N, F in ((2, 1), (3, 2)) + (((4, 2), (3, 3)) if big else ()):
                out.append(Task('%s-N%dF%d%s' % (model, N, F, s), linear,
                                dict(model=model, N=N, F=F, icpt=icpt)))
        for K, N, labels in ((1, 2, [0, 1]), (1, 3, [3, 8]),
                             (2, 2, [0, 1]), (2, 3, [4, 5]),
                             (3, 3, [2, 5, 9]), (3, 4, [0, 1, 2])):
            for F in (1, 2) if N < 4 or big else (1,):
                out.append(Task('logistic-K%dN%dF%d%s' % (K, N, F, s),
                                logistic, dict(N=N, F=F, K=K, icpt=icpt,
                                               labels=labels)))
    for N in (1, 3, 4):
        out.append(Task('only-linear-N%d' % N, only,
                        dict(model='linear', N=N, K=None)))
        out.append(Task('only-poisson-N%d' % N, only,
                        dict(model='poisson', N=N, K=None)))
        for K in (1, 2, 3):
            out.append(Task('only-logistic-K%dN%d' % (K, N), only,
                            dict(model='logistic', N=N, K=K)))
    for m, K in (('lasso', None), ('en', None), ('poisson', None),
                 ('logistic', 1), ('logistic', 2), ('logistic', 3)):
        out.append(Task('empty-%s-%s' % (m, K), empty,
                        dict(model=m, N=4, K=K)))
    return out

"""C20: solvers receive the penalized problem the user asked for."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from . import fitlib, solvers

ID = 'C20'
BOUNDS = ('Poisson and logistic base solvers: every real design (2-3 samples, '
          '1-2 features), weight, penalty, mixing ratio, tolerance, limit and '
          'optimizer answer, with and without intercept and warm start, the '
          'objective handed over evaluated at an arbitrary point; the four '
          'estimators: every documented solver setting seen at the moment '
          'the base solver is fitted, during whole fits on concrete data')
OUTSIDE = ('what the optimizers find; scikit-learn and pycasso internals; '
           'larger shapes')


def settings(w, model, solver, icpt, warm, std, D=1):
    """A whole fit; every base solver records its settings when fitted."""
    import sklearn.linear_model as sl
    seen = []
    tol = w.real('tol', 1e-6, .1)
    limit = w.int('max_iter', 1, 10 ** 5)

    def rec(cls):
        class Rec(cls):
            def fit(self, X, y, sample_weight=None, coef_mask=None, **k):
                seen.append((cls.__name__, dict(self.get_params()), self))
                n = X.shape[1]
                shape = (n,) if cls.__name__ != \
                    'MaskedCoefLogisticRegression' else (D, n)
                self.coef_ = np.ones(shape)
                self.intercept_ = np.zeros(shape[0]) if D > 1 or len(
                    shape) > 1 else 0.
                self.classes_ = np.arange(max(D, 2))
                return self

            def predict(self, X):
                return np.arange(X.shape[0]) * 1.

            def predict_mean(self, X):
                return np.arange(X.shape[0]) + 1.

            def predict_proba(self, X):
                K = max(2, D)
                return np.ones((X.shape[0], K)) / K
        Rec.__name__ = cls.__name__
        return Rec
    ov = [(c, rec(c)) for c in (sl.Lasso, sl.ElasticNet,
                                sl.LinearRegression)]
    L = w.load(overrides=ov)
    lm = L.mod('pyuoi.linear_model')
    mods = {'Poisson': 'poisson', 'MaskedCoefLogisticRegression': 'logistic'}
    for name, m in mods.items():
        mod = L.mod('pyuoi.linear_model.' + m)
        cls = getattr(mod, name)
        r = rec(cls)
        for a in ('fit', 'predict', 'predict_mean', 'predict_proba'):
            if m == 'logistic' and a == 'predict_mean':
                continue
            setattr(cls, a, r.__dict__[a])
    pyc = []

    class Solver:
        def __init__(self, X, y, **k):
            pyc.append((X, y, k))
            self.n = (len(k['lambdas']), X.shape[1])
            self.result = {}

        def train(self):
            self.result.update(beta=np.ones(self.n),
                               intercept=np.zeros(self.n[0]))
    if solver == 'pyc':
        import pycasso
        m = L.mod('pyuoi.linear_model.lasso')
        if getattr(m, 'pycasso', None) is None:
            raise Unsupported('pycasso is not there')

        class P:
            pass
        P.Solver = Solver
        m.pycasso = P
    args = dict(n_boots_sel=2, n_boots_est=2, fit_intercept=icpt,
                standardize=std, tol=tol, max_iter=limit, random_state=3)
    args['warm_start'] = warm
    if solver:
        args['solver'] = solver
    if model == 'logistic':
        args['n_C'] = 2
        if D == 2:
            args['multi_class'] = 'multinomial'
        y = np.array([0, 1, 0, 1, 0, 1, 0, 1]) if D < 3 else \
            np.array([0, 1, 2, 0, 1, 2, 0, 1])
    else:
        args['n_lambdas'] = 2
        y = np.array([1., 2, 0, 3, 5, 9, 1, 7])
    if model in ('en', 'poisson'):
        args['alphas'] = np.array([.25, .75])
    X = np.array([[1., 2], [3, 1], [0, 5], [2, 2], [7, 1], [4, 4], [1, 0],
                  [5, 6]])
    if model == 'poisson':
        fitlib.patch(L, 'pyuoi.utils', 'log_likelihood_glm',
                     lambda **k: -1.)
    est = getattr(lm, fitlib.CLS[model])(**args)
    # what a solver is given must be the estimator's settings, whatever the
    # scores and supports are
    fitlib.patch(L, 'pyuoi.linear_model.logistic', 'fit_intercept_fixed_coef',
                 lambda X, coef_, y, output_dim: np.zeros(output_dim))
    r = w.call(est.fit, X, y)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    reg = est.reg_params_
    base = {'lasso': 'Lasso', 'en': 'ElasticNet', 'poisson': 'Poisson',
            'logistic': 'MaskedCoefLogisticRegression'}[model]

    def is_est(n, p):
        if model in ('lasso', 'en'):
            return n == 'LinearRegression'
        if model == 'poisson':
            return p['alpha'] == 0
        return p['C'] == np.inf
    sel = [s for s in seen if not is_est(s[0], s[1])]
    esti = [s for s in seen if is_est(s[0], s[1])]
    if solver == 'pyc':
        w.check(len(pyc) == 2, 'one selection fit per bootstrap')
        for X_, y_, k in pyc:
            w.check(k['prec'] == tol, 'tolerance reaches selection')
            w.check(k['max_ite'] == limit, 'limit reaches selection')
            w.check(k['useintercept'] is icpt, 'intercept setting')
            w.check(k['penalty'] == 'l1' and k['family'] == 'gaussian',
                    'lasso problem')
            w.check([float(v) for v in k['lambdas']] ==
                    [float(r['alpha']) for r in reg], 'penalty grid')
    else:
        w.check(len(sel) == 2 * len(reg), 'one selection fit per setting')
        for i, (n, p, obj) in enumerate(sel):
            q = reg[i % len(reg)]
            w.check(n == base, 'selection solver')
            for k, v in q.items():
                w.check(p[k] == v, 'selection uses the grid entry')
            w.check(p['tol'] == tol, 'tolerance reaches selection')
            w.check(p['max_iter'] == limit, 'limit reaches selection')
            w.check(bool(p['fit_intercept']) is icpt,
                    'intercept setting reaches selection')
            w.check(bool(p['warm_start']) is warm, 'warm start setting')
            if model == 'poisson':
                w.check(p['solver'] == solver, 'solver setting')
            if model == 'logistic':
                w.check(p['penalty'] == 'l1', 'selection is L1 penalized')
                w.check(p['class_weight'] is None, 'no class weights')
    w.check(len(esti) == 2 * est.n_supports_, 'one estimation fit per '
            'bootstrap and support')
    for n, p, obj in esti:
        w.check(bool(p['fit_intercept']) is icpt,
                'intercept setting reaches estimation')
        if model in ('poisson', 'logistic'):
            w.check(n == base, 'estimation solver')
            w.check(p['tol'] == tol, 'tolerance reaches estimation')
            w.check(p['max_iter'] == limit, 'limit reaches estimation')
            w.check(not p['warm_start'], 'estimation starts afresh')
            if model == 'poisson':
                w.check(p['solver'] == solver, 'solver setting')
            else:
                w.check(p['penalty'] != 'l1', 'estimation is not L1')


def tasks(tier):
    out = []
    for icpt in (True, False):
        s = '-int' * icpt
        for N, F in ((2, 1), (2, 2), (3, 2)):
            for wt in (False, True):
                out.append(Task('poisson-N%dF%d%s%s' % (N, F, s, '-w' * wt),
                                solvers.poisson,
                                dict(N=N, F=F, icpt=icpt, wt=wt,
                                     warm=not wt, l1r=None)))
        for l1r in (0., 1.):
            out.append(Task('poisson-l1r%d%s' % (l1r, s), solvers.poisson,
                            dict(N=2, F=2, icpt=icpt, wt=False, warm=True,
                                 l1r=l1r)))

        def add(nm, **c):
            d = dict(N=2, F=2, K=1, pen='l1', icpt=icpt, wt=False, cw=None,
                     warm=False, masked=None, labels=[0, 1])
            d.update(c)
            out.append(Task('logistic-' + nm + s, solvers.logistic, d))
        for pen in ('l1', 'l2'):
            add('bin-' + pen, pen=pen, warm=True)
            add('bin-wt-' + pen, pen=pen, wt=True, labels=[-3, 7])
            add('bin-N3-' + pen, pen=pen, N=3, cw='balanced')
            add('bin-cw-' + pen, pen=pen, N=3, cw={0: .5, 1: 2.}, wt=True)
            add('K2-' + pen, pen=pen, K=2, multi='multinomial', warm=True)
            add('K2-cw-' + pen, pen=pen, K=2, multi='multinomial', N=3,
                cw='balanced', F=1)
            add('K3-' + pen, pen=pen, K=3, N=3, F=2, labels=[0, 1, 2])
            add('K3-F1-' + pen, pen=pen, K=3, N=4, F=1, labels=[5, 6, 9],
                warm=True)
            add('K3-cw-' + pen, pen=pen, K=3, N=4, F=1, labels=[0, 1, 2],
                cw={0: .5, 1: 2., 2: 1.})
        add('inf', pen='l2', Cinf=True)
        for K in (1, 2, 3):
            out.append(Task('allzero-K%d%s' % (K, s), solvers.allzero,
                            dict(K=K, F=2, icpt=icpt, masked=False)))
        for std in (True, False):
            for warm in (True, False):
                nm = '%s%s%s' % (s, '-std' * std, '-warm' * warm)
                cs = [('lasso', 'cd', 1), ('en', None, 1),
                      ('poisson', 'lbfgs', 1), ('poisson', 'cd', 1),
                      ('logistic', None, 1), ('logistic', None, 2),
                      ('logistic', None, 3)]
                if icpt:
                    cs.append(('lasso', 'pyc', 1))
                for m, so, D in cs:
                    out.append(Task('settings-%s-%s-D%d%s' % (m, so, D, nm),
                                    settings,
                                    dict(model=m, solver=so, icpt=icpt,
                                         warm=warm, std=std, D=D)))
    return out

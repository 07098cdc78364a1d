"""C22: Poisson predictions."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from . import fitlib, solvers
from .c11 import Solver
from .solvers import expo

ID = 'C22'
BOUNDS = ('every design, coefficient vector, intercept and solver answer for '
          '1-3 rows x 1-2 features, both solvers (coordinate descent: one '
          'sweep), UoI and base models, every response vector of the size '
          'including constant and all-zero ones; exp/log are the real '
          'functions (uninterpreted with their algebraic laws)')
OUTSIDE = 'rounding of double arithmetic; larger shapes'


def has(w, est):
    w.check(hasattr(est, 'coef_') and hasattr(est, 'intercept_'),
            'a fitted model has coefficients and an intercept')


def predictions(w, est, n, F, tag='Z'):
    """Predictions of a fitted model on n new rows."""
    has(w, est)
    co = [v for v in _flat(est.coef_)]
    b = _flat(est.intercept_)
    w.check(len(b) == 1 and len(co) == F, 'one coefficient per feature')
    b = b[0]
    Z = w.reals(tag, (n, F), -2, 2)
    Z0 = Z.copy()
    r = w.call(est.predict_mean, Z)
    w.check(r.ok, 'predicting the mean works', repr(r.exc))
    mu = r.value
    r = w.call(est.predict, Z)
    w.check(r.ok, 'predicting works', repr(r.exc))
    mode = r.value
    w.check(np.shape(mu) == (n,) and np.shape(mode) == (n,),
            'one prediction per row')
    for i in range(n):
        z = b
        for j in range(F):
            z = z + Z0[i, j] * co[j]
        e = expo(w, z)
        w.eq(mu[i], e, 'the mean is exp(intercept + x.coef)')
        w.check(w.and_(mode[i] <= e * (1 + 1e-9), mode[i] > e - 1 - 1e-9),
                'the mode is the floor of the mean')
        w.check(mode[i] == np.floor(w.array([mode[i]]))[0],
                'the mode is a count')
    w.eq(Z, Z0, 'the design is left alone')


def direct(w, cls, n, F, kind):
    """Coefficients set by hand, in every form a fit can leave them."""
    L = w.load()
    est = getattr(L.mod('pyuoi.linear_model'), cls)() if cls != 'Poisson' \
        else L.mod('pyuoi.linear_model.poisson').Poisson()
    X = np.zeros((1, F))
    for f in (est.predict, est.predict_mean):
        r = w.call(f, X)
        w.check(not r.ok, 'predicting before fitting is refused')
    est.coef_ = w.reals('coef', F, -2, 2)
    b = w.real('b', -2, 2)
    est.intercept_ = {'num': b, 'arr': w.array([b]), 'zero': 0.,
                      'zeros': np.zeros(1), 'inf': -np.inf,
                      'ainf': np.array(-np.inf)}[kind]
    predictions(w, est, n, F)


def fitted(w, N, F, solver, icpt, y):
    """A base Poisson fit."""
    L, o = solvers.load(w)
    X = w.reals('X', (N, F), -2, 2)
    est = L.mod('pyuoi.linear_model.poisson').Poisson(
        alpha=.1, fit_intercept=icpt, solver=solver, max_iter=1)
    o.answer = lambda c: w.reals('q', c.n, -2, 2)
    r = w.call(est.fit, X, np.array(y))
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    if solver == 'lbfgs':
        predictions(w, est, 2, F)
    else:
        # the coefficients are large expressions: only the shape matters
        for f in (est.predict, est.predict_mean):
            r = w.call(f, np.zeros((2, F)))
            w.check(r.ok, 'predicting works', repr(r.exc))
            w.check(np.shape(r.value) == (2,), 'one prediction per row')
    if not icpt:
        has(w, est)
        w.check(bool(np.all(np.array(_flat(est.intercept_)) == 0)),
                'no intercept')


def uoi(w, N, F, icpt, std, empty, y):
    """A whole UoI fit."""
    import sklearn.model_selection as ms

    def tts(*arrays, **k):
        out = []
        for a in arrays:
            out.extend([a[np.arange(N - 1)], a[np.array([N - 1])]])
        return out
    L = w.load(overrides=[(ms.train_test_split, tts)])
    est = L.mod('pyuoi.linear_model').UoI_Poisson(
        n_boots_sel=1, n_boots_est=1, random_state=fitlib.Rng(),
        fit_intercept=icpt, standardize=std)
    for a in ('_selection_lm', '_estimation_lm', 'get_reg_params',
              'intersect'):
        if not hasattr(est, a):
            raise Unsupported('estimator has no ' + a)
    coef = w.reals('coef', F, -1, 1)
    est._selection_lm, est._estimation_lm = Solver(coef, None), \
        Solver(coef, None)
    est.get_reg_params = lambda X, y: [dict(alpha=1., l1_ratio=1.)]
    sup = np.full((1, F), not empty)
    est.intersect = lambda coef, thresholds: sup.copy()
    X = np.array([[1., 4.], [3., 2.], [2., 6.], [6., 0.]])[:N, :F]
    fitlib.patch(L, 'pyuoi.utils', 'log_likelihood_glm',
                 lambda model, y_true, y_pred: 0.)
    r = w.call(est.fit, X, np.array(y[:N]))
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    has(w, est)
    co, b = _flat(est.coef_), _flat(est.intercept_)
    w.check(len(co) == F and len(b) == 1, 'one coefficient per feature')
    Z = np.array([[0., 1.], [2., .5]])[:, :F]
    mu = w.call(est.predict_mean, Z)
    w.check(mu.ok, 'predicting works', repr(mu.exc))
    mode = w.call(est.predict, Z)
    w.check(mode.ok, 'predicting works', repr(mode.exc))
    w.check(np.shape(mu.value) == (2,) and np.shape(mode.value) == (2,),
            'one prediction per row')
    for i in range(2):
        z = b[0]
        for j in range(F):
            z = z + Z[i, j] * co[j]
        w.eq(mu.value[i], expo(w, z), 'the mean is exp(intercept + x.coef)')


def tasks(tier):
    out = []
    for cls in ('Poisson', 'UoI_Poisson'):
        for kind in ('num', 'arr', 'zero', 'zeros', 'inf', 'ainf'):
            for n, F in ((1, 1), (2, 2), (3, 1)):
                out.append(Task('direct-%s-%s-%dx%d' % (cls, kind, n, F),
                                direct, dict(cls=cls, n=n, F=F, kind=kind)))
    ys = dict(any=[1., 3., 0.], const=[2., 2., 2.], zero=[0., 0., 0.])
    for icpt in (True, False):
        for k, y in ys.items():
            for solver in ('lbfgs', 'cd'):
                for N, F in ((2, 1), (2, 2), (3, 1)):
                    out.append(Task('fitted-%s-%s-%s-%dx%d' % (
                        solver, icpt, k, N, F), fitted,
                        dict(N=N, F=F, solver=solver, icpt=icpt, y=y[:N])))
            for std in (True, False):
                for empty in (True, False):
                    for F in (1, 2):
                        out.append(Task('uoi-%s-%s-%s-%s-F%d' % (
                            icpt, std, empty, k, F), uoi,
                            dict(N=3, F=F, icpt=icpt, std=std, empty=empty,
                                 y=y)))
    out.append(Task('fitted-x', fitted, dict(N=2, F=1, solver='cd',
                                             icpt=True, y=[0., 1.])))
    return out

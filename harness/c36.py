"""C36: settings survive get and set; invalid settings are refused."""
import inspect

import numpy as np

from vx.core import Unsupported
from vx.run import Task
from vx.world import _flat

from . import curlib, fitlib, nmflib, solvers

ID = 'C36'
BOUNDS = ('every estimator and base solver; every constructor setting, with '
          'numbers symbolic (integers up to 10^6, reals up to 10^6) and '
          'names, flags and objects out of the documented choices; one or two '
          'changes of any setting afterwards; refusals over lists of wrong '
          'names and every negative number')
OUTSIDE = ('wrong names other than the listed ones; nested settings of '
           'scikit-learn solvers; settings that scikit-learn validates')

LM = 'pyuoi.linear_model.'


class Obj:
    """A solver object given by the caller."""

    def __init__(self, name='a'):
        self.name = name

    def get_params(self, deep=True):
        return {'name': self.name}

    def set_params(self, **p):
        return self

    def fit_predict(self, X):
        return np.zeros(len(X), int)

    def __call__(self, *a, **k):
        return np.mean(*a, **k)


def num(kind, lo, hi):
    return ('num', kind, lo, hi)


POS = num('real', 1e-6, 1e6)
FRAC = num('real', .1, .9)
CNT = num('int', 2, 10 ** 6)
FLAG = ('one', [True, False])
THR = ('one', [1, 2, .75, 1., [.5, 1.], [1, 2]])
TGT = ('one', [None, 'train', 'test'])
SEED = ('one', [np.random.RandomState(1), np.random.RandomState(2)])
ALPHAS = ('one', [np.array([.5]), np.array([.25, .75]), [.5, 1.]])

COMMON = dict(n_boots_sel=num('int', 4, 10 ** 6), n_boots_est=CNT,
              selection_frac=FRAC, estimation_frac=FRAC,
              stability_selection=('one', [1, 2, [1, 2]]),
              estimation_target=TGT, eps=POS, warm_start=FLAG,
              fit_intercept=FLAG, standardize=FLAG, max_iter=CNT, tol=POS,
              random_state=SEED)
REG = ('one', ['r2', 'AIC', 'AICc', 'BIC'])
EST = {
    'lasso': (LM + 'lasso', 'UoI_Lasso', dict(
        COMMON, n_lambdas=CNT, estimation_score=REG, copy_X=FLAG,
        solver=('one', ['cd']))),
    'pyc': (LM + 'lasso', 'UoI_Lasso', dict(
        COMMON, n_lambdas=CNT, estimation_score=REG, copy_X=FLAG,
        fit_intercept=('one', [True]), solver=('one', ['pyc']))),
    'en': (LM + 'elasticnet', 'UoI_ElasticNet', dict(
        COMMON, n_lambdas=CNT, estimation_score=REG, copy_X=FLAG,
        alphas=ALPHAS)),
    'logistic': (LM + 'logistic', 'UoI_L1Logistic', dict(
        COMMON, n_C=CNT, estimation_score=(
            'one', ['acc', 'log', 'BIC', 'AIC', 'AICc']),
        multi_class=('one', ['auto', 'multinomial']), shared_support=FLAG)),
    'poisson': (LM + 'poisson', 'UoI_Poisson', dict(
        COMMON, n_lambdas=CNT, estimation_score=(
            'one', ['log', 'BIC', 'AIC', 'AICc']), alphas=ALPHAS,
        solver=('one', ['lbfgs', 'cd']), copy_X=FLAG)),
    'basepoisson': (LM + 'poisson', 'Poisson', dict(
        alpha=POS, l1_ratio=FRAC, fit_intercept=FLAG, standardize=FLAG,
        max_iter=CNT, tol=POS, warm_start=FLAG,
        solver=('one', ['lbfgs', 'cd']))),
    'baselogistic': (LM + 'logistic', 'MaskedCoefLogisticRegression', dict(
        penalty=('one', ['l1', 'l2']), tol=POS, C=POS, fit_intercept=FLAG,
        standardize=FLAG, class_weight=('one', [None, 'balanced', {0: 2.}]),
        max_iter=CNT, multi_class=('one', ['auto', 'multinomial']),
        verbose=('one', [0, 1]), warm_start=FLAG)),
    'pyclasso': (LM + 'lasso', 'PycLasso', dict(
        alphas=ALPHAS, fit_intercept=('one', [True]), max_iter=CNT,
        tol=POS)),
    'cur': (curlib.CUR, 'CUR', dict(
        max_k=CNT, algorithm=('one', ['randomized', 'arpack']), n_iter=CNT,
        tol=POS, random_state=('one', [None, 3, np.random.RandomState(1)]))),
    'uoicur': (curlib.CUR, 'UoI_CUR', dict(
        n_boots=CNT, max_k=CNT, boots_frac=FRAC, stability_selection=THR,
        algorithm=('one', ['randomized', 'arpack']), n_iter=CNT,
        tol=POS, random_state=('one', [None, 3, np.random.RandomState(1)]))),
    'nmfbase': (nmflib.NMF, 'UoI_NMF_Base', dict(
        n_boots=CNT, ranks=('one', [[1, 2], (2, 3), None]),
        nmf=('one', [Obj(), Obj('b')]), cluster=('one', [Obj(), Obj('c')]),
        nnreg=('one', [Obj(), Obj('d')]),
        cons_meth=('one', [np.median, np.mean]),
        use_dissimilarity=FLAG,
        random_state=('one', [None, 3, np.random.RandomState(1)]))),
    'nmf': (nmflib.NMF, 'UoI_NMF', dict(
        n_boots=num('int', 2, 6), ranks=('one', [[1, 2], (2, 3), None]),
        nmf_init=('one', ['random', 'nndsvd']),
        nmf_solver=('one', ['mu', 'cd']),
        nmf_beta_loss=('one', ['kullback-leibler', 'frobenius']),
        nmf_tol=POS, nmf_max_iter=CNT, db_eps=POS,
        db_min_samples=('one', [None, 3, 5]),
        db_metric=('one', ['euclidean', 'cosine']),
        db_metric_params=('one', [None, {'p': 3}]),
        db_algorithm=('one', ['auto', 'brute']), db_leaf_size=CNT,
        use_dissimilarity=FLAG, random_state=('one', [None, 3]),
        nnreg=('one', [Obj(), Obj('d')]),
        cons_meth=('one', [np.median, np.mean]))),
}
OWN = dict(EST['nmf'][2], nmf=('one', [Obj(), Obj('b')]),
           cluster=('one', [Obj(), Obj('c')]))
EST['nmfown'] = EST['nmf'][:2] + (OWN,)
# settings that follow others
DERIVED = {'nmf': {'nmf', 'cluster'}}
SOLVER_KEYS = {      # estimator: solver attribute: settings it takes
    'lasso': {'_selection_lm': ['fit_intercept', 'max_iter', 'tol',
                                'warm_start'],
              '_estimation_lm': ['fit_intercept']},
    'pyc': {'_selection_lm': ['fit_intercept', 'max_iter', 'tol'],
            '_estimation_lm': ['fit_intercept']},
    'en': {'_selection_lm': ['fit_intercept', 'max_iter', 'tol',
                             'warm_start'],
           '_estimation_lm': ['fit_intercept']},
    'logistic': {'_selection_lm': ['fit_intercept', 'max_iter', 'tol',
                                   'warm_start', 'multi_class'],
                 '_estimation_lm': ['fit_intercept', 'max_iter', 'tol',
                                    'multi_class']},
    'poisson': {'_selection_lm': ['fit_intercept', 'max_iter', 'tol',
                                  'warm_start', 'solver'],
                '_estimation_lm': ['fit_intercept', 'max_iter', 'tol',
                                   'solver']},
    'nmf': {'cluster': [('db_eps', 'eps'), ('db_metric', 'metric'),
                        ('db_metric_params', 'metric_params'),
                        ('db_algorithm', 'algorithm'),
                        ('db_leaf_size', 'leaf_size')],
            'nmf': [('nmf_init', 'init'), ('nmf_solver', 'solver'),
                    ('nmf_beta_loss', 'beta_loss'), ('nmf_tol', 'tol'),
                    ('nmf_max_iter', 'max_iter')]},
}


def value(w, name, spec):
    if spec[0] == 'num':
        _, kind, lo, hi = spec
        return (w.int if kind == 'int' else w.real)(name, lo, hi)
    vs = spec[1]
    return vs[w.choose(name, list(range(len(vs))))]


def same(a, b):
    """As a condition or a plain truth value."""
    if a is b:
        return True
    if fitlib.is_sym(a) or fitlib.is_sym(b):
        return a == b
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple, np.ndarray, range)) and \
            isinstance(b, (list, tuple, np.ndarray, range)):
        return len(a) == len(b) and all(bool(u == v) for u, v in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a == b
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    if isinstance(a, (int, float, np.number, bool, np.bool_)) and \
            isinstance(b, (int, float, np.number, bool, np.bool_)):
        return bool(a == b)
    return False


def params(est):
    if hasattr(est, 'get_params'):
        return est.get_params(deep=False)
    sig = inspect.signature(type(est).__init__)
    return {k: getattr(est, k) for k in sig.parameters if k != 'self'}


def solver_same(w, a, b, what):
    w.check(type(a) is type(b), what + ' is of the kind it would be')
    if isinstance(a, Obj) or not hasattr(a, 'get_params'):
        if isinstance(a, Obj):
            w.check(a is b, what + ' is the one given')
            return
        pa, pb = params(a), params(b)
    else:
        pa, pb = a.get_params(), b.get_params()
    for k in pb:
        if k in ('random_state', 'n_components'):
            continue
        w.check(k in pa and same(pa[k], pb[k]),
                what + ' has the settings it would have', k)


def expect(w, which, est, kw, cls):
    """est behaves as if constructed with kw."""
    got = params(est)
    for k in kw:
        w.check(k in got, 'every setting is read back', k)
        w.check(same(got[k], kw[k]), 'a setting is read back as given', k)
    for attr, keys in SOLVER_KEYS.get(which, {}).items():
        if not hasattr(est, attr):
            continue
        ps = params(getattr(est, attr))
        for k in keys:
            k, k2 = k if isinstance(k, tuple) else (k, k)
            if k in kw and k2 in ps:
                w.check(same(ps[k2], kw[k]), 'a setting reaches the solver',
                        k)
    return got


def main(w, which, fixed=None, changes=1):
    L = w.load()
    mod, name, spec = EST[which]
    cls = getattr(L.mod(mod), name)
    vary = fixed or []
    kw = {}
    for k, s in spec.items():
        if s[0] == 'num' or k in vary:
            kw[k] = value(w, k, s)
        else:
            # (the first choice or the second, moving together)
            kw[k] = s[1][0]
    if which.startswith('nmf'):
        kw['use_dissimilarity'] = True
    r = w.call(cls, **kw)
    w.check(r.ok, 'documented settings are accepted', repr(r.exc))
    est = r.value
    before = expect(w, which, est, kw, cls)
    for n in range(changes):
        ch = w.choose('change%d' % n, sorted(spec) if n == 0 or not fixed
                      else list(fixed))
        s = spec[ch]
        if s[0] == 'num':
            v = value(w, 'new-%d-%s' % (n, ch), s)
        else:
            v = s[1][min(1, len(s[1]) - 1)] if n == 0 else \
                value(w, 'new-%d-%s' % (n, ch), s)
        r = w.call(est.set_params, **{ch: v})
        w.check(r.ok, 'setting a documented value works', repr((ch, r.exc)))
        w.check(r.value is est, 'set_params returns the estimator')
        kw = dict(kw, **{ch: v})
        after = expect(w, which, est, kw, cls)
        skip = DERIVED.get(which, ())
        for k in before:
            if k == ch or k in skip or k in kw:
                continue
            w.check(k in after and same(before[k], after[k]),
                    'other settings stay', k)
        before = after
    r = w.call(cls, **kw)
    w.check(r.ok, 'the settings are accepted together', repr(r.exc))
    for attr in ('_selection_lm', '_estimation_lm', 'nmf', 'cluster'):
        if which == 'nmfbase' and attr == 'cluster':
            continue
        if hasattr(est, attr) and hasattr(r.value, attr):
            solver_same(w, getattr(est, attr), getattr(r.value, attr), attr)
    for attr in ('_estimation_target', 'estimation_score',
                 'selection_thresholds_'):
        if hasattr(r.value, attr):
            a, b = getattr(est, attr), getattr(r.value, attr)
            if hasattr(a, 'shape'):
                w.check(bool(np.shape(a) == np.shape(b)), attr + ' follows')
                for u, v in zip(_flat(a), _flat(b)):
                    w.check(same(u, v), attr + ' follows the settings')
            else:
                w.check(same(a, b), attr + ' follows the settings')


BAD = ['foo', '', 'R2', 'AIC ', 'Test', 'none', 'L1']


def refused(w, which, key, bad=None, how='init', const=False):
    """A wrong name is refused, at the latest by fit."""
    mod, name, spec = EST[which]
    v = w.choose('bad', bad or BAD)
    lin = which in fitlib.CLS or which == 'pyc'
    need = {k: s[1][0] if s[0] == 'one' else max(2, int(s[2]))
            for k, s in spec.items()
            if k in ('n_boots', 'max_k')}
    if 'boots_frac' in spec:
        need['boots_frac'] = .5
    if which.startswith('nmf'):
        need['ranks'] = [1]
    if which == 'pyc':
        need['solver'] = 'pyc'
    if which == 'pyclasso':
        need['alphas'] = np.array([.5])
    N = 6
    if lin:
        model = 'lasso' if which == 'pyc' else which
        ctx = fitlib.Ctx(w, F=2, D=1, N=N, model=fitlib.mod_of(model))
        L = fitlib.loader(w, ctx)
        need.update(n_boots_sel=2, n_boots_est=2)
    elif which.startswith('base'):
        L, o = solvers.load(w)
        o.answer = lambda c: np.zeros(c.n)
    else:
        L = w.load()
    cls = getattr(L.mod(mod), name)
    X = w.array(np.array([[i % 3 + 1., (i * i) % 5 + 1.] for i in range(N)]))
    y = w.array(np.ones(N)) if const else w.array(np.arange(N) % 2 + 0.)

    def go():
        if how == 'init':
            est = cls(**dict(need, **{key: v}))
        else:
            est = cls(**need).set_params(**{key: v})
        if name in ('CUR', 'UoI_CUR', 'UoI_NMF', 'UoI_NMF_Base'):
            est.fit(np.array([[i % 3 + 1., (i * i) % 5 + 1.]
                              for i in range(N)]))
        elif name == 'PycLasso':
            est.fit(X, y)
        else:
            est.fit(X, y)
    r = w.call(go)
    w.check(not r.ok, 'a wrong setting is refused', '%s=%r' % (key, v))
    w.check(not isinstance(r.exc, (UnboundLocalError, ZeroDivisionError)),
            'a wrong setting is refused by an error about it')


def unknown(w, which):
    """Unknown parameter names."""
    mod, name, spec = EST[which]
    L = w.load()
    cls = getattr(L.mod(mod), name)
    need = {k: (s[1][0] if s[0] == 'one' else 3 if s[1] == 'int' else .5)
            for k, s in spec.items()}
    own = sorted(set(vars(cls(**need))) - set(params(cls(**need))))
    bad = w.choose('name', ['foo', 'n_boots_', 'alpha_', 'Solver', 'coef_',
                            'rank'] + own)
    r = w.call(cls, **dict(need, **{bad: 1}))
    w.check(not r.ok, 'unknown names are refused at construction')
    est = cls(**need)
    old = params(est)
    r = w.call(est.set_params, **{bad: 1})
    w.check(not r.ok, 'unknown names are refused by set_params', bad)
    new = params(est)
    w.check(sorted(old) == sorted(new), 'a refused name adds nothing')


def numbers(w, key):
    """Numbers out of range of the logistic regression."""
    L, o = solvers.load(w)
    o.answer = lambda c: np.zeros(c.n)
    cls = getattr(L.mod(LM + 'logistic'), 'MaskedCoefLogisticRegression')
    v = w.real('v', -10 ** 6, 10 ** 6)
    X = w.array(np.array([[1., 2.], [2., 1.], [0., 1.]]))
    y = w.array(np.array([0, 1, 0]))
    r = w.call(lambda: cls(**{key: v}).fit(X, y))
    if not r.ok:
        w.check(v <= 0, 'numbers in range are accepted', repr(r.exc))
    else:
        w.check(v >= 0, 'negative numbers are refused')


def metric(w, model):
    """Unknown likelihoods."""
    f = w.load().mod('pyuoi.utils').log_likelihood_glm
    y = w.reals('y', 2, .5, 2)
    p = w.reals('p', 2, 3, 4)
    r = w.call(f, model, y, p)
    w.check(r.ok == (model in ('normal', 'poisson')),
            'only known models have a likelihood', model)


def tasks(tier):
    out = []

    def add(name, fn, **cfg):
        out.append(Task(name, fn, cfg))
    for which in EST:
        add('set-' + which, main, which=which)
        spec = EST[which][2]
        names = [k for k, s in spec.items() if s[0] == 'one' and
                 len(s[1]) > 1]
        for k in names:
            add('set-%s-%s' % (which, k), main, which=which, fixed=[k])
        if tier != 'quick':
            for k in sorted(spec):
                add('twice-%s-%s' % (which, k), main, which=which,
                    fixed=[k], changes=2)
        add('unknown-' + which, unknown, which=which)
    for how in ('init', 'set'):
        for m in ('lasso', 'en', 'logistic', 'poisson'):
            add('metric-%s-%s' % (m, how), refused, which=m, how=how,
                key='estimation_score',
                bad=BAD + ['log' if m in ('lasso', 'en') else 'r2'] +
                ['acc'] * (m != 'logistic'))
            add('target-%s-%s' % (m, how), refused, which=m, how=how,
                key='estimation_target', bad=BAD + ['Train', 'both'])
        for m in ('lasso', 'pyc', 'poisson', 'basepoisson'):
            for const in (False, True):
                add('solver-%s-%s-%d' % (m, how, const), refused, which=m,
                    how=how, key='solver', const=const,
                    bad=BAD + ['pyc' if 'poisson' in m else 'lbfgs'])
        for m in ('logistic', 'baselogistic'):
            add('multi-%s-%s' % (m, how), refused, which=m, how=how,
                key='multi_class', bad=BAD + ['ovr', 'crammer_singer'])
        add('penalty-' + how, refused, which='baselogistic', how=how,
            key='penalty', bad=BAD + ['elasticnet', 'l3'])
        for m in ('cur', 'uoicur'):
            add('algorithm-%s-%s' % (m, how), refused, which=m, how=how,
                key='algorithm')
        for k in ('nmf_init', 'nmf_solver', 'nmf_beta_loss', 'db_metric',
                  'db_algorithm'):
            add('%s-%s' % (k, how), refused, which='nmf', how=how, key=k,
                bad=BAD[:4])
        add('intercept-pyclasso-' + how, refused, which='pyclasso', how=how,
            key='fit_intercept', bad=[False])
        add('intercept-pyc-' + how, refused, which='pyc', how=how,
            key='fit_intercept', bad=[False])
        for k, bad in (('nmf', [int, Obj]), ('cluster', [Obj]),
                       ('nnreg', [3, 'foo']), ('ranks', [2.5, 'foo']),
                       ('random_state', ['foo', 1.5])):
            for m in ('nmf', 'nmfbase'):
                add('%s-%s-%s' % (k, m, how), refused, which=m, how=how,
                    key=k, bad=bad)
    for k in ('C', 'tol', 'max_iter'):
        add('number-' + k, numbers, key=k)
    for m in ('normal', 'poisson', 'logistic', 'foo', ''):
        add('likelihood-%s' % m, metric, model=m)
    return out

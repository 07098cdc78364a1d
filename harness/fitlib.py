"""Whole UoI fits with the numerical solvers replaced by memoised unknowns.

Rows and columns of the data are tagged by distinct concrete values, so a stub
can tell which rows, columns and responses reached it; what the solvers return
(coefficients, intercepts, scores) is symbolic."""
import logging

import numpy as np

from vx.core import Unsupported, is_sym
from vx.world import _flat

INF = float('inf')


class Fit:
    """One call of a stub solver."""

    def __init__(self, **k):
        self.__dict__.update(k)


def num(v, what):
    if is_sym(v):
        raise Unsupported('symbolic value where a tag was expected: ' + what)
    return float(v)


class LM:
    """Stub of a selection or estimation solver."""

    def __init__(self, ctx=None, kind=None, **params):
        self.ctx, self.kind = ctx, kind
        self.params = dict(params)

    def get_params(self, deep=True):
        return dict(ctx=self.ctx, kind=self.kind, **self.params)

    def set_params(self, **p):
        self.params.update(p)
        return self

    def __deepcopy__(self, memo):
        n = LM(self.ctx, self.kind, **self.params)
        for a in ('coef_', 'intercept_', 'fit_'):
            if a in self.__dict__:
                setattr(n, a, self.__dict__[a])
        return n

    def fit(self, X, y, sample_weight=None, coef_mask=None):
        c = self.ctx
        rows, cols = c.decode(X)
        ys = tuple(num(v, 'y') for v in _flat(y))
        if ys != tuple(c.yenc[r] for r in rows):
            raise c.fail('responses belong to the fitted rows')
        mask = None
        if coef_mask is not None:
            mask = tuple(bool(v) for v in _flat(coef_mask))
        start = {a: np.array(_flat(self.__dict__[a]), dtype=object)
                 for a in ('coef_', 'intercept_') if a in self.__dict__ and
                 self.__dict__[a] is not None}
        start_fit = self.__dict__.get('fit_')
        par = tuple(sorted((k, c.parval(v)) for k, v in self.params.items()
                           if k != 'alphas' or self.kind == 'pyc'))
        key = (self.kind, rows, cols, par, mask)
        f = c.fits.get(key)
        if f is None:
            f = Fit(key=key, id=len(c.fits), kind=self.kind, rows=rows,
                    cols=cols, par=dict(par), mask=mask)
            c.solve(f)
            c.fits[key] = f
        c.calls.append((f, start, start_fit, c.where()))
        self.fit_ = f
        self.coef_ = c.w.array(f.coef).copy() if c.w.sym else \
            np.array(f.coef, dtype=float)
        self.intercept_ = f.intercept.copy() if hasattr(
            f.intercept, 'copy') else f.intercept
        self.classes_ = np.arange(max(c.D, 2))
        return self

    def tags(self, X):
        c = self.ctx
        rows, cols = c.decode(X)
        f = self.fit_
        if cols != f.cols:
            raise c.fail('predictions use the columns that were fitted')
        return rows, [float(1000 * (f.id + 1) + r) for r in rows]

    def predict(self, X):
        return np.array(self.tags(X)[1])

    def predict_mean(self, X):
        return np.array(self.tags(X)[1])

    def predict_proba(self, X):
        t = np.array(self.tags(X)[1])
        return np.stack([t] * max(2, self.ctx.D), axis=1)

    def __getattr__(self, n):
        if n in ('coef_', 'intercept_', 'fit_', 'classes_', 'n_iter_') or \
                n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__.get('params', {}):
            return self.params[n]
        raise Unsupported('solver attribute ' + n)


class Rng:
    """A random state object nobody draws from (the splits are stubbed)."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random state attribute ' + n)


class Ctx:
    def __init__(self, w, N=6, F=2, D=1, y=None, model='linear'):
        self.w, self.N, self.F, self.D, self.model = w, N, F, D, model
        self.X = np.array([[(i + 1) + (j + 1) / 16. for j in range(F)]
                           for i in range(N)])
        if y is None:
            y = {'linear': [100. + 3 * i * i for i in range(N)],
                 'poisson': [1. + 2 * i for i in range(N)],
                 'logistic': [float(i % max(D, 2)) for i in range(N)]}[model]
        self.y = np.array(y)
        self.yenc = [float(v) for v in y]
        self.fits = {}
        self.calls = []
        self.splits = {}          # rank -> list of (train, test, kwargs)
        self.scores = {}
        self.score_calls = []
        self.solve = self._solve
        self.rank = lambda: 0
        self.inter = []
        self.pars = {}
        self.sel_values = 'zero'
        self.est_values = 'sym'
        self.sel_int = 'num'

    def where(self):
        return self.rank()

    def fail(self, label):
        from vx.world import Failed
        from vx.core import Violated
        w = self.w
        try:
            w.check(False, label)
        except (Failed, Violated) as f:
            return f
        return Unsupported('unconfirmed: ' + label)

    def parval(self, v):
        if is_sym(v):
            raise Unsupported('symbolic regularization parameter')
        if isinstance(v, np.ndarray):
            return tuple(parn(x) for x in _flat(v))
        if isinstance(v, (int, float, np.number)):
            return parn(v)
        return v

    def decode(self, X):
        sh = np.shape(X)
        if len(sh) != 2:
            raise Unsupported('solver given a %d-d design' % len(sh))
        rows, cols = [], None
        vals = [num(v, 'X') for v in _flat(X)]
        for i in range(sh[0]):
            v = vals[i * sh[1]:(i + 1) * sh[1]]
            r = [int(np.floor(x)) - 1 for x in v]
            c = tuple(int(round((x - np.floor(x)) * 16)) - 1 for x in v)
            if len(set(r)) != 1 or (cols is not None and c != cols):
                raise self.fail('designs are row and column subsets')
            cols = c
            rows.append(r[0])
        return tuple(rows), cols

    def _solve(self, f):
        w, D = self.w, self.D
        n = len(f.cols)
        nm = '%s%d' % (f.kind, f.id)
        sel = f.kind != 'est'
        mode = self.sel_values if sel else self.est_values
        shape = (n,) if self.model != 'logistic' else (D, n)
        if f.kind == 'pyc':
            shape = (len(f.par['alphas']), n)
        if mode == 'sym':
            co = w.reals(nm, shape)
            if f.mask is not None:
                co = co.copy()
                fm = np.reshape(np.array(f.mask), shape)
                for ix in np.ndindex(*shape):
                    if not fm[ix]:
                        co[ix] = 0.
        elif mode == 'zero':
            co = np.zeros(shape)
        else:
            co = mode(f, shape)
        f.coef = np.array([v for v in _flat(co)], dtype=object).reshape(
            shape) if w.sym else np.array(co, dtype=float)
        if self.model == 'poisson':
            f.intercept = 0.5
        elif self.model == 'logistic':
            f.intercept = np.full(D, 0.5)
        else:
            f.intercept = 0.5
        if sel and self.sel_int == 'inf':
            k = w.choose(nm + 'i', ['num', 'inf', '-inf'])
            v = {'inf': INF, '-inf': -INF, 'num': 0.5}[k]
            f.intercept = np.full(D, v) if self.model == 'logistic' else v

    # -- splits ------------------------------------------------------------
    def part(self, rank, k):
        """Partition number k of a rank: (train, test)."""
        N = self.N
        m = 2
        tests = [(a, b) for a in range(N) for b in range(a + 1, N)]
        # spread so that consecutive splits differ in both rows
        t = tests[(k * 7 + rank * 5) % len(tests)]
        tr = [i for i in range(N) if i not in t]
        s = k % len(tr)
        return np.array(tr[s:] + tr[:s]), np.array(t[:m])

    def tts(self, *arrays, test_size=None, train_size=None,
            random_state=None, shuffle=True, stratify=None):
        r = self.rank()
        L = self.splits.setdefault(r, [])
        tr, te = self.part(r, len(L))
        L.append(Fit(train=tr, test=te, test_size=test_size,
                     train_size=train_size, random_state=random_state,
                     shuffle=shuffle, stratify=stratify))
        out = []
        for a in arrays:
            if np.shape(a)[0] != self.N:
                raise self.fail('every sample takes part in the split')
            out.extend([a[tr], a[te]])
        return out

    # -- scores ------------------------------------------------------------
    def score(self, kind, y_true, y_pred, **k):
        yt = tuple(num(v, 'score y') for v in _flat(y_true))
        yp = tuple(num(v, 'score prediction') for v in _flat(y_pred))
        key = (kind, yt, yp)
        s = self.scores.get(key)
        if s is None:
            s = self.w.real('score%d' % len(self.scores))
            self.scores[key] = s
        self.score_calls.append((key, k))
        return s


def parn(v):
    return round(float(v), 12)


def patch(L, mod, name, stub):
    """Replace a pyuoi function under every name it is bound to."""
    m = L.mod(mod)
    real = getattr(m, name)
    for x in list(L.mods.values()):
        for k, v in list(vars(x).items()):
            if v is real:
                setattr(x, k, stub)


def loader(w, ctx, mpi=None, extra=()):
    import sklearn.metrics as sm
    import sklearn.model_selection as ms
    ov = [(ms.train_test_split, ctx.tts),
          (sm.r2_score, lambda y_true, y_pred, **k:
           ctx.score('r2', y_true, y_pred)),
          (sm.accuracy_score, lambda y_true, y_pred, **k:
           ctx.score('acc', y_true, y_pred)),
          (sm.log_loss, lambda y_true, y_pred, **k:
           -ctx.score('ll', y_true, y_pred))]
    stubs = {}
    if mpi is not None:
        stubs = mpi.stubs()
    L = w.load(overrides=ov + list(extra), stubs=stubs)
    L.mod('pyuoi.linear_model')
    patch(L, 'pyuoi.utils', 'log_likelihood_glm',
          lambda model, y_true, y_pred: ctx.score('ll', y_true, y_pred))
    patch(L, 'pyuoi.linear_model.logistic', 'fit_intercept_fixed_coef',
          lambda X, coef_, y, output_dim: np.zeros(output_dim))
    return L


CLS = {'lasso': 'UoI_Lasso', 'en': 'UoI_ElasticNet',
       'logistic': 'UoI_L1Logistic', 'poisson': 'UoI_Poisson'}


def build(w, L, ctx, model, **kw):
    args = dict(n_boots_sel=2, n_boots_est=2, standardize=False,
                random_state=kw.pop('rng') if 'rng' in kw else Rng())
    pyc = kw.get('solver') == 'pyc'
    if pyc:
        kw.pop('solver')
    regs = kw.pop('regs', 2)
    if model == 'logistic':
        args['n_C'] = regs
        if ctx.D == 2:
            args['multi_class'] = 'multinomial'
    else:
        args['n_lambdas'] = regs
    args.update(kw)
    est = getattr(L.mod('pyuoi.linear_model'), CLS[model])(**args)
    for a in ('_selection_lm', '_estimation_lm'):
        if not hasattr(est, a):
            raise Unsupported('estimator has no ' + a)
    sel = LM(ctx, 'pyc' if pyc else 'sel')
    if pyc:
        est.solver = 'pyc'
    est._selection_lm = sel
    est._estimation_lm = LM(ctx, 'est')
    return est


def watch_intersect(est, ctx, supports=None):
    """Record what reaches the intersection; optionally replace its result."""
    real = est.intersect

    def inter(coef, thresholds):
        ctx.inter.append((coef, thresholds))
        if supports is not None:
            return supports.copy()
        return real(coef, thresholds)
    est.intersect = inter


def mod_of(model):
    return 'linear' if model in ('lasso', 'en') else model

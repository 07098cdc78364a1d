"""C10: undoing standardization preserves the fitted linear predictor."""
import numpy as np

from vx.core import Unsupported, is_sym
from vx.run import Task

from . import fitlib

ID = 'C10'
BOUNDS = ('every real feature and response mean, every positive scale, every '
          'internally fitted coefficient vector and intercept and every raw '
          'feature row; 1-3 features, 1-3 outputs, 1-2 estimation bootstraps; '
          'whole estimators (lasso, elastic net, logistic, Poisson) and the '
          'standardizing base solvers')
OUTSIDE = ('how sklearn computes means and scales (arbitrary values are '
           'assumed); sparse designs')


class Scaling:
    """StandardScaler with arbitrary statistics: the standardized data are
    given (tagged), the raw data are defined from them."""

    def __init__(self, w, X, y, with_mean):
        self.w = w
        self.tab = []
        for nm, Z in (('x', X), ('y', y)):
            if Z is None:
                continue
            k = Z.shape[1]
            m = w.reals(nm + 'mean', k, -50, 50)
            s = w.reals(nm + 'scale', k, .05, 50)
            raw = Z * s + (m if with_mean else 0.)
            self.tab.append((nm, raw, Z, m, s))
        self.with_mean = with_mean
        self.fits = []
        top = self

        class Scaler:
            def __init__(self, *, copy=True, with_mean=True, with_std=True):
                self.copy, self.with_mean, self.with_std = \
                    copy, with_mean, with_std

            def fit_transform(self, Z, y=None, **k):
                return self.fit(Z).transform(Z)

            def fit(self, Z, y=None, **k):
                top.w.check(self.with_std, 'scaling is on')
                top.w.check(bool(self.with_mean) == bool(top.with_mean),
                            'data are centred exactly with an intercept')
                t = top.find(Z)
                top.fits.append(t[0])
                # (sklearn keeps the mean even when it does not subtract it)
                self.mean_, self.scale_ = t[3].copy(), t[4].copy()
                self.n_features_in_ = t[2].shape[1]
                self.t = t
                return self

            def transform(self, Z, copy=None):
                t = top.find(Z)
                if t is not self.t:
                    raise Unsupported('another matrix is transformed')
                return t[2].copy()

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                raise Unsupported('scaler attribute ' + n)
        self.cls = Scaler

    def find(self, Z):
        for t in self.tab:
            if np.shape(Z) == np.shape(t[1]) and all(
                    self.same(a, b) for a, b in zip(fitlib._flat(Z),
                                                    fitlib._flat(t[1]))):
                return t
        raise Unsupported('unknown matrix is standardized')

    @staticmethod
    def same(a, b):
        if is_sym(a) and is_sym(b):
            return a.e.eq(b.e)
        if is_sym(a) or is_sym(b):
            return False
        return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))

    def raw(self, nm):
        return [t for t in self.tab if t[0] == nm][0][1]

    def stats(self, nm):
        t = [t for t in self.tab if t[0] == nm][0]
        return t[3], t[4]


def predictor(coef, icpt, row):
    """One value per output."""
    F = len(row)
    co = fitlib._flat(coef)
    ic = fitlib._flat(icpt)
    D = len(co) // F
    out = []
    for d in range(D):
        v = ic[d] if len(ic) > 1 else ic[0]
        for j in range(F):
            v = v + co[d * F + j] * row[j]
        out.append(v)
    return out


def relate(w, sc, F, icpt, coef, b, c_int, b_int, linear, label):
    """Raw predictor of (coef, b) == standardized predictor of (c_int,b_int)."""
    z = w.reals('row', F, -20, 20)
    m, s = sc.stats('x')
    x = [z[j] * s[j] + (m[j] if icpt else 0.) for j in range(F)]
    got = predictor(coef, b, x)
    want = predictor(c_int, b_int, list(z))
    if linear:
        my, sy = sc.stats('y')
        want = [v * sy[0] + (my[0] if icpt else 0.) for v in want]
    w.check(len(got) == len(want), label + ': number of outputs')
    for p, q in zip(got, want):
        w.eq(p, q, label)
    if not icpt:
        for v in fitlib._flat(b):
            w.check(v == 0, 'no intercept')


def whole(w, model, F=2, D=1, icpt=True, Be=1, sups=((1, 1), (1, 0)),
          shared=True):
    ctx = fitlib.Ctx(w, N=6, F=F, D=D, model=fitlib.mod_of(model))
    linear = ctx.model == 'linear'
    ycol = ctx.y[:, None] if linear else None
    sc = Scaling(w, ctx.X, ycol, icpt)
    import sklearn.preprocessing as sp
    L = fitlib.loader(w, ctx, extra=[(sp.StandardScaler, sc.cls)])
    kw = dict(fit_intercept=icpt, standardize=True, n_boots_sel=1,
              n_boots_est=Be, regs=1)
    if model == 'logistic':
        kw['shared_support'] = shared
    est = fitlib.build(w, L, ctx, model, **kw)
    # the solvers work on standardized data already
    got = {}
    if model == 'logistic':
        b = w.reals('b', max(1, D), -20, 20)
        fitlib.patch(L, 'pyuoi.linear_model.logistic',
                     'fit_intercept_fixed_coef',
                     lambda X, coef_, y, output_dim: b.copy())
        got['b'] = b.copy() if icpt else [0.] * max(1, D)
    elif model == 'poisson' and icpt:
        b = w.reals('b', 1, -20, 20)
        if not hasattr(est, '_fit_intercept'):
            raise Unsupported('no _fit_intercept')

        def fi(X, y):
            est.intercept_ = b.copy()
        est._fit_intercept = fi
        got['b'] = b.copy()
    S = np.array(sups, dtype=bool)
    fitlib.watch_intersect(est, ctx, S)
    yraw = sc.raw('y')[:, 0] if linear else ctx.y.copy()
    est.fit(sc.raw('x'), yraw)
    w.check('x' in sc.fits, 'features are standardized')
    w.check(not linear or 'y' in sc.fits, 'the response is standardized')
    # the internal model
    E = est.estimates_
    best = [list(fitlib._flat(E[b_, int(est.rp_max_idx_[b_])]))
            for b_ in range(Be)]
    n = len(best[0])
    c = [best[0][k] if Be == 1 else (best[0][k] + best[1][k]) / 2
         for k in range(n)]
    if linear:
        if icpt:
            v = 0.
            for i in range(6):
                v = v + ctx.y[i]
                for j in range(F):
                    v = v - ctx.X[i, j] * c[j]
            got['b'] = [v / 6]
        else:
            got['b'] = [0.]
    elif model == 'poisson' and not icpt:
        got['b'] = [0.]
    w.check(np.size(est.coef_) == n, 'one coefficient per feature')
    relate(w, sc, F, icpt, est.coef_, est.intercept_, c, got['b'], linear,
           'same linear predictor')


def solver(w, which, F=2, icpt=True, D=1):
    """Base solvers with their own standardization."""
    import scipy.optimize as so
    import sklearn.preprocessing as sp
    N = 6
    Z = np.array([[(i + 1) + (j + 1) / 16. for j in range(F)]
                  for i in range(N)])
    sc = Scaling(w, Z, None, icpt)
    pt = {}

    def point(n):
        pt['x'] = w.reals('x', n, -20, 20)
        return pt['x'].copy()

    def lb(f, x0, **k):
        seen(k.get('args', ()))
        return point(np.size(x0))

    def sl(f, x0, fprime=None, args=(), **k):
        seen(args)
        return point(np.size(x0)), 0., dict(warnflag=0, nit=1)

    def seen(args):
        if len(args):
            X = args[0]
            w.check(np.shape(X) == Z.shape, 'the solver sees the features')
            w.eq(w.array(fitlib._flat(X)), w.array(fitlib._flat(Z)),
                 'the solver sees standardized features')
    L = w.load(overrides=[(sp.StandardScaler, sc.cls),
                          (so.fmin_l_bfgs_b, sl)])
    L.mod('pyuoi.linear_model')
    fitlib.patch(L, 'pyuoi.lbfgs', 'fmin_lbfgs', lb)
    if which.startswith('poisson'):
        y = np.array([0., 1, 2, 5, 3, 1])
        est = L.mod('pyuoi.linear_model.poisson').Poisson(
            alpha=.3, standardize=True, fit_intercept=icpt,
            solver=which.split('-')[1])
        if which.endswith('cd'):
            if not hasattr(est, '_cd'):
                raise Unsupported('no _cd')

            def cd(X, y, sample_weight=None):
                seen((X,))
                p = point(F + 1)
                return p[:F].copy(), (p[F] if icpt else 0.)
            est._cd = cd
    else:
        y = np.array([0., 1, D - 1, 0, D - 1, 1]) if D > 1 else \
            np.array([0., 1, 1, 0, 0, 1])
        est = L.mod('pyuoi.linear_model.logistic'
                    ).MaskedCoefLogisticRegression(
            penalty=which.split('-')[1], standardize=True,
            fit_intercept=icpt,
            multi_class='multinomial' if D == 2 else 'auto')
    est.fit(sc.raw('x'), y)
    x = list(pt['x'])
    if D == 1:
        c, b = x[:F], (x[F:F + 1] if icpt else [0.])
        if which == 'poisson-cd' and not icpt:
            b = [0.]
    elif which.endswith('l2'):     # class-major
        m = F + int(icpt)
        c = [x[d * m + j] for d in range(D) for j in range(F)]
        b = [x[d * m + F] if icpt else 0. for d in range(D)]
    else:                          # feature-major
        c = [x[j * D + d] for d in range(D) for j in range(F)]
        b = [x[F * D + d] if icpt else 0. for d in range(D)]
    relate(w, sc, F, icpt, est.coef_, est.intercept_, c, b, False,
           'same linear predictor')


def tasks(tier):
    out = []

    def add(model, **c):
        nm = '-'.join([model] + ['%s%s' % kv for kv in c.items()])
        out.append(Task(nm.replace(' ', ''), whole, dict(model=model, **c)))
    for icpt in (True, False):
        for model in ('lasso', 'en', 'poisson', 'logistic'):
            add(model, F=1, icpt=icpt, sups=((1,),))
            add(model, F=2, icpt=icpt)
            add(model, F=2, icpt=icpt, sups=((1, 1),), Be=2)
            if tier != 'quick' or model == 'lasso':
                add(model, F=3, icpt=icpt, sups=((1, 1, 1), (0, 1, 0)))
        for D in (2, 3):
            add('logistic', F=2, D=D, icpt=icpt, sups=((1, 1),))
            add('logistic', F=2, D=D, icpt=icpt, shared=False,
                sups=((1, 0, 1, 1) + (0, 1) * (D - 2),))
        for s in ('poisson-lbfgs', 'poisson-cd', 'logistic-l1',
                  'logistic-l2'):
            for F in (1, 2, 3):
                out.append(Task('%s-F%d%s' % (s, F, '-noint' * (not icpt)),
                                solver, dict(which=s, F=F, icpt=icpt)))
            if s.startswith('log'):
                for D in (2, 3):
                    out.append(Task('%s-D%d%s' % (
                        s, D, '-noint' * (not icpt)), solver,
                        dict(which=s, F=2, D=D, icpt=icpt)))
    return out

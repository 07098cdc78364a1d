"""C13: the caller's arrays are never modified."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.mpisim import Sim
from vx.run import Task
from vx.world import _flat

from . import c24, curlib, fitlib, nmflib, solvers

ID = 'C13'
BOUNDS = ('designs, responses, weights, starting points, masks and '
          'thresholds of the listed entry points (whole fits of every UoI '
          'model, the base solvers, losses and gradients, decompositions, '
          'column selection, metrics, collectives); 2-6 rows, '
          '1-3 columns; float, integer and boolean arrays; two calls in a '
          'row, with the results of the first kept; in quick runs whole fits '
          'have one to four free entries and the others fixed')
OUTSIDE = ('writes made inside scikit-learn, numpy, pycasso and the native '
           'solver; larger shapes')


class Keep:
    """Arrays that have to stay as they are."""

    def __init__(self, w):
        self.w = w
        self.items = []

    def __call__(self, a, what='the input'):
        self.items.append((a, a.copy(), what))
        return a

    def out(self, a, what='an earlier result'):
        if a is not None and hasattr(a, 'shape') and np.ndim(a):
            self(a, what)
        return a

    def done(self):
        w = self.w
        for a, b, what in self.items:
            w.check(np.shape(a) == np.shape(b), what + ' keeps its shape')
            w.check(np.asarray(a).dtype == np.asarray(b).dtype
                    if not w.sym else True, what + ' keeps its type')
            for u, v in zip(_flat(a), _flat(b)):
                if fitlib.is_sym(u) or fitlib.is_sym(v):
                    w.check(w.same(u, v) or u == v, what + ' is not modified')
                else:
                    w.check(u == v or u != u and v != v,
                            what + ' is not modified')


class Blind:
    """A solver that answers without looking at the data."""

    def __init__(self, w, D=1, kind='sel', **params):
        self.__dict__.update(w=w, D=D, kind=kind, params=dict(params))

    def get_params(self, deep=True):
        return dict(D=self.D, kind=self.kind, **self.params)

    def set_params(self, **p):
        self.params.update(p)
        return self

    def fit(self, X, y, sample_weight=None, coef_mask=None):
        if self.params.get('copy_X', True) is False:
            X[...] = 0.             # it may be used as scratch
        F = np.shape(X)[1]
        shape = (F,)
        if self.kind == 'pyc':
            shape = (len(self.params['alphas']), F)
        elif self.D > 1 or self.params.get('rows'):
            shape = (self.D, F)
        self.coef_ = self.w.array(
            1. + np.arange(float(np.prod(shape))).reshape(shape))
        self.intercept_ = self.w.array([.5] * shape[0]) \
            if len(shape) > 1 else .5
        self.classes_ = np.arange(max(self.D, 2))
        return self

    def predict(self, X):
        return self.w.array(np.arange(np.shape(X)[0]) + 1.)

    predict_mean = predict

    def predict_proba(self, X):
        K = max(2, self.D)
        return self.w.array(np.ones((np.shape(X)[0], K)) / K)

    def __getattr__(self, n):
        if n in ('coef_', 'intercept_', 'classes_', 'n_iter_') or \
                n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__.get('params', {}):
            return self.params[n]
        raise Unsupported('solver attribute ' + n)


def array(w, name, shape, kind, lo=-5, hi=5):
    if kind == 'int':
        return w.ints(name, shape, lo, hi)
    return w.reals(name, shape, lo, hi)


def some(w, name, base, where, kind='real', lo=-5, hi=5):
    """An array with a few free entries."""
    base = np.array(base, float)
    ent = [None if tuple(ix) in where else
           (int(v) if kind == 'int' else float(v))
           for ix, v in np.ndenumerate(base)]
    ent = [(w.int if kind == 'int' else w.real)(
        '%s%d' % (name, i), lo, hi) if v is None else v
        for i, v in enumerate(ent)]
    a = np.empty(base.shape, object)
    a.ravel()[:] = ent
    a = w.array(a.tolist())
    return a


def uoi(w, model, std, icpt, kind='real', strat=False, size=None, D=1, N=6,
        F=2, metric=None, solver=None, twice=False, free=False):
    import sklearn.metrics as sm
    sim = Sim(size) if size else None
    ctx = fitlib.Ctx(w, F=F, D=D, N=N, model=fitlib.mod_of(model))
    if sim:
        ctx.rank = sim.rank
    L = fitlib.loader(w, ctx, sim, extra=[
        (sm.r2_score, lambda y_true, y_pred, **k: .5),
        (sm.accuracy_score, lambda y_true, y_pred, **k: .5),
        (sm.log_loss, lambda y_true, y_pred, **k: .5)])
    fitlib.patch(L, 'pyuoi.utils', 'log_likelihood_glm',
                 lambda model, y_true, y_pred: .5)
    fitlib.patch(L, 'pyuoi.linear_model.logistic', 'fit_intercept_fixed_coef',
                 lambda X, coef_, y, output_dim: w.array([.5] * output_dim))
    keep = Keep(w)
    w.linear()
    if free:
        X = keep(array(w, 'X', (N, F), kind), 'the design')
        for i in range(N if std else 0):    # (columns are not constant)
            for j in range(F):
                if i:
                    w.assume(X[i, j] > X[i - 1, j])
    else:
        X = keep(some(w, 'X', [[i + 2. * (j + 1) * (i % (j + 2)) - 2. * j
                                for j in range(F)] for i in range(N)],
                      [] if std and kind == 'int' else
                      [(1, 0)] if std else [(1, 0), (2, 1)], kind),
                 'the design')
    if model == 'logistic':
        y = keep(w.array([float(i % max(D, 2)) for i in range(N)]
                         if kind == 'real' else
                         [i % max(D, 2) for i in range(N)]), 'the response')
    else:
        y = keep(array(w, 'y', N, kind, 0, 5) if free else
                 some(w, 'y', 1. + np.arange(N) * 3 % 5, [(0,), (3,)][:2 - std],
                      kind, 0), 'the response')
        w.assume(y[0] > 0)
    st = {}
    if strat:
        st['stratify'] = keep(w.array([1, 2, 1, 2, 1, 2]),
                              'the stratification')
    kw = dict(standardize=std, fit_intercept=icpt, n_boots_sel=2,
              n_boots_est=2, regs=2)
    if metric:
        kw['estimation_score'] = metric
    if solver == 'pyc':
        kw['solver'] = 'pyc'
    th = keep(w.array([1, 2]), 'the thresholds')
    kw['stability_selection'] = th
    if model in ('en', 'poisson'):
        kw['alphas'] = keep(w.array([.25, .75]), 'the mixing ratios')

    def go(comm):
        k2 = dict(kw)
        if comm is not None:
            k2['comm'] = comm
        est = fitlib.build(w, L, ctx, model, **k2)
        est._selection_lm = Blind(w, D, 'pyc' if solver == 'pyc' else 'sel',
                                  rows=model == 'logistic')
        est._estimation_lm = Blind(w, D, 'est', rows=model == 'logistic')
        if model == 'poisson':
            est._fit_intercept = lambda X, y: setattr(
                est, 'intercept_', w.array([.5]))
        est.fit(X, y, **st)
        return est
    if size:
        sim.run(lambda r, c: go(c))
        keep.done()
        return
    est = go(None)
    keep.done()
    res = Keep(w)
    if twice:
        for a in ('coef_', 'intercept_', 'supports_', 'estimates_',
                  'scores_'):
            res.out(getattr(est, a, None), 'an earlier ' + a)
        Z = w.array([[i * 1. + j * (i - 2.) for j in range(F)]
                     for i in range(N)])
        est.fit(Z, w.array([(5. - i) if model != 'logistic' else
                            float((i + 1) % max(D, 2)) for i in range(N)]))
        res.done()
    P = keep(w.reals('P', (2, F), -3, 3), 'the design to predict')
    res.items = []
    for a in ('coef_', 'intercept_'):
        res.out(getattr(est, a), 'the fitted ' + a)
    if model in ('lasso', 'en', 'poisson'):
        r1 = res.out(est.predict(P), 'an earlier prediction')
    else:
        r1 = res.out(est.decision_function(P), 'an earlier prediction')
    r2 = (est.predict if model != 'logistic' else est.decision_function)(
        w.reals('Q', (2, F), -3, 3))
    keep.done()
    res.done()


def data(w, N, F, kind, K=None, lo=-2, hi=2):
    X = array(w, 'X', (N, F), kind, lo, hi)
    if K is None:
        y = array(w, 'y', N, kind, 0, 5)
    else:
        y = w.array(np.arange(N) % max(K, 2))
    return X, y


def base(w, which, masked=None, wt=False, warm=False, kind='real', K=1,
         solver='lbfgs', N=3, F=2, icpt=True, std=False, multi=None,
         free=False):
    """Base solvers, twice."""
    L, o = solvers.load(w)
    w.linear()
    q = w.reals('q', 12, -2, 2) if free else \
        some(w, 'q', np.arange(12) % 5 - 1.5, [(0,), (2,)])
    o.answer = lambda c: q[:c.n].copy() if len(o.calls) < 2 else \
        q[:c.n] * 2. + 1.
    keep = Keep(w)
    if free:
        X, y = data(w, N, F, kind, None if which == 'poisson' else K)
    else:
        X = some(w, 'X', [[1. + i * (j + 1) % 3 for j in range(F)]
                          for i in range(N)],
                 [] if solver == 'cd' or std and kind == 'int' else
                 [(1, 0)] if std else [(0, 1), (1, 0)], kind)
        y = some(w, 'y', 1. + np.arange(N),
                 [] if solver == 'cd' else [(1,)], kind, 0, 5) \
            if which == 'poisson' else w.array(np.arange(N) % max(K, 2))
    keep(X, 'the design')
    keep(y, 'the response')
    a = {}
    if wt:
        a['sample_weight'] = keep(w.reals('sw', N, .25, 2), 'the weights')
    if which == 'poisson':
        mod = L.mod('pyuoi.linear_model.poisson')
        est = mod.Poisson(alpha=.5, l1_ratio=.5, fit_intercept=icpt,
                          solver=solver, max_iter=1, standardize=std,
                          warm_start=warm)
        if solver == 'cd':
            # (the linearization is decided by C19)
            ws = w.reals('w', N, .25, 2) if free else w.array(
                [.5, 1., .25][:N])
            zs = w.reals('z', N, -2, 2) if free else some(
                w, 'z', [.5, -1., 2.][:N], [(0,)])
            if not hasattr(mod.Poisson, 'adjusted_response'):
                raise Unsupported('no adjusted_response')
            est.adjusted_response = lambda *b, **k: (ws.copy(), zs.copy())
    else:
        kw = {}
        if multi:
            kw['multi_class'] = multi
        est = L.mod('pyuoi.linear_model.logistic') \
            .MaskedCoefLogisticRegression(
                penalty=which, C=2., fit_intercept=icpt, warm_start=warm,
                standardize=std, **kw)
        if masked is not None:
            m = np.array([(i * 2) % 3 != 1 for i in range(K * F)])
            m = m.astype(float) if masked == 'float' else m
            a['coef_mask'] = keep(w.array(m if K > 1 else m.reshape(F)),
                                  'the mask')
    est.fit(X, y, **a)
    keep.done()
    res = Keep(w)
    for n in ('coef_', 'intercept_'):
        res.out(getattr(est, n), 'an earlier ' + n)
    Z = w.array(np.arange(float(N * F)).reshape(N, F) % 3)
    est.fit(Z, y, **a)
    keep.done()
    res.done()
    # evaluating the objective leaves the point alone
    if o.calls:
        c = o.calls[-1]
        p = w.reals('p', c.n, -2, 2)
        k2 = Keep(w)
        k2(p, 'the point')
        v = c.value(p)
        k2.out(v[1], 'an earlier gradient')
        c.value(w.reals('p2', c.n, -2, 2))
        k2.done()
        keep.done()
    P = Keep(w)
    Q = P(w.reals('P', (2, F), -2, 2), 'the design to predict')
    for n in ('coef_', 'intercept_'):
        P.out(getattr(est, n), 'the fitted ' + n)
    if which == 'poisson':
        P.out(est.predict_mean(Q), 'an earlier prediction')
        est.predict(Q)
        est.predict_mean(Z)
    else:
        P.out(est.decision_function(Q), 'an earlier prediction')
        est.decision_function(Z)
    P.done()


def losses(w, which, masked=None, wt=False, N=2, F=2, K=2, icpt=True):
    L = w.load()
    keep = Keep(w)
    X = keep(w.reals('X', (N, F), -2, 2), 'the design')
    sw = keep(w.reals('sw', N, .25, 2), 'the weights') if wt else None
    if which == 'poisson':
        f = L.mod('pyuoi.linear_model.poisson')._poisson_loss_and_grad
        y = keep(w.reals('y', N, 0, 5), 'the response')
        n = F + int(icpt)
        args = (X, y, .5, sw)
        sizes = n
    else:
        lg = L.mod('pyuoi.linear_model.logistic')
        kk = 1 if which == 'binary' else K
        mask = None
        if masked:
            m = np.arange(kk * F) % 2 == 0
            mask = keep(w.array(m.astype(bool if masked == 'bool' else
                                         float)), 'the mask')
            if which == 'multi':
                mask = keep(w.array(m.reshape(K, F).astype(
                    bool if masked == 'bool' else float)), 'the mask')
        sizes = kk * (F + int(icpt))
        if which == 'binary':
            f = lg._logistic_loss_and_grad
            y = keep(w.array([1., -1.][:N]), 'the response')
            args = (X, y, .5, mask, sw)
        else:
            f = lg._multinomial_loss_grad
            y = keep(w.array(np.eye(K)[:N]), 'the response')
            sw = keep(w.reals('sw1', N, .25, 2), 'the weights')
            args = (X, y, .5, mask, sw)
    x = keep(w.reals('x', sizes, -2, 2), 'the point')
    r = f(x, *args)
    g = Keep(w)
    g.out(r[1], 'an earlier gradient')
    f(w.reals('x2', sizes, -2, 2), *args)
    keep.done()
    g.done()


def intercepts(w, which, F=2, N=3, K=1):
    """Intercept refits, gradients of which are not ours."""
    import scipy.optimize as so
    import sklearn.metrics as sm
    k2 = Keep(w)
    pts = []

    class Opt:
        pass

    def minimize(fun, x0, **k):
        for i in range(2):
            p = k2(w.reals('p%d-%d' % (len(pts), i), np.size(x0), -2, 2),
                   'the point')
            pts.append(p)
            k2.out(fun(p)[1], 'an earlier gradient')
        o = Opt()
        o.x = w.reals('q%d' % len(pts), np.size(x0), -2, 2)
        return o
    L = w.load(overrides=[(so.minimize, minimize), (
        sm.log_loss, lambda y_true, y_pred, **k: .5)])
    keep = Keep(w)
    X = keep(w.reals('X', (N, F), -2, 2), 'the design')
    co = keep(w.reals('c', (K, F), -2, 2), 'the coefficients')
    lg = L.mod('pyuoi.linear_model.logistic')
    y = keep(w.array(np.arange(N) % max(K, 2)), 'the response')
    if not hasattr(lg, 'fit_intercept_fixed_coef'):
        raise Unsupported('no fit_intercept_fixed_coef')
    lg.fit_intercept_fixed_coef(X, co, y, K)
    if not pts:
        raise Unsupported('intercept is not found by minimize')
    keep.done()
    k2.done()


def cd(w, what, N=3, F=2):
    mod = w.load().mod('pyuoi.linear_model.poisson')
    P = mod.Poisson
    keep = Keep(w)
    X = keep(w.reals('X', (N, F), -2, 2), 'the design')
    y = keep(w.reals('y', N, 0, 5), 'the response')
    co = keep(w.reals('c', F, -2, 2), 'the coefficients')
    if what == 'adjusted':
        r = P.adjusted_response(X, y, co, .5)
        keep.out(r[0])
        keep.out(r[1])
        P.adjusted_response(X, y, w.array(np.ones(F)), 0.)
    elif what == 'threshold':
        r = P.soft_threshold(co, .5)
        keep.out(r)
        P.soft_threshold(w.array(np.ones(F)), .5)
    keep.done()


def thresholds(w, kind):
    keep = Keep(w)
    f = w.load().mod(
        'pyuoi.linear_model.utils').stability_selection_to_threshold
    if kind == 'float':
        s = keep(w.reals('s', 2, .25, 1), 'the settings')
    else:
        s = keep(w.ints('s', 2, 1, 5), 'the settings')
    r = f(s, 8)
    keep.done()
    k2 = Keep(w)
    k2.out(r)
    f(w.array([.5, .75]), 8)
    k2.done()
    # handed out arrays are not the settings themselves
    if hasattr(r, 'dtype') and np.ndim(r):
        r[...] = 1
        keep.done()


def inter(w, F=2, R=2, B=2):
    keep = Keep(w)
    f = w.load().mod('pyuoi.linear_model.utils').intersection
    c = keep(w.reals('c', (B, R, F), -1, 1), 'the coefficients')
    t = keep(w.array(np.array([1, 2])), 'the thresholds')
    r = keep.out(f(c, t))
    f(w.array(np.ones((B, R, F))), t)
    keep.done()


def utils(w, what):
    m = w.load().mod('pyuoi.utils')
    keep = Keep(w)
    if what in ('softmax', 'sigmoid'):
        a = keep(w.reals('a', (2, 2), -3, 3))
        f = getattr(m, what)
        keep.out(f(a))
        f(w.reals('b', (2, 2), -3, 3))
    else:
        y = keep(w.reals('y', 3, 0, 3), 'the response')
        p = keep(w.reals('p', 3, .25, .75), 'the prediction')
        if what == 'normal':
            w.assume(y[0] > p[0] + .125)
        m.log_likelihood_glm(what, y, p)
    keep.done()


def comm(w, fn, size, kind, shape):
    sim = Sim(size)
    L = w.load(stubs=sim.stubs())
    f = getattr(L.mod('pyuoi.mpi_utils'), fn)
    ins = []
    for r in range(size):
        a = np.arange(np.prod(shape)).reshape(shape) + 10 * r
        a = a.astype({'float': float, 'int': int}[kind])
        ins.append(a[::-1] if r % 2 else np.asfortranarray(a))
    old = [a.copy() for a in ins]
    outs = []

    def go(r, comm):
        x = f(ins[r], comm, 0)
        return x
    outs = sim.run(go)
    w.check(all(np.array_equal(a, b) for a, b in zip(ins, old)),
            'the buffer sent is not modified')
    kept = [None if o is None else o.copy() for o in outs]
    sim.run(lambda r, comm: f(ins[r] * 3, comm, 0))
    w.check(all(a is None or np.array_equal(a, b)
                for a, b in zip(outs, kept)), 'an earlier result is not '
            'modified')


def decomposition(w, which, kind='real', F=2, N=3):
    keep = Keep(w)
    if which in ('uoicur', 'cur', 'select'):
        env = curlib.Env(w, lambda k, n, X: w.array(c24.comps(k, n, X)))
        env.src.fixed = lambda key, pos, kind: \
            .5 * (pos % 2) if kind == 'u' else None
        mod = env.L.mod(curlib.CUR)
        X = keep(array(w, 'X', (N, F), kind), 'the data')
        if which == 'select':
            V = keep(w.reals('V', (N, F), .25, 1), 'the singular vectors')
            env.L.mod(curlib.UTIL).column_select(V, 1.5, random_state=1)
            env.L.mod(curlib.UTIL).column_select(V, 1.5, leverage_sort=True,
                                                 random_state=1)
            keep.done()
            return
        if which == 'cur':
            m = mod.CUR(2, random_state=1)
            m.fit(X, c=1.5)
        else:
            m = mod.UoI_CUR(2, 2, .5, stability_selection=1, random_state=1)
            ks = keep(w.array([1, 2]), 'the ranks')
            cs = keep(w.array([1., 1.5]), 'the counts')
            m.fit(X, ks=ks, cs=cs)
        keep.done()
        for a in ('components_', 'column_indices_'):
            keep.out(getattr(m, a, None), 'an earlier ' + a)
        Z = keep(w.reals('Z', (2, F), -3, 3), 'the data to transform')
        keep.out(m.transform(Z), 'an earlier transform')
        m.transform(w.reals('Z2', (2, F), -3, 3))
        if which == 'cur':
            m.fit(w.array(np.ones((N, F))), c=1.)
        else:
            m.fit(w.array(np.ones((N, F))), ks=ks, cs=cs)
        keep.done()
        # handed out arrays are not the caller's
        t = m.transform(Z)
        if np.size(t):
            t[...] = 7.
            keep.done()
        if np.size(m.components_):
            m.components_[...] = 7.
            keep.done()
        return
    if which == 'diss':
        f = w.load().mod(curlib.UTIL).dissimilarity
        H1 = keep(w.reals('H1', (2, F), .25, 4), 'the first bases')
        H2 = keep(w.reals('H2', (2, F), .25, 4), 'the second bases')
        w.linear()
        f(H1, H2)
        keep.done()
        return
    env = nmflib.Env(w, lambda c, k, F_: w.array(
        [[1. + (c + 2 * r + 3 * j) % 5 for j in range(F_)]
         for r in range(k)]), lambda n: w.array(np.arange(n) % 2))
    ranks = keep(w.array([1, 2]), 'the ranks')
    m = env.L.mod(nmflib.NMF).UoI_NMF(n_boots=2, ranks=np.array([1, 2]),
                                      random_state=1)
    env.src.fixed = lambda key, pos, kind: pos % 2 if kind == 'i' else None
    X = keep(array(w, 'X', (N - 1, F), kind, 0, 5), 'the data')
    m.fit(X)
    keep.done()
    for a in ('components_', 'bases_samples_', 'bases_samples_labels_',
              'bootstraps_'):
        keep.out(getattr(m, a, None), 'an earlier ' + a)
    Z = keep(array(w, 'Z', (2, F), kind, 0, 3), 'the data to transform')
    W = keep.out(m.transform(Z), 'an earlier transform')
    keep.out(m.inverse_transform(W), 'an earlier inverse transform')
    m.inverse_transform(m.transform(w.reals('Z2', (2, F), 0, 3)))
    m.fit(w.array(np.ones((N - 1, F))))
    keep.done()


def tasks(tier):
    out = []

    def add(name, fn, **cfg):
        out.append(Task(name, fn, cfg))
    for m in ('lasso', 'en', 'logistic', 'poisson'):
        for icpt in (True, False):
            for std in (True, False):
                add('%s-%d-%d' % (m, icpt, std), uoi, model=m, icpt=icpt,
                    std=std, twice=True)
        add('%s-int' % m, uoi, model=m, icpt=True, std=True, kind='int')
        add('%s-int0' % m, uoi, model=m, icpt=False, std=False, kind='int')
        add('%s-strat' % m, uoi, model=m, icpt=True, std=False, strat=True)
        for size in (2, 3):
            add('%s-mpi%d' % (m, size), uoi, model=m, icpt=True, std=True,
                size=size)
        for metric in ('BIC', 'AIC', 'AICc'):
            add('%s-%s' % (m, metric), uoi, model=m, icpt=True, std=False,
                metric=metric)
    add('logistic-3', uoi, model='logistic', icpt=True, std=False, D=3)
    for icpt in (True, False):
        for std in (True, False):
            add('pyc-%d-%d' % (icpt, std), uoi, model='lasso', icpt=icpt,
                std=std, solver='pyc', twice=True)
    for icpt in (True, False):
        for std in (False, True):
            for solver in ('lbfgs', 'cd'):
                for warm in (False, True):
                    add('poisson-%s-%d-%d-%d' % (solver, icpt, std, warm),
                        base, which='poisson', solver=solver, icpt=icpt,
                        warm=warm, std=std, wt=warm and solver == 'lbfgs')
            for pen in ('l1', 'l2'):
                for warm in (False, True):
                    add('base-%s-%d-%d-%d' % (pen, icpt, std, warm), base,
                        which=pen, icpt=icpt, std=std, warm=warm)
                for masked in ('bool', 'float'):
                    add('base-%s-%s-%d-%d' % (pen, masked, icpt, std), base,
                        which=pen, icpt=icpt, std=std, masked=masked,
                        wt=True)
                    add('base-K2-%s-%s-%d-%d' % (pen, masked, icpt, std),
                        base, which=pen, icpt=icpt, std=std, masked=masked,
                        warm=True, K=2, multi='multinomial')
                add('base-K3-%s-%d-%d' % (pen, icpt, std), base, which=pen,
                    icpt=icpt, std=std, K=3, wt=True)
    for kind in ('int',):
        add('base-int', base, which='l1', kind=kind)
        add('base-int-std', base, which='l1', kind=kind, std=True)
        add('poisson-int', base, which='poisson', kind=kind)
        add('poisson-int-std', base, which='poisson', kind=kind, std=True)
    for wt in (False, True):
        for icpt in (False, True):
            add('loss-poisson-%d-%d' % (wt, icpt), losses, which='poisson',
                wt=wt, icpt=icpt)
            for masked in (None, 'bool', 'float'):
                add('loss-binary-%s-%d-%d' % (masked, wt, icpt), losses,
                    which='binary', masked=masked, wt=wt, icpt=icpt)
                if wt:
                    add('loss-multi-%s-%d' % (masked, icpt), losses,
                        which='multi', masked=masked, icpt=icpt)
    for K in (1, 2, 3):
        add('intercept-%d' % K, intercepts, which='', K=K, F=1, N=3)
    for what in ('adjusted', 'threshold'):
        add('cd-' + what, cd, what=what)
    for kind in ('float', 'int'):
        add('thresholds-' + kind, thresholds, kind=kind)
    add('intersection', inter)
    for what in ('softmax', 'sigmoid', 'normal', 'poisson'):
        add('utils-' + what, utils, what=what)
    for fn in ('Bcast_from_root', 'Gatherv_rows'):
        for size in (1, 2, 3):
            for kind in ('float', 'int'):
                for shape in ((2,), (2, 3)):
                    add('%s-%d-%s-%d' % (fn, size, kind, len(shape)), comm,
                        size=size, kind=kind, shape=shape)
                    out[-1].cfg['fn'] = fn
    for which in ('uoicur', 'cur', 'select', 'diss', 'nmf'):
        for kind in ('real', 'int'):
            add('%s-%s' % (which, kind), decomposition, which=which,
                kind=kind)
    if tier != 'quick':
        for t in list(out):
            if t.fn in (uoi, base):
                out.append(Task(t.name + '-free', t.fn,
                                dict(t.cfg, free=True)))
    return out

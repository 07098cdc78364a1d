"""Estimation module of a UoI fit: shared by C04, C05 and C06."""
import numpy as np

from vx.core import Unsupported

from . import fitlib


def median(w, xs):
    n = len(xs)
    if not any(fitlib.is_sym(x) for x in xs):
        return float(np.median(np.array(xs, dtype=float)))
    xs = list(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = a <= b
            xs[j], xs[j + 1] = w.ite(c, a, b), w.ite(c, b, a)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


class Run:
    """One fit with given supports; every quantity recomputed from the
    recorded solver calls."""

    def __init__(self, w, model, D=1, F=2, S=2, B=2, shared=True,
                 metric=None, target=None, fit_intercept=True, sups=None,
                 frac=None, stratify=None, N=6, values='sym'):
        self.w, self.model, self.D, self.F = w, model, D, F
        self.S, self.B, self.shared = S, B, shared
        ctx = self.ctx = fitlib.Ctx(w, F=F, D=D, N=N,
                                    model=fitlib.mod_of(model))
        ctx.est_values = values
        L = self.L = fitlib.loader(w, ctx)
        kw = dict(n_boots_est=B, n_boots_sel=2, fit_intercept=fit_intercept)
        if metric:
            kw['estimation_score'] = metric
        if target:
            kw['estimation_target'] = target
        if model == 'logistic':
            kw['shared_support'] = shared
        if frac is not None:
            kw.update(frac)
        est = self.est = fitlib.build(w, L, ctx, model, **kw)
        nf = F if shared else D * F
        self.n_coef = D * F
        if sups is None:
            sups = w.bools('s', (S, nf))
        else:
            sups = np.array(sups, dtype=bool)
        self.sups = sups
        fitlib.watch_intersect(est, ctx, sups)
        if model == 'poisson':
            def no_refit(X, y):
                est.intercept_ = np.zeros(1)
            est._fit_intercept = no_refit       # C11 decides the refit
        a = {} if stratify is None else dict(stratify=stratify)
        r = w.call(est.fit, ctx.X.copy(), ctx.y.copy(), **a)
        if r.exc is not None:
            raise r.exc
        self.metric = metric or {'linear': 'r2', 'logistic': 'acc',
                                 'poisson': 'log'}[ctx.model]
        tg = target or ('test' if self.metric in ('r2', 'acc', 'log')
                        else 'train')
        self.tg = 0 if tg == 'train' else 1

    def mask(self, s):
        return [bool(v) for v in self.sups[s]]

    def split(self, b):
        sp = self.ctx.splits.get(0, [])
        if not sp:
            raise Unsupported('splits are not drawn by train_test_split')
        return sp[len(sp) - self.B + b]

    def fit(self, b, s):
        """The estimation fit of bootstrap b, support s; None for an empty
        support."""
        m = self.mask(s)
        if not any(m):
            return None
        rows = tuple(int(i) for i in self.split(b).train)
        if self.shared:
            cols = tuple(i for i in range(self.F) if m[i])
            k = [f for f in self.ctx.fits.values() if f.kind == 'est' and
                 f.rows == rows and f.cols == cols and f.mask is None]
        else:
            k = [f for f in self.ctx.fits.values() if f.kind == 'est' and
                 f.rows == rows and f.mask == tuple(m)]
        self.w.check(len(k) == 1, 'each candidate is fitted on its own '
                     'training rows and support')
        return k[0]

    def estimate(self, b, s):
        """Expected full-length estimate."""
        f = self.fit(b, s)
        out = [0.] * self.n_coef
        if f is None:
            return out
        co = list(np.asarray(f.coef).ravel())
        m = self.mask(s)
        if self.shared:
            idx = [d * self.F + j for d in range(self.D)
                   for j in range(self.F) if m[j]]
        else:
            return co
        for i, v in zip(idx, co):
            out[i] = v
        return out

    def score(self, b, s):
        """Expected raw score unknown of (b, s), or None."""
        sp = self.split(b)
        rows = [int(i) for i in (sp.train, sp.test)[self.tg]]
        f = self.fit(b, s)
        c = self.ctx
        kind = {'r2': 'r2', 'acc': 'acc'}.get(self.metric, 'll')
        if not any(k[0] == kind for k in c.scores):
            raise Unsupported('scores are not computed by the known metric '
                              'functions')
        yt = tuple(c.yenc[r] for r in rows)
        if f is not None:
            yp = [1000. * (f.id + 1) + r for r in rows]
            if kind == 'll' and c.model == 'logistic':
                yp = [v for v in yp for _ in range(max(2, self.D))]
        else:
            ytr = np.array([c.yenc[int(r)] for r in sp.train])
            if c.model in ('linear', 'poisson'):
                yp = [float(np.mean(ytr))] * len(rows)
            elif kind == 'acc':
                n = np.bincount(ytr.astype(int), minlength=max(2, self.D))
                yp = None
                best = [float(i) for i in range(len(n)) if n[i] == n.max()]
                for k, v in c.scores.items():
                    if k[0] == kind and k[1] == yt and len(set(k[2])) == 1 \
                            and k[2][0] in best:
                        return v
                return None
            else:
                n = np.bincount(ytr.astype(int), minlength=max(2, self.D))
                p = n / n.sum()
                if self.D == 1:
                    cand = [[p[1]] * len(rows), [p[0], p[1]] * len(rows)]
                else:
                    cand = [list(p) * len(rows)]
                for yp in cand:
                    for k, v in c.scores.items():
                        if k[0] == kind and k[1] == yt and \
                                len(k[2]) == len(yp) and np.allclose(
                                    k[2], yp, atol=1e-6):
                            return v
                return None
        for k, v in c.scores.items():
            if k[0] == kind and k[1] == yt and len(k[2]) == len(yp) and \
                    np.allclose(k[2], yp, atol=1e-9):
                return v
        return None

    def criterion(self, b, s, raw):
        """The recorded score the raw one stands for."""
        if self.metric in ('r2', 'acc', 'log'):
            return raw
        sp = self.split(b)
        n = len((sp.train, sp.test)[self.tg])
        m = self.mask(s)
        k = sum(m)
        ll = raw
        if self.ctx.model == 'logistic':
            ll = raw * n
        elif self.ctx.model == 'poisson':
            ll = raw * n
            k += 1
        if self.metric == 'BIC':
            r = k * np.log(n) - 2 * ll
        else:
            r = 2 * k - 2 * ll
            if self.metric == 'AICc' and n > k + 1:
                r = r + 2. * k * (k + 1) / (n - k - 1)
        return -r

    def values(self, name, shape):
        v = getattr(self.est, name, None)
        self.w.check(v is not None and np.shape(v) == shape,
                     name + ' has one entry per bootstrap and support')
        return v


def check_c04(r):
    w = r.w
    E = r.values('estimates_', (r.B, r.S, r.n_coef))
    for b in range(r.B):
        for s in range(r.S):
            m = r.mask(s)
            if r.shared:
                m = m * r.D
            ex = r.estimate(b, s)
            for j in range(r.n_coef):
                if not m[j]:
                    w.check(E[b, s, j] == 0,
                            'estimate is zero outside the support')
                else:
                    w.eq(E[b, s, j], ex[j],
                         'estimate inside the support is the fitted one')
    win = r.values('rp_max_idx_', (r.B,))
    co = fitlib._flat(r.est.coef_)
    w.check(len(co) == r.n_coef, 'one final coefficient per feature')
    for j in range(r.n_coef):
        inn = False
        for b in range(r.B):
            for s in range(r.S):
                m = r.mask(s) * (r.D if r.shared else 1)
                if m[j]:
                    inn = w.or_(inn, win[b] == s)
        w.check(w.or_(inn, co[j] == 0),
                'final coefficient is zero outside every winning support')


def check_c05(r):
    w = r.w
    E = r.values('estimates_', (r.B, r.S, r.n_coef))
    sc = r.values('scores_', (r.B, r.S))
    win = r.values('rp_max_idx_', (r.B,))
    for b in range(r.B):
        raws = []
        for s in range(r.S):
            raw = r.score(b, s)
            w.check(raw is not None, 'every candidate is scored')
            w.eq(sc[b, s], r.criterion(b, s, raw),
                 'score belongs to its bootstrap and support')
            raws.append(sc[b, s])
            w.eq(E[b, s], w.array(r.estimate(b, s)),
                 'estimate belongs to its bootstrap and support')
        ok = False
        for s in range(r.S):
            best = w.all([raws[s] >= x for x in raws])
            ok = w.or_(ok, w.and_(win[b] == s, best))
        w.check(ok, 'winner has the highest score of its bootstrap')
    co = fitlib._flat(r.est.coef_)
    for j in range(r.n_coef):
        vals = []
        for b in range(r.B):
            v = E[b, 0, j]
            for s in range(1, r.S):
                v = w.ite(win[b] == s, E[b, s, j], v)
            vals.append(v)
        w.eq(co[j], median(w, vals),
             'final coefficient is the median of the winning estimates')


def check_c06(r):
    """Rows seen by fits and scores."""
    w = r.w
    sp = r.ctx.splits.get(0, [])
    r.split(0)
    w.check(len(sp) == r.B + 2, 'one new split per bootstrap')
    sc = r.values('scores_', (r.B, r.S))
    for b in range(r.B):
        for s in range(r.S):
            raw = r.score(b, s)
            w.check(raw is not None,
                    'candidates are scored on the documented rows by the '
                    'model fitted on the training rows')
            w.eq(sc[b, s], r.criterion(b, s, raw),
                 'the recorded score is the one on the documented rows')

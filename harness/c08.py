"""C08: distributed fits equal serial fits."""
import numpy as np

from vx.core import Unsupported
from vx.mpisim import MPIError, Sim
from vx.run import Task

from . import fitlib

ID = 'C08'
BOUNDS = ('complete fits on 1-5 (thorough 7) simulated ranks compared with the '
          'serial fit: 1-3 selection and 1-3 estimation bootstraps, 1-3 '
          'regularization settings, 1-2 features, 1-3 outputs; every real '
          'solver outcome and score; ranks fewer, equal and more than '
          'bootstraps and tasks')
OUTSIDE = ('numerical differences of warm starts between task layouts '
           '(solver outcomes are given); mpi4py itself')


def results(est):
    return {k: getattr(est, k, None) for k in (
        'supports_', 'scores_', 'estimates_', 'rp_max_idx_', 'coef_',
        'intercept_', 'n_supports_')}


def split_conf(s):
    st = s.stratify
    f = [None if v is None else round(float(v), 9)
         for v in (s.test_size, s.train_size)]
    return (f, bool(s.shuffle),
            None if st is None else tuple(float(v) for v in st))


def main(w, model, size, Bs=2, Be=2, R=1, F=1, D=1, shared=True,
         sel='sym', sups=None, strat=False, std=False):
    sim = Sim(size)
    ctx = fitlib.Ctx(w, F=F, D=D, model=fitlib.mod_of(model))
    ctx.sel_values = sel
    ctx.rank = sim.rank
    L = fitlib.loader(w, ctx, sim)
    kw = dict(n_boots_sel=Bs, n_boots_est=Be, regs=R)
    if model == 'logistic':
        kw['shared_support'] = shared
    st = dict(stratify=np.array([1, 2, 1, 2, 1, 2])) if strat else {}

    def go(comm):
        est = fitlib.build(w, L, ctx, model, comm=comm, **dict(kw))
        if sups is not None:
            fitlib.watch_intersect(est, ctx, np.array(sups, dtype=bool))
        if model == 'poisson':
            def refit(X, y):
                v = 1.5
                for c in fitlib._flat(est.coef_):
                    v = v + 2 * c
                est.intercept_ = w.array([v])
            est._fit_intercept = refit
        est.fit(ctx.X.copy(), ctx.y.copy(), **st)
        return est

    ser = results(go(None))
    ser_sp = ctx.splits.get(0, [])
    nsp = len(ser_sp)
    nfit = len(ctx.fits)
    if not nsp:
        raise Unsupported('splits are not drawn by train_test_split')
    ctx.splits = {}
    ncall = len(ctx.calls)
    try:
        out = sim.run(lambda r, comm: results(go(comm)))
    except MPIError as ex:
        w.check(False, 'collective calls match', str(ex))
        raise Unsupported('mpi error')
    w.check(len(ctx.splits.get(0, [])) == nsp,
            'the root draws every split once')
    for a, b in zip(ser_sp, ctx.splits.get(0, [])):
        w.check(split_conf(a) == split_conf(b),
                'splits are requested as in the serial fit')
    w.check(len(ctx.fits) == nfit, 'distributed fits are the serial ones')
    # never warm started across bootstraps
    last = {}
    for f, start, start_fit, r in ctx.calls[ncall:]:
        if f.kind == 'sel':
            zero = w.all([fitlib.is_sym(x) and x == 0 or
                          not fitlib.is_sym(x) and float(x) == 0
                          for v in start.values() for x in v])
            if last.get(r) != f.rows:
                w.check(zero, 'nothing of another bootstrap is left over')
            last[r] = f.rows
    for r in range(size):
        for k, v in ser.items():
            g = out[r][k]
            w.check(g is not None, 'every rank has ' + k)
            if k == 'n_supports_':
                w.check(int(g) == int(v), k + ' as in the serial fit')
                continue
            w.check(np.shape(g) == np.shape(v), k + ' has its serial shape')
            if k == 'supports_':
                w.check(np.asarray(g).dtype in (bool, object),
                        'supports are boolean')
                a, b = fitlib._flat(g), fitlib._flat(v)
                for x, y in zip(a, b):
                    w.check(w.or_(w.and_(x, y), w.and_(
                        w.not_(x), w.not_(y))), k + ' as in the serial fit')
                continue
            w.eq(w.array(fitlib._flat(g)), w.array(fitlib._flat(v)),
                 k + ' as in the serial fit')


def tasks(tier):
    out = []

    def add(model, size, **c):
        nm = '-'.join([model, 'p%d' % size] + [
            '%s%s' % (k, v) for k, v in c.items()]).replace(' ', '')
        out.append(Task(nm, main, dict(model=model, size=size, **c)))
    one = [[True]]
    two = [[True, False], [False, False]]
    two1 = [[True, True], [False, True]]
    for p in (1, 2, 3, 5):
        add('lasso', p, Bs=2, Be=2, R=1, F=1)
    for p in (2, 3, 4):
        add('lasso', p, Bs=3, Be=1, R=1, F=1)
        add('lasso', p, Bs=1, Be=2, R=2, F=1)
        add('lasso', p, Bs=2, Be=1, R=2, F=1)
        add('lasso', p, Bs=2, Be=2, R=3, F=2, sel='zero', sups=two)
    add('lasso', 2, Bs=1, Be=3, R=1, F=2, sel='zero', sups=two1)
    add('lasso', 5, Bs=3, Be=1, R=2, F=2, sel='zero', sups=two1, strat=True)
    add('en', 3, Bs=2, Be=1, R=2, F=1)
    for p in (2, 3):
        add('logistic', p, Bs=2, Be=2, R=1, F=1)
        add('logistic', p, Bs=1, Be=1, R=1, F=2, D=3, sel='zero', sups=two1)
        add('logistic', p, Bs=2, Be=1, R=1, F=1, D=2, shared=False,
            sel='zero', sups=two1)
        add('poisson', p, Bs=2, Be=2, R=1, F=1)
    if tier != 'quick':
        for p in (4, 6, 7):
            add('lasso', p, Bs=3, Be=2, R=2, F=1)
            add('logistic', p, Bs=2, Be=2, R=2, F=2, D=2, sel='zero',
                sups=two)
            add('poisson', p, Bs=3, Be=2, R=1, F=1)
        add('lasso', 3, Bs=2, Be=2, R=1, F=2)
    return out

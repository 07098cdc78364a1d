"""C34: random states."""
import numpy as np

from vx.core import Unsupported
from vx.mpisim import MPIError, Sim
from vx.rngsim import Source
from vx.run import Task

from . import c24, c33, curlib, fitlib, nmflib
from .c27 import tagged

ID = 'C34'
BOUNDS = ('every integer seed (as a solver unknown) and a generator given by '
          'the caller, at every position of its stream used; complete fits '
          'of every UoI model with 1-3 bootstraps, 1-3 simulated ranks, both '
          'decompositions, both column selections, column_select and the '
          'generators; every solver outcome and draw')
OUTSIDE = ('draws made inside sklearn given the right state; seeds from the '
           'operating system (random_state=None); numpy\'s generators')


def seed(w, src, how):
    """-> random_state argument, check of a stream key"""
    if how == 'seed':
        s = w.int('seed', 0, 2 ** 31)
        src.seed_of(s)          # number 0
        return s, ('seed', 0)
    if how == 'numpy':
        s = w.choose('seed', [0, 7, 2 ** 31])
        src.seed_of(s)
        return np.int64(s), ('seed', 0)
    return src.state(('caller',), 4), ('caller',)


def draws(w, log, key, label=''):
    w.check(all(e[0] != ('global',) for e in log),
            'the global generator is not used')
    w.check(all(e[0][0] != 'fresh' for e in log),
            'no generator seeded from the system is used')
    w.check(all(e[0] == key for e in log), 'every draw is from the given '
            'state')


def distinct(w, log, label):
    at = [(e[0], e[1]) for e in log]
    w.check(len(set(at)) == len(at), label)


def signature(log):
    return [(e[1], e[2]) for e in log]


def model(w, which, how, Bs=2, Be=2, R=1, N=6, size=None, strat=False,
          F=1, D=1, twice=False):
    src = Source(w, by_value=True)
    sim = Sim(size) if size else None
    ctx = fitlib.Ctx(w, F=F, D=D, N=N, model=fitlib.mod_of(which))
    ctx.sel_values = 'sym'
    if sim:
        ctx.rank = sim.rank
    real = ctx.tts

    def tts(*a, random_state=None, **k):
        src.use(random_state, 'split%d' % ctx.rank())
        return real(*a, random_state=random_state, **k)
    ctx.tts = tts
    L = fitlib.loader(w, ctx, sim, extra=src.overrides())
    rs, key = seed(w, src, how)
    kw = dict(n_boots_sel=Bs, n_boots_est=Be, regs=R, rng=rs)
    st = dict(stratify=np.array([1, 2, 1, 2, 1, 2])) if strat else {}

    def go(comm):
        k2 = dict(kw)
        if comm is not None:
            k2['comm'] = comm
        est = fitlib.build(w, L, ctx, which, **k2)
        if which == 'poisson':
            est._fit_intercept = lambda X, y: setattr(
                est, 'intercept_', np.array([.5]))
        for _ in range(2 if twice else 1):
            ctx.splits = {} if size is None else ctx.splits
            est.fit(ctx.X.copy(), ctx.y.copy(), **st)
        return est
    if not size:
        go(None)
        log = list(src.log)
        draws(w, log, key)
        distinct(w, log, 'bootstraps use successive draws')
        if all(e[2] == 'split0' for e in log):
            w.check(len(log) == (Bs + Be) * (2 if twice else 1),
                    'one split per bootstrap')
            w.check([e[1] for e in log] == list(range(
                log[0][1], log[0][1] + len(log))),
                'draws are made in the order of the bootstraps')
        return
    try:
        out = sim.run(lambda r, comm: go(comm).random_state)
    except MPIError as ex:
        raise Unsupported('mpi error %s' % ex)
    if not all(hasattr(o, 'key') for o in out):
        raise Unsupported('no random_state on the estimator')
    keys = [o.key for o in out]
    if how != 'state':
        w.check(len(set(keys)) == size, 'ranks use distinct streams')
        w.check(keys[0] == key, 'the root uses the given seed')
    for e in src.log:
        if e[2].startswith('split'):
            r = int(e[2][5:])
            w.check(e[0] == keys[r], 'every draw is from the state of the '
                    'rank')
    root = [e for e in src.log if e[2] == 'split0']
    distinct(w, root, 'bootstraps use successive draws')
    w.check(len(root) == Bs + Be, 'the root draws every split')
    w.check(all(e[0] != ('global',) and e[0][0] != 'fresh'
                for e in src.log), 'only the given state is used')


def solver_state(w, which):
    """The state given to inner solvers is never the global one."""
    src = Source(w, by_value=True)
    L = w.load(overrides=src.overrides())
    rs, key = seed(w, src, 'seed')
    est = getattr(L.mod('pyuoi.linear_model'), fitlib.CLS[which])(
        random_state=rs)
    w.check(getattr(est.random_state, 'key', None) == key,
            'the estimator keeps the given state')
    w.check(not src.log, 'nothing is drawn before fitting')


def cur(w, how, B, frac, ks, F=2, N=4):
    src_log = []
    sigs = []
    for rnd in (0, 1):
        env = curlib.Env(w, lambda k, n, X: w.array(c24.comps(k + rnd, n,
                                                              X)),
                         by_value=True)
        src = env.src
        if rnd == 0:
            rs, key = seed(w, src, how)
            s0 = rs
        elif how == 'state':
            rs = src.state(('caller',), 4)
        else:
            rs = s0
            src.seed_of(rs)
        m = env.L.mod(curlib.CUR).UoI_CUR(B, 2, frac, stability_selection=1,
                                          random_state=rs)
        X = w.array([[i + 10. * j + rnd for j in range(F)]
                     for i in range(N)])
        m.fit(X, ks=ks, cs=1.5)
        log = list(src.log)
        sigs.append([(e[0],) + s for e, s in zip(log, signature(log))])
        draws(w, log, key)
        cols = [e for e in log if e[2] not in ('svd', 'split')]
        distinct(w, cols, 'columns use successive draws')
        spl = [e for e in log if e[2] == 'split']
        distinct(w, spl, 'subsamples use successive draws')
        src_log = log
    w.check(sigs[0] == sigs[1], 'the order of the draws is fixed by the '
            'settings')


def cur1(w, how):
    src = None
    env = curlib.Env(w, lambda k, n, X: w.array(c24.comps(k, n, X)),
                     by_value=True)
    src = env.src
    rs, key = seed(w, src, how)
    m = env.L.mod(curlib.CUR).CUR(2, random_state=rs)
    m.fit(w.array([[i + 10. * j for j in range(2)] for i in range(3)]),
          c=1.5)
    draws(w, src.log, key)
    distinct(w, [e for e in src.log if e[2] != 'svd'],
             'columns use successive draws')
    # and the column selection itself
    n = len(src.log)
    V = w.array(c24.comps(0, 2, np.zeros((3, 3))).T)
    env.L.mod(curlib.UTIL).column_select(V, 1.5, random_state=rs)
    draws(w, src.log, key)
    distinct(w, src.log[n:], 'columns use successive draws')


def nmf(w, how, use, cls='UoI_NMF', B=2, N=2):
    env = nmflib.Env(w, tagged(w), lambda n: w.array(np.zeros(n, dtype=int)),
                     by_value=True)
    src = env.src
    rs, key = seed(w, src, how)
    M = getattr(env.L.mod(nmflib.NMF), cls)
    m = M(n_boots=B, ranks=[1, 2], use_dissimilarity=use, random_state=rs)
    w.check(not src.log, 'nothing is drawn before fitting')
    m.fit(w.array(np.arange(1., 1 + N * 2).reshape(N, 2)))
    log = list(src.log)
    draws(w, log, key)
    distinct(w, log, 'bootstraps use successive draws')
    states = {id(f[2]) for f in env.fits}
    for k, data, st, H in env.fits:
        w.check(st is not None and getattr(st, 'key', None) == key,
                'factorizations draw from the given state')
    if env.fits:
        w.check(len(states) == 1, 'factorizations use successive draws')


GENS = {'lin': ('make_linear_regression', {}),
        'poi': ('make_poisson_regression', {}),
        'cls2': ('make_classification', dict(n_classes=2)),
        'cls3': ('make_classification', dict(n_classes=3)),
        'cls3s': ('make_classification', dict(n_classes=3,
                                              shared_support=True))}


def data(w, which, how, icpt):
    src = Source(w, by_value=True)
    off = 4 if how == 'state' else 0
    src.fixed = c33.grid(1, 2, off)
    L = w.load(overrides=src.overrides())
    rs, key = seed(w, src, how)
    fn, kw = GENS[which]
    getattr(L.mod(c33.MOD), fn)(
        n_samples=1, n_features=2, n_informative=1, include_intercept=icpt,
        random_state=rs, **kw)
    w.check(len(src.log) >= 3, 'data are drawn')
    draws(w, src.log, key)
    distinct(w, src.log, 'draws are not reused')


def tasks(tier):
    out = []

    def add(name, fn, **cfg):
        out.append(Task(name, fn, cfg))
    for m in ('lasso', 'en', 'logistic', 'poisson'):
        add('solver-' + m, solver_state, which=m)
        D = 2 if m == 'logistic' else 1
        for how in ('seed', 'numpy', 'state'):
            for Bs, Be in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
                if how == 'numpy' and Bs != 2:
                    continue
                add('%s-%s-%d-%d' % (m, how, Bs, Be), model, which=m,
                    how=how, Bs=Bs, Be=Be, D=D)
        add('%s-strat' % m, model, which=m, how='seed', strat=True, D=D)
        add('%s-twice' % m, model, which=m, how='seed', twice=True, Bs=1,
            Be=1, D=D)
        for size in (1, 2, 3):
            add('%s-mpi-%d' % (m, size), model, which=m, how='seed',
                size=size, Bs=2, Be=1, D=D)
        add('%s-mpi-numpy' % m, model, which=m, how='numpy', size=2, Bs=1,
            Be=2, D=D)
    for how in ('seed', 'numpy', 'state'):
        for B in (1, 2, 3):
            for frac in (.5, 1):
                for ks in ([1], [1, 2]):
                    if B * len(ks) > 4 or tier == 'quick' and \
                            B * len(ks) > (2 if how == 'numpy' else 3):
                        continue
                    nm = 'uoicur-%s-%d-%s-%d' % (how, B, frac, len(ks))
                    if how != 'state' and B > 1 and frac != 1:
                        nm = 'uoicur-int-%s-%d-%d' % (how, B, len(ks))
                    add(nm, cur, how=how, B=B, frac=frac, ks=ks)
        add('cur-%s' % how, cur1, how=how)
        for use in (True, False):
            for cls in ('UoI_NMF', 'UoI_NMF_Base'):
                add('nmf-%s-%d-%s' % (how, use, cls), nmf, how=how, use=use,
                    cls=cls)
        for g in GENS:
            for icpt in (False, True):
                add('data-%s-%s-%d' % (g, how, icpt), data, which=g, how=how,
                    icpt=icpt)
    return out

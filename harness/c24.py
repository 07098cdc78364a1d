"""C24: UoI column subset selection."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from .curlib import CUR, Env
from .c23 import leverage

ID = 'C24'
BOUNDS = ('every outcome of every column draw for 1-3 columns, 1-3 '
          'bootstraps and 1-2 ranks (at most 8 draws), all selection '
          'thresholds, every form of ranks and counts; distinct singular '
          'vectors per bootstrap, row subsets per bootstrap; every real '
          'matrix to transform')
OUTSIDE = ('the SVD and the splitter themselves (sklearn); more columns, '
           'bootstraps and ranks')


def comps(k, n, X):
    F = X.shape[1]
    # dyadic: leverages are exact
    return np.array([[(1 + (7 * k + 3 * r * r + 5 * j + r * j) % 11) / 16.
                      for j in range(F)] for r in range(n)])


def uoi(w, F, B, ks, cs, mk, th, frac=.5, how='seed', strat=False, N=4):
    env = Env(w, lambda k, n, X: w.array(comps(k, n, X)))
    U = env.L.mod(CUR).UoI_CUR
    rs = 5 if how == 'seed' else env.src.state(('caller',))
    key = ('seed', 5) if how == 'seed' else ('caller',)
    m = U(B, mk, frac, stability_selection=th, algorithm='arpack', n_iter=3,
          tol=.25, random_state=rs)
    X = w.array([[i + 10. * j for j in range(F)] for i in range(N)])
    X0 = X.copy()
    sy = np.array([0, 0, 1, 1]) if strat else None
    ks0 = w.array(ks) if isinstance(ks, tuple) else ks
    kw = {}
    if ks is not None:
        kw['ks'] = ks0
    if cs is not None:
        kw['cs'] = w.array(cs) if isinstance(cs, tuple) else cs
    if strat:
        kw['stratify'] = sy
    r = w.call(m.fit, X, **kw)
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    w.check(r.value is m, 'fit returns the estimator')
    lk = list(range(1, mk + 1)) if ks is None else \
        [ks] if isinstance(ks, int) else list(ks)
    lc = [k + 20. for k in lk] if cs is None else \
        [cs] * len(lk) if isinstance(cs, (int, float)) else list(cs)
    w.check(len(env.svds) == B, 'one decomposition per bootstrap')
    if frac == 1:
        w.check(not env.splits, 'all data are used without subsampling')
    else:
        w.check(len(env.splits) == B, 'one subsample per bootstrap')
    for b in range(B):
        n, data, kw_, at = env.svds[b]
        w.check(n >= max(lk), 'the decomposition has every rank')
        w.check((kw_['algorithm'], kw_['n_iter'], kw_['tol']) ==
                ('arpack', 3, .25), 'solver settings are passed on')
        if frac == 1:
            w.eq(data, X0, 'the data are decomposed')
            continue
        s = env.splits[b]
        w.eq(data, X0[s['rows']], 'the subsample is decomposed')
        size = s['train_size'] if s['test_size'] is None else \
            1 - s['test_size'] if isinstance(s['test_size'], float) else None
        if size is None or s['train_size'] is not None and \
                s['test_size'] is not None:
            raise Unsupported('split sizes')
        w.eq(size, frac, 'the requested share of the data')
        w.check((s['stratify'] is None) if not strat else
                s['stratify'] is sy or np.array_equal(
                    np.asarray(s['stratify'], dtype=float), sy),
                'stratification is passed on')
        w.check(s['shuffle'] is True, 'random subsamples')
    log = [e for e in env.src.log if e[2] not in ('svd', 'split')]
    if any(e[2] != 'u' for e in log):
        raise Unsupported('draws that are not uniform')
    w.check(all(e[0] == key for e in log), 'only the given state is used')
    w.check(len(log) == B * len(lk) * F, 'one draw per column, rank and '
            'bootstrap')
    w.check(len({e[1] for e in log}) == len(log), 'no draw is used twice')
    count = [[0] * F for _ in lk]
    it = iter(log)
    for b in range(B):
        n, data, _, _ = env.svds[b]
        V = comps(b, n, data).T
        for i, k in enumerate(lk):
            pi = leverage(V, F, k)
            for j in range(F):
                u = next(it)[3]
                if bool(w.and_(u < float(lc[i] * pi[j]), u < 1)):
                    count[i][j] += 1
    t = th if isinstance(th, int) else int(th * B)
    want = [j for j in range(F) if any(count[i][j] >= t
                                       for i in range(len(lk)))]
    got = [int(v) for v in m.column_indices_]
    w.check(got == want, 'union over ranks of the bootstrap intersections, '
            'in increasing order', 'got %s, expected %s' % (got, want))
    w.eq(m.components_, X0[:, want], 'components are those columns')
    Z = w.reals('Z', (2, F), -5, 5)
    r = w.call(m.transform, Z)
    w.check(r.ok, 'transform succeeds', repr(r.exc))
    w.eq(r.value, Z[:, want], 'transform returns the selected columns')


def both(w, F, B):
    """fit_transform equals fit followed by transform."""
    res = []
    for which in (0, 1):
        env = Env(w, lambda k, n, X: w.array(comps(k, n, X)))
        m = env.L.mod(CUR).UoI_CUR(B, 2, .5, random_state=5)
        X = w.array([[i + 10. * j for j in range(F)] for i in range(4)])
        if which:
            r = w.call(m.fit_transform, X, ks=2, cs=1.5)
        else:
            m.fit(X, ks=2, cs=1.5)
            r = w.call(m.transform, X)
        w.check(r.ok, 'transforms', repr(r.exc))
        res.append(r.value)
    w.check(np.shape(res[0]) == np.shape(res[1]), 'same columns')
    w.eq(res[0], res[1], 'fit_transform is fit and transform')


def tasks(tier):
    out = []

    def add(name, **cfg):
        out.append(Task(name, uoi, cfg))
    for F, B, nk in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (3, 2, 1),
                     (3, 1, 2), (2, 3, 1), (1, 3, 2), (1, 2, 2)) + (
                         ((3, 3, 1), (2, 2, 3)) if tier != 'quick' else ()):
        for th in list(range(1, B + 1)) + [1., .5, .67]:
            if isinstance(th, float) and int(th * B) < 1:
                continue
            add('F%d-B%d-K%d-t%s' % (F, B, nk, th), F=F, B=B,
                ks=list(range(1, nk + 1)), cs=[1.5, 2.5, 2.][:nk], mk=3,
                th=th)
    for nm, ks, cs in (('none', None, None), ('int', 2, 3), ('float', 2, 1.5),
                       ('list', [2, 1], 2.), ('array', (1, 2), (1.5, 2.)),
                       ('rep', [2], [1]), ('desc', [2, 1], [1., 3.]),
                       ('ksonly', [2, 1], None)):
        add('form-%s' % nm, F=2, B=2, ks=ks, cs=cs, mk=2, th=1.)
        add('one-%s' % nm, F=3, B=1, ks=ks, cs=cs, mk=2, th=1)
    for how in ('seed', 'state'):
        for frac in (.5, .75, 1, 1.):
            add('frac-%s-%s' % (how, frac), F=2, B=2, ks=[1], cs=1.5, mk=2,
                th=2, frac=frac, how=how)
    add('strat', F=2, B=2, ks=[1], cs=1.5, mk=2, th=1, strat=True)
    out.append(Task('both', both, dict(F=2, B=2)))
    return out

"""C23: leverage-score column sampling."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from .curlib import CUR, UTIL, Env

ID = 'C23'
BOUNDS = ('every real matrix of singular vectors of 1-3 columns and rank '
          '1-2, every positive expected count, every uniform draw; random '
          'states given as an integer, a generator in any position or '
          'nothing; whole CUR fits of 1-3 columns')
OUTSIDE = ('rounding of double arithmetic; the generator and the SVD '
           'themselves (sklearn, numpy); more columns')


def leverage(V, F, k):
    out = []
    for j in range(F):
        s = 0.
        for r in range(k):
            s = s + V[j, r] * V[j, r]
        out.append(s / k)
    return out


def judge(w, env, log, cols, pi, c, sort, key, pos):
    F = len(pi)
    w.check(all(e[0] == key for e in log), 'only the given state is used')
    if any(e[2] != 'u' for e in log):
        raise Unsupported('draws that are not uniform')
    w.check([e[1] for e in log] == list(range(pos, pos + F)),
            'one successive draw per column')
    cols = [int(v) for v in cols]
    w.check(len(set(cols)) == len(cols), 'no column twice')
    w.check(all(0 <= v < F for v in cols), 'valid indices')
    for j in range(F):
        u = log[j][3]
        p = w.and_(u < c * pi[j], u < 1)
        w.check(p if j in cols else w.not_(p),
                'selected exactly below its probability')
    if sort:
        for a, b in zip(cols, cols[1:]):
            w.check(pi[a] <= pi[b], 'ordered by increasing leverage')
    else:
        w.check(cols == sorted(cols), 'increasing indices')


def select(w, F, k, sort, how, cint):
    env = Env(w, None)
    f = env.L.mod(UTIL).column_select
    V = w.reals('V', (F, k), -2, 2)
    V0 = V.copy()
    c = w.int('c', 1, 9) if cint else w.real('c', .05, 9)
    src = env.src
    pos = 0
    if how == 'seed':
        rs, key = 7, ('seed', 7)
    elif how == 'none':
        rs, key = None, ('global',)
    else:
        rs = src.state(('caller',), 3)
        key, pos = ('caller',), 3
    kw = {} if how == 'none' else dict(random_state=rs)
    r = w.call(f, V, c, leverage_sort=sort, **kw)
    w.check(r.ok, 'columns are selected', repr(r.exc))
    log = list(src.log)
    judge(w, env, log, r.value, leverage(V0, F, k), c, sort, key, pos)
    if how == 'state':
        w.check(rs.pos == 3 + F, 'the state moves on')
    if how == 'seed':
        r2 = w.call(f, V, c, leverage_sort=sort, random_state=rs)
        w.check(r2.ok and [int(v) for v in r2.value] ==
                [int(v) for v in r.value],
                'the same random state gives the same selection')


def cur(w, F, mk, c, how):
    V = w.reals('V', (mk, F), -1, 1)

    def comps(i, n, X):
        w.check(n == mk, 'the rank of the decomposition')
        return V.copy()
    env = Env(w, comps)
    C = env.L.mod(CUR).CUR
    rs = 7 if how == 'seed' else env.src.state(('caller',))
    key = ('seed', 7) if how == 'seed' else ('caller',)
    N = 3
    X = w.array([[i + 10. * j for j in range(F)] for i in range(N)])
    m = C(mk, algorithm='arpack', n_iter=3, tol=.25, random_state=rs)
    cc = w.real('c', .05, 9) if c else None
    r = w.call(m.fit, X.copy(), cc) if c else w.call(m.fit, X.copy())
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    w.check(r.value is m, 'fit returns the estimator')
    w.check(len(env.svds) == 1, 'one decomposition')
    n, data, kw, at = env.svds[0]
    w.eq(data, X, 'the decomposition of the data')
    w.check((kw['algorithm'], kw['n_iter'], kw['tol']) == ('arpack', 3, .25),
            'solver settings are passed on')
    w.check(at[0] == key, 'the decomposition draws from the random state')
    log = [e for e in env.src.log if e[2] != 'svd']
    pi = leverage(V.T, F, mk)
    cols = [int(v) for v in m.column_indices_]
    judge(w, env, log, cols, pi, cc if c else mk + 20., True, key,
          0 if how == 'seed' else 1)
    w.eq(m.components_, X[:, cols], 'components are the selected columns')
    Z = w.reals('Z', (2, F), -5, 5)
    r = w.call(m.transform, Z)
    w.check(r.ok, 'transform succeeds', repr(r.exc))
    w.eq(r.value, Z[:, cols], 'transform returns the selected columns')


def tasks(tier):
    out = []
    sizes = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)]
    if tier != 'quick':
        sizes += [(4, 1), (4, 2), (3, 3)]
    for F, k in sizes:
        for sort in (False, True):
            for how in ('seed', 'state', 'none'):
                if how == 'none' and F > 2:
                    continue
                out.append(Task('sel-%dx%d-%d-%s' % (F, k, sort, how),
                                select, dict(F=F, k=k, sort=sort, how=how,
                                             cint=False)))
        out.append(Task('sel-%dx%d-int' % (F, k), select, dict(
            F=F, k=k, sort=False, how='state', cint=True)))
    for F, mk in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        for c in (False, True):
            for how in ('seed', 'state'):
                out.append(Task('cur-%dx%d-%d-%s' % (F, mk, c, how), cur,
                                dict(F=F, mk=mk, c=c, how=how)))
    return out

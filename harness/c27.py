"""C27: UoI NMF fits."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.run import Task

from .fitlib import _flat
from .nmflib import NMF, Env

ID = 'C27'
BOUNDS = ('2-3 bootstraps (1 without dissimilarity), 1-3 ranks, 2-3 samples, '
          '2-3 features; every resample drawn, every dissimilarity, every '
          'labelling by the clusterer (noise and gaps included), every real '
          'non-negative basis in the small tasks and tagged bases (zero '
          'bases included) in the others; every real data matrix')
OUTSIDE = ('the factorization, the clusterer and the dissimilarity '
           'themselves (unknowns here; C26); rounding; larger shapes')


def tagged(w, zero=()):
    def bases(c, k, F):
        H = np.array([[1. + (3 * c + 5 * r + 7 * j * (1 + r)) % 8 + c / 4.
                       for j in range(F)] for r in range(k)])
        for r in range(k):
            if (c, r) in zero:
                H[r] = 0.
        return w.array(H)
    return bases


def unit(w, row):
    s = 0.
    for v in row:
        s = s + v * v
    n = w.sqrt(s)
    return [v / n for v in row]


def is_zero(row):
    z = True
    for v in row:
        z = z and bool(v == 0)
    return z


def run(w, B, ranks, use, N=1, F=2, zero=(), sym=False, labs=(-1, 1),
        how='seed', give=False, cons='mean', neg=False, cls='UoI_NMF'):
    if sym:
        w.linear()
        first = []

        def bases(c, k, F_):
            H = w.reals('H%d' % c, (k, F_), 0, 4)
            for v in first:     # (identified by content: kept apart)
                w.assume(H[0, 0] != v)
            first.append(H[0, 0])
            return H
    else:
        bases = tagged(w, zero)
    env = Env(w, bases, lambda n: w.ints('lab', n, labs[0], labs[1]))
    M = getattr(env.L.mod('pyuoi.decomposition.NMF'), cls)
    if how == 'seed':
        rs, key = 3, ('seed', 3)
    else:
        rs, key = env.src.state(('caller',), 2), ('caller',)
    kw = {}
    mine = theirs = None
    if give:
        kw['nmf'] = mine = env.NMF(tag=1)
        kw['cluster'] = theirs = env.Cluster(tag=2)
    used = []
    if cons == 'own':
        def own(rows, axis=None):
            w.check(axis == 0, 'consensus over the bases')
            used.append(rows.copy())
            return rows.sum(axis=0) + rows[0]
        kw['cons_meth'] = own
    elif cons == 'max':
        kw['cons_meth'] = np.max if not w.sym else (
            lambda rows, axis=None: rows.max(axis=axis))
    m = M(n_boots=B, ranks=ranks, use_dissimilarity=use, random_state=rs,
          **kw)
    X = w.reals('X', (N, F), -1 if neg else 0, 5)
    X0 = X.copy()
    isneg = False
    if neg:
        for v in _flat(X0):
            isneg = isneg or bool(v < 0)
    r = w.call(m.fit, X)
    if isneg:
        w.check(isinstance(r.exc, ValueError), 'negative data are rejected')
        return
    if len(env.clustered) == 1 and all(
            bool(v == -1) for v in env.clustered[0][1]):
        # nothing clusters: there is no model
        if not r.ok:
            w.check(isinstance(r.exc, ValueError), 'no clusters: refused')
            return
    if not env.clustered and not r.ok and isinstance(r.exc, ValueError):
        # no base that is not zero: nothing to cluster
        nz = [not is_zero(f[3][i]) for f in env.fits
              for i in range(f[3].shape[0])]
        if len(nz) and not any(nz):
            return
    w.check(r.ok, 'fit succeeds', repr(r.exc))
    w.check(r.value is m, 'fit returns the estimator')
    lk = list(range(1, F)) if ranks is None else list(range(2, ranks + 1)) \
        if isinstance(ranks, int) else list(ranks)
    # resamples
    log = list(env.src.log)
    w.check(all(e[0] == key for e in log), 'only the given state is used')
    if any(e[2] != 'i' for e in log):
        raise Unsupported('draws that are not integers')
    w.check(len(log) == B * N, 'one draw per bootstrap and sample')
    w.check(len({e[1] for e in log}) == len(log), 'successive draws')
    idx = m.bootstraps_
    w.check(np.shape(idx) == (B, N), 'one resample per bootstrap')
    for t, v in enumerate(_flat(idx)):
        w.eq(v, log[t][3], 'resampled with replacement')
    w.check(len(env.fits) == B * len(lk), 'every bootstrap is factorized at '
            'every rank')
    if mine is not None:
        w.check(len(env.made) == 2, 'the given solvers are used')
    by = {}
    for t, (k, data, st, H) in enumerate(env.fits):
        b, kk = divmod(t, len(lk))
        w.check(k == lk[kk], 'factorized at the requested ranks')
        w.check(np.shape(data) == (N, F), 'a resample of the data')
        for i in range(N):
            for j in range(F):
                want = X0[N - 1, j]
                for q in range(N - 1):
                    want = w.ite(idx[b, i] == q, X0[q, j], want)
                w.eq(data[i, j], want, 'the resampled rows are factorized')
        w.check(st is not None and getattr(st, 'key', None) == key,
                'factorizations draw from the given state')
        by[b, kk] = t
    # rank selection
    sets = range(len(lk))
    if use:
        tot = []
        for kk in range(len(lk)):
            s = 0.
            for a, b in itertools.combinations(range(B), 2):
                q = tuple(sorted((by[a, kk], by[b, kk])))
                if q not in env.diss:
                    w.check(False, 'every pair of bootstraps is compared')
                s = s + env.diss[q]
            tot.append(s)
        g = m.dissimilarity_
        w.check(np.shape(g) == (len(lk),), 'one dissimilarity per rank')
        for kk in range(len(lk)):
            w.eq(g[kk], tot[kk] * 2 / (B * (B - 1.)),
                 'the average pairwise dissimilarity')
    w.check(len(env.clustered) == 1, 'clustered once')
    data, lab = env.clustered[0]

    def expected(sets):
        rows = []
        for kk in sets:
            for b in range(B):
                H = env.fits[by[b, kk]][3]
                for i in range(lk[kk]):
                    if not is_zero(H[i]):
                        rows.append(unit(w, [v for v in H[i]]))
        return rows
    if use:
        # (the first of the best ranks, or another one as good)
        best = None
        for kk in range(len(lk)):
            ok = True
            for q in range(len(lk)):
                ok = ok and bool(tot[kk] <= tot[q])
            if ok:
                rows = expected([kk])
                if np.shape(data) == (len(rows), F) and (
                        best is None or not _near(w, data, best)):
                    best = rows
        w.check(best is not None, 'the bases of the best rank are clustered')
        rows = best
    else:
        rows = expected(sets)
    w.check(np.shape(data) == (len(rows), F), 'all nonzero bases are '
            'clustered')
    for i, row in enumerate(rows):
        for j in range(F):
            w.eq(data[i, j], row[j], 'nonzero bases of unit length')
    w.eq(m.bases_samples_, data, 'the stored bases')
    w.eq(m.bases_samples_labels_, lab, 'the stored labels')
    # consensus
    ids = []
    for v in range(max(labs[0], 0), labs[1] + 1):
        own = [i for i in range(len(rows)) if bool(lab[i] == v)]
        if own:
            ids.append(own)
    C = m.components_
    w.check(np.shape(C) == (len(ids), F), 'one component per cluster')
    w.check(m.n_components == len(ids), 'the number of components')
    if cons == 'own':
        w.check(len(used) == len(ids), 'one consensus per cluster')
    for c, own in enumerate(ids):
        if cons == 'max':
            v = [_max(w, [rows[i][j] for i in own]) for j in range(F)]
        else:
            v = [sum([rows[i][j] for i in own], 0.) for j in range(F)]
            if cons == 'own':
                v = [v[j] + rows[own[0]][j] for j in range(F)]
        v = unit(w, [q / len(own) for q in v] if cons == 'mean' else v)
        for j in range(F):
            w.eq(C[c, j], v[j], 'the unit-length consensus of the bases of '
                 'the cluster')
    w.eq(X, X0, 'the data are not modified')


def _near(w, data, rows):
    return all(w.same(data[i, j], rows[i][j]) for i in range(len(rows))
               for j in range(len(rows[0])))


def _max(w, xs):
    m = xs[0]
    for x in xs[1:]:
        m = w.ite(x > m, x, m)
    return m


def settings(w, cls):
    """Solver settings reach the solvers."""
    env = Env(w, tagged(w), lambda n: w.ints('lab', n, 0, 0))
    mod = env.L.mod(NMF)
    B = w.choose('B', [1, 2, 5])
    use = B > 1
    if cls == 'UoI_NMF':
        eps, tol = w.real('eps', .1, 2), w.real('tol', 0, 1)
        ms = w.choose('ms', [None, 1, 3])
        m = mod.UoI_NMF(n_boots=B, ranks=[2], nmf_init='nndsvd',
                        nmf_solver='cd', nmf_beta_loss='frobenius',
                        nmf_tol=tol, nmf_max_iter=77, db_eps=eps,
                        db_min_samples=ms, db_metric='cosine',
                        db_metric_params={'a': 1}, db_algorithm='brute',
                        db_leaf_size=9, use_dissimilarity=use,
                        random_state=1)
        a = dict(n_components=2, init='nndsvd', solver='cd',
                 beta_loss='frobenius', tol=tol, max_iter=77)
        b = dict(eps=eps, min_samples=max(B // 2, 1) if ms is None else ms,
                 metric='cosine', metric_params={'a': 1}, algorithm='brute',
                 leaf_size=9)
    else:
        m = mod.UoI_NMF_Base(n_boots=B, ranks=[2], use_dissimilarity=use,
                             random_state=1)
        a = dict(n_components=2, init='random', solver='mu',
                 beta_loss='kullback-leibler', max_iter=400)
        b = dict(min_samples=max(B // 2, 1))
    m.fit(w.array([[1., 2., 3.]]))
    for obj, want in ((m.nmf, a), (m.cluster, b)):
        for k, v in want.items():
            w.check(k in obj.kw and bool(obj.kw[k] == v),
                    'setting %s is passed on' % k)
    if B == 1:
        r = w.call(getattr(mod, cls), n_boots=1, ranks=[2],
                   use_dissimilarity=True)
        w.check(isinstance(r.exc, ValueError), 'dissimilarity needs two '
                'bootstraps')


def tasks(tier):
    out = []

    def add(name, **cfg):
        out.append(Task(name, run, cfg))
    for B, ranks, use in ((2, [1], True), (2, [2], True), (2, [1, 2], True),
                          (3, [1], True), (3, [2, 1], True), (2, 2, True),
                          (1, [2], False), (1, [1, 2], False), (2, 2, False),
                          (2, [1], False), (2, [2, 1], False),
                          (3, [1], False), (2, (2, 1), True)):
        nm = '%d-%s-%d' % (B, ''.join(str(ranks).split()), use)
        n = B * (max(ranks) if isinstance(ranks, (list, tuple)) else ranks)
        if not use and isinstance(ranks, list):
            n = B * sum(ranks)
        labs = (-1, 1) if n <= 4 else (-1, 0)
        add('tag-' + nm, B=B, ranks=ranks, use=use, labs=labs)
        if B < 3:
            add('zero-' + nm, B=B, ranks=ranks, use=use,
                zero={(0, 0), (3, 1)})
    for use in (True, False):
        add('none-%d' % use, B=2, ranks=None, use=use, F=3, labs=(-1, 0))
        add('rs-%d' % use, B=2, ranks=[1], use=use, how='state')
        add('given-%d' % use, B=2, ranks=[2], use=use, give=True,
            labs=(1, 2) if use else (-1, 0))
        for cons in ('own', 'max'):
            add('%s-%d' % (cons, use), B=2, ranks=[2], use=use, cons=cons)
        add('gap-%d' % use, B=2, ranks=[1], use=use, labs=(-1, 4))
        add('neg-%d' % use, B=2, ranks=[1], use=use, neg=True, F=3)
        add('base-%d' % use, B=2, ranks=[1], use=use, cls='UoI_NMF_Base')
        add('N2-%d' % use, B=2, ranks=[1], use=use, N=2, labs=(0, 0))
        add('N2r-%d' % use, B=2, ranks=[2, 1], use=use, N=2, labs=(0, 0),
            how='state')
        add('N3-%d' % use, B=2, ranks=[1], use=use, N=3, F=1, labs=(0, 0))
        add('F3-%d' % use, B=2, ranks=[1], use=use, F=3)
        add('sym-%d' % use, B=2, ranks=[1], use=use, sym=True)
    add('sym-2', B=1, ranks=[2], use=False, sym=True)
    if tier != 'quick':
        add('sym-3', B=1, ranks=[1, 2], use=False, sym=True)
    for cls in ('UoI_NMF', 'UoI_NMF_Base'):
        out.append(Task('set-' + cls, settings, dict(cls=cls)))
    return out

"""C02: supports are exactly the thresholded intersections."""
import itertools

import numpy as np

from vx.run import Task

ID = 'C02'
BOUNDS = ('coefficient arrays of shape (bootstraps, settings, features) up to '
          '(3,2,2), (2,3,2), (2,2,3), (3,1,3) with every real value; up to '
          'two thresholds, each any integer in 1..bootstraps or the default; '
          'one-feature, one-setting and one-threshold shapes included')
OUTSIDE = 'larger arrays'


def expected(w, coefs, thr, shape):
    """For each (threshold, setting): the row of membership conditions."""
    B, R, F = shape
    rows = []
    for t in thr:
        for r in range(R):
            row = []
            for f in range(F):
                c = 0
                for b in range(B):
                    c = c + w.ite(coefs[b, r, f] != 0, 1, 0)
                row.append(c >= t)
            rows.append(row)
    return rows


def same(w, a, b):
    return w.all([w.or_(w.and_(x, y), w.and_(w.not_(x), w.not_(y)))
                  for x, y in zip(a, b)])


def compare(w, sup, rows, F, label):
    sh = np.shape(sup)
    w.check(len(sh) == 2 and sh[1] == F, label + ': shape')
    w.check(np.asarray(sup).dtype == object or
            np.asarray(sup).dtype == bool, label + ': boolean')
    out = [[x for x in row] for row in sup]
    for o in out:
        w.check(w.any([same(w, o, r) for r in rows]),
                label + ': every support arises')
    for r in rows:
        w.check(w.any([same(w, o, r) for o in out]),
                label + ': no support is missing')
    for i, j in itertools.combinations(range(len(out)), 2):
        w.check(w.not_(same(w, out[i], out[j])), label + ': no duplicates')


def main(w, shape, nthr):
    L = w.load()
    f = L.mod('pyuoi.linear_model.utils').intersection
    B, R, F = shape
    coefs = w.reals('c', shape)
    if nthr == 0:
        thr = [B]
        sup = f(coefs)
    else:
        thr = [w.int('t%d' % i, 1, B) for i in range(nthr)]
        sup = f(coefs, w.array(thr))
    compare(w, sup, expected(w, coefs, thr, shape), F, 'supports')


def method(w, shape, cls):
    """Through the estimators' own intersect method."""
    L = w.load()
    B, R, F = shape
    t = [w.int('t0', 1, B)]
    est = getattr(L.mod('pyuoi.linear_model'), cls)(
        n_boots_sel=B, stability_selection=B)
    coefs = w.reals('c', shape)
    if cls == 'UoI_Poisson':
        est.output_dim = 1
    elif cls == 'UoI_L1Logistic':
        est.output_dim = 1
        est.shared_support = w.choose('shared', [True, False])
    sup = est.intersect(coefs, w.array(t))
    compare(w, sup, expected(w, coefs, t, shape), F, cls)


def tasks(tier):
    sh = [((1, 1, 1), 1), ((2, 1, 1), 1), ((2, 1, 1), 0), ((2, 2, 1), 1),
          ((2, 1, 2), 1), ((2, 1, 2), 2), ((2, 2, 2), 1), ((2, 2, 2), 2),
          ((3, 1, 2), 2), ((2, 2, 2), 0), ((3, 1, 3), 1)]
    if tier != 'quick':
        sh += [((3, 2, 2), 1), ((3, 2, 2), 2), ((2, 3, 2), 1),
               ((2, 2, 3), 1), ((4, 1, 2), 2), ((3, 2, 1), 2),
               ((2, 1, 4), 1)]
    out = [Task('shape%s-thr%d' % (str(s).replace(' ', ''), n), main,
                dict(shape=s, nthr=n)) for s, n in sh]
    for c in ('UoI_Lasso', 'UoI_ElasticNet', 'UoI_L1Logistic',
              'UoI_Poisson'):
        out.append(Task(c, method, dict(shape=(2, 2, 2), cls=c)))
    return out

"""C03: shared support across classes."""
import itertools

import numpy as np

from vx.run import Task

from . import fitlib
from .c02 import compare, same

ID = 'C03'
BOUNDS = ('coefficient arrays of (bootstraps, settings, outputs x features) up '
          'to (2,2,2x2), (2,1,3x2), (3,1,2x2) with every real value, every '
          'threshold; shared and separate supports; one complete fit')
OUTSIDE = 'more outputs, features or bootstraps'


def rows(w, coefs, thr, B, R, D, F, shared):
    out = []
    for t in thr:
        for r in range(R):
            row = []
            for c in range(D * F):
                n = 0
                for b in range(B):
                    n = n + w.ite(coefs[b, r, c] != 0, 1, 0)
                row.append(n >= t)
            if shared and D > 1:
                row = [w.any([row[d * F + f] for d in range(D)])
                       for f in range(F)]
            out.append(row)
    return out


def main(w, shape, D, F, shared, nthr):
    L = w.load()
    B, R = shape
    est = L.mod('pyuoi.linear_model').UoI_L1Logistic(
        n_boots_sel=B, stability_selection=B, shared_support=shared)
    est.output_dim = D
    coefs = w.reals('c', (B, R, D * F))
    thr = [w.int('t%d' % i, 1, B) for i in range(nthr)]
    sup = est.intersect(coefs, w.array(thr))
    compare(w, sup, rows(w, coefs, thr, B, R, D, F, shared),
            F if shared or D == 1 else D * F, 'supports')


def fit(w, D, F, shared):
    """Through a complete fit: the supports the estimation module uses."""
    ctx = fitlib.Ctx(w, F=F, D=D, model='logistic')
    ctx.sel_values = 'sym'
    ctx.est_values = 'zero'
    L = fitlib.loader(w, ctx)
    est = fitlib.build(w, L, ctx, 'logistic', n_boots_sel=2, n_boots_est=1,
                       shared_support=shared, regs=1)
    est.fit(ctx.X.copy(), ctx.y.copy())
    sel = [f for f in ctx.fits.values() if f.kind == 'sel']
    w.check(len(sel) == 2, 'two selection fits')
    co = np.empty((2, 1, D * F), dtype=object)
    for i, f in enumerate(sel):
        co[i, 0] = list(f.coef.ravel())
    compare(w, est.supports_, rows(w, co, [2], 2, 1, D, F, shared),
            F if shared else D * F, 'fit')


def tasks(tier):
    out = []

    def add(shape, D, F, shared, nthr):
        out.append(Task('B%dR%d-D%d-F%d-%s-t%d' % (
            *shape, D, F, 'shared' if shared else 'own', nthr), main,
            dict(shape=shape, D=D, F=F, shared=shared, nthr=nthr)))
    add((2, 1), 2, 1, True, 1)
    add((2, 1), 2, 2, True, 1)
    add((2, 1), 3, 1, True, 1)
    add((2, 2), 2, 1, True, 1)
    add((1, 1), 3, 2, True, 1)
    add((2, 1), 2, 1, True, 2)
    add((2, 1), 2, 1, False, 1)
    add((2, 1), 2, 2, False, 1)
    add((2, 1), 1, 2, True, 1)
    add((2, 1), 1, 2, False, 1)
    for D, F, s in ((2, 2, True), (3, 1, True), (2, 1, False)):
        out.append(Task('fit-D%d-F%d-%s' % (D, F, s), fit,
                        dict(D=D, F=F, shared=s)))
    if tier != 'quick':
        add((2, 2), 2, 2, True, 1)
        add((2, 1), 3, 2, True, 1)
        add((3, 1), 2, 2, True, 1)
        add((2, 1), 2, 2, True, 2)
        add((2, 2), 3, 1, True, 1)
        add((3, 2), 2, 1, True, 2)
        add((2, 1), 2, 3, True, 1)
    return out

"""C26: dissimilarity of two sets of bases."""
import itertools

import numpy as np

from vx.core import Unsupported
from vx.run import Task

from .curlib import UTIL

ID = 'C26'
BOUNDS = ('every real non-negative, nonzero pair of base sets of 1-2 bases x '
          '1-3 features (3 bases x 2 features for the formula), every '
          'permutation, every positive rescaling of every base')
OUTSIDE = ('rounding of double arithmetic (the range holds up to 1e-9); more '
           'bases and features')
EPS = 1e-9


def bases(w, name, k, F, lo=0):
    H = w.reals(name, (k, F), lo, 4)
    for i in range(k):
        s = 0.
        for j in range(F):
            s = s + H[i, j]
        w.assume(s > .05)
    return H


def cosines(w, A, B, cs=False):
    k, F = A.shape
    C = [[None] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            d = a = b = 0.
            for t in range(F):
                d = d + A[i, t] * B[j, t]
                a = a + A[i, t] * A[i, t]
                b = b + B[j, t] * B[j, t]
            n = w.sqrt(a) * w.sqrt(b)
            C[i][j] = d / n
            if cs:
                # the Cauchy-Schwarz inequality, for the solver
                w.assume(C[i][j] <= 1 + EPS / 4)
                w.assume(C[i][j] >= 0)
    return C


def big(w, xs):
    m = xs[0]
    for x in xs[1:]:
        m = w.ite(x > m, x, m)
    return m


def formula(w, k, F):
    w.linear()
    f = w.load().mod(UTIL).dissimilarity
    A, B = bases(w, 'A', k, F), bases(w, 'B', k, F)
    A0, B0 = A.copy(), B.copy()
    C = cosines(w, A0, B0)
    s = 0.
    for i in range(k):
        s = s + big(w, [C[i][j] for j in range(k)])
        s = s + big(w, [C[j][i] for j in range(k)])
    r = w.call(f, A, B)
    w.check(r.ok, 'computed', repr(r.exc))
    w.eq(r.value, 1 - s / (2. * k), 'one minus the average best cosine')
    w.eq(A, A0, 'bases are not modified')
    w.eq(B, B0, 'bases are not modified')


def laws(w, k, F, law):
    w.linear()
    f = w.load().mod(UTIL).dissimilarity
    A = bases(w, 'A', k, F)
    if law == 'self':
        cosines(w, A, A, cs=True)
        w.check(abs(f(A, A.copy())) <= EPS, 'zero against itself')
        return
    B = bases(w, 'B', k, F)
    if law == 'range':
        cosines(w, A, B, cs=True)
        r = f(A, B)
        w.check(r >= -EPS, 'never negative')
        w.check(r <= 1 + EPS, 'never above one')
        return
    d = f(A, B)
    if law == 'sym':
        w.eq(f(B, A), d, 'symmetric')
    elif law == 'perm':
        for p in itertools.permutations(range(k)):
            w.eq(f(A[list(p)], B), d, 'unaffected by the order of bases')
            w.eq(f(A, B[list(p)]), d, 'unaffected by the order of bases')
    elif law == 'scale':
        s = w.reals('s', k, .2, 5)
        t = w.reals('t', k, .2, 5)
        w.eq(f(A * s[:, np.newaxis], B * t[:, np.newaxis]), d,
             'unaffected by the scale of bases')


def tasks(tier):
    out = []
    sizes = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)]
    if tier != 'quick':
        sizes += [(3, 2), (3, 3), (2, 4)]
    for k, F in sizes + [(3, 2)]:
        out.append(Task('formula-%dx%d' % (k, F), formula, dict(k=k, F=F)))
    for law in ('self', 'range', 'sym', 'perm', 'scale'):
        for k, F in sizes:
            out.append(Task('%s-%dx%d' % (law, k, F), laws,
                            dict(k=k, F=F, law=law)))
    return out

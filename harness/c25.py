"""C25: rank and column-count settings of the column subset selection."""
import numpy as np

from vx.core import Unsupported
from vx.run import Task

from .curlib import CUR, Env

ID = 'C25'
BOUNDS = ('every integer or real value of every entry, for nothing, scalars, '
          'lists, integer and float arrays of 1-3 entries and unsupported '
          'types, maximum ranks 1..6; acceptance, expansion and refusal')
OUTSIDE = 'numpy scalar types, nested lists; longer lists'

OTHER = {'str': 'x', 'tuple': (1, 2), 'dict': {1: 2}, 'strings': ['a'],
         'nones': [None], 'set': {1}}


def give(w, name, kind, n):
    """(value passed, entries, type ok)"""
    if kind in OTHER:
        return OTHER[kind], None, False
    if kind == 'none':
        return None, None, True
    if kind == 'int':
        v = w.int(name, -3, 9)
        return v, [v], True
    if kind == 'float':
        v = w.real(name, -3, 9)
        return v, [v], True
    f = {'i': w.int, 'f': w.real}[kind[-1]]
    vs = [f(name + str(i), -3, 9) for i in range(n)]
    if kind[:-1] == 'list':
        return list(vs), vs, True
    a = w.array(vs)
    return a, vs, True


def run(w, kk, nk, ck, nc, via):
    env = Env(w, lambda k, n, X: w.array(np.ones((n, X.shape[1]))))
    U = env.L.mod(CUR).UoI_CUR
    mk = w.choose('max_k', [1, 3, 6])
    m = U(1, mk, 1, stability_selection=1, random_state=3)
    ks, kv, kok = give(w, 'k', kk, nk)
    cs, cv, cok = give(w, 'c', ck, nc)
    ok = kok and cok
    if kok and kk != 'none':
        if kk in ('float', 'listf', 'arrayf'):
            ok = False
        else:
            for v in kv:
                ok = ok and bool(w.and_(v >= 1, v <= mk))
    n = mk if kk == 'none' else nk
    if ok and ck != 'none':
        for v in cv:
            ok = ok and bool(v > 0)
        if ck not in ('int', 'float'):
            ok = ok and nc == n
    if via == 'fit':
        X = w.array([[1., 2.], [3., 4.]])
        if kv is not None and ok:
            # whole fits slice by the rank
            kv = [w.choose('rank%d' % i, list(range(1, mk + 1)))
                  for i in range(nk)]
            ks = kv[0] if kk == 'int' else list(kv) if kk == 'listi' else \
                w.array(kv)
        r = w.call(m.fit, X, ks=ks, cs=cs)
    else:
        if not hasattr(m, 'check_ks_and_cs'):
            raise Unsupported('no check_ks_and_cs')
        r = w.call(m.check_ks_and_cs, ks=ks, cs=cs)
    if not ok:
        w.check(r.exc is not None, 'invalid settings are refused')
        w.check(isinstance(r.exc, ValueError), 'refused with a ValueError',
                repr(r.exc))
        return
    w.check(r.ok, 'valid settings are accepted', repr(r.exc))
    if via == 'fit':
        return
    gk, gc = r.value
    want = [1 + i for i in range(mk)] if kk == 'none' else kv
    w.check(np.shape(gk) == (len(want),), 'one entry per rank')
    w.check(np.shape(gc) == (len(want),), 'one count per rank')
    for i, v in enumerate(want):
        w.eq(gk[i], v, 'the ranks')
        w.eq(gc[i], v + 20 if ck == 'none' else
             cv[0] if ck in ('int', 'float') else cv[i], 'the counts')


def tasks(tier):
    out = []
    K = [('none', 0), ('int', 1), ('float', 1)] + [(t, n) for t in (
        'listi', 'listf', 'arrayi', 'arrayf') for n in (1, 2, 3)] + \
        [(t, 0) for t in OTHER]
    C = [('none', 0), ('int', 1), ('float', 1)] + [(t, n) for t in (
        'listi', 'listf', 'arrayi', 'arrayf') for n in (1, 2, 3)] + \
        [(t, 0) for t in OTHER]
    for kk, nk in K:
        for ck, nc in C:
            big = tier != 'quick'
            kb = kk in ('none', 'int') or (kk == 'listi' and nk == 2)
            cb = ck in ('none', 'float') or (ck == 'listf' and nc == 2)
            if not (kb or cb or big):
                continue
            out.append(Task('%s%d-%s%d' % (kk, nk, ck, nc), run, dict(
                kk=kk, nk=nk, ck=ck, nc=nc, via='check')))
            if (kk, ck) in (('none', 'none'), ('int', 'float'),
                            ('listi', 'listf'), ('listf', 'none'),
                            ('strings', 'none'), ('int', 'strings'),
                            ('str', 'int'), ('int', 'str')) and \
                    nk < 3 and nc < 3:
                out.append(Task('fit-%s%d-%s%d' % (kk, nk, ck, nc), run, dict(
                    kk=kk, nk=nk, ck=ck, nc=nc, via='fit')))
    return out

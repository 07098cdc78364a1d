"""C01: stability-selection settings -> bootstrap counts (double arithmetic
decided in the floating-point theory)."""
import numpy as np

from vx.run import Task

ID = 'C01'
BOUNDS = ('every double of magnitude up to 1e6 (scalar; two independent doubles in a list or '
          'array), every 64-bit-safe integer setting, bootstrap counts '
          '1..12 (quick) / 1..48 (thorough); double products are IEEE '
          'round-to-nearest in the solver')
OUTSIDE = 'bootstrap counts above the bound; lists longer than two entries'

FN = {'lm': ('pyuoi.linear_model.utils', 'stability_selection_to_threshold'),
      'dec': ('pyuoi.decomposition.utils',
              'stability_selection_to_threshold')}


def get(w, which):
    m, n = FN[which]
    return getattr(w.load().mod(m), n)


def verdict(w, r, ps, n, label):
    """ps: exact values whose integer parts are the expected counts."""
    valid = w.all([w.and_(p >= 1, p < n + 1) for p in ps])
    if valid:
        w.check(r.exc is None, label + ': accepted')
        v = r.value
        v = list(v) if np.ndim(v) else [v]
        w.check(len(v) == len(ps), label + ': one count per setting')
        for t, p in zip(v, ps):
            w.check(w.and_(p >= t, p < t + 1),
                    label + ': count is the integer part')
    else:
        w.check(isinstance(r.exc, ValueError),
                label + ': out-of-range setting is a ValueError')


def finite(w, f):
    w.assume(w.and_(f >= -1e6, f <= 1e6))
    return f


def frac(w, which, ns):
    n = w.choose('n', ns)
    f = finite(w, w.double('f'))
    r = w.call(get(w, which), f, n)
    verdict(w, r, [f * n], n, 'fraction')


def integer(w, which, ns):
    n = w.choose('n', ns)
    k = w.int('k', -2 ** 40, 2 ** 40)
    r = w.call(get(w, which), k, n)
    verdict(w, r, [k], n, 'count')


def seq(w, kind, ns):
    n = w.choose('n', ns)
    fn = get(w, 'lm')
    if kind in ('flist', 'farray'):
        fs = [finite(w, w.double('f0')), finite(w, w.double('f1'))]
        s = fs if kind == 'flist' else w.array(fs)
        r = w.call(fn, s, n)
        verdict(w, r, [f * n for f in fs], n, kind)
    else:
        k = [w.int('k0', -2 ** 40, 2 ** 40), w.int('k1', -2 ** 40, 2 ** 40)]
        s = k if kind == 'ilist' else w.array(k)
        r = w.call(fn, s, n)
        verdict(w, r, k, n, kind)


def other(w):
    L = w.load()
    a = L.mod(FN['lm'][0]).stability_selection_to_threshold
    b = L.mod(FN['dec'][0]).stability_selection_to_threshold
    n = w.choose('n', [1, 7])
    bad = w.choose('bad', ['1', None, [1, 0.5], ['1'], {'a': 1},
                           [0.5, None]])
    w.check(isinstance(w.call(a, bad, n).exc, ValueError),
            'other kinds are a ValueError')
    w.check(isinstance(w.call(b, bad, n).exc, ValueError),
            'other kinds are a ValueError (CUR)')
    bada = np.array(w.choose('bada', [['1', '2'], [True, False]]))
    w.check(isinstance(w.call(a, bada, n).exc, ValueError),
            'non-numeric arrays are a ValueError')


def estimators(w, cls, ns):
    """Through the constructors."""
    L = w.load()
    lm = L.mod('pyuoi.linear_model')
    n = w.choose('n', ns)
    f = finite(w, w.double('f'))
    r = w.call(getattr(lm, cls), n_boots_sel=n, n_boots_est=3,
               stability_selection=f)
    if r.ok:
        r.value = r.value.selection_thresholds_
    verdict(w, r, [f * n], n, cls)


def tasks(tier):
    N = 12 if tier == 'quick' else 48
    ns = list(range(1, N + 1))
    out = []
    for which in ('lm', 'dec'):
        for i in range(0, N, 4):
            out.append(Task('frac-%s-%d' % (which, ns[i]), frac,
                            dict(which=which, ns=ns[i:i + 4])))
        out.append(Task('int-%s' % which, integer, dict(which=which, ns=ns)))
    for kind in ('flist', 'farray'):
        for n in ([1, 3, 5] if tier == 'quick' else [1, 2, 3, 5, 7, 10, 12]):
            out.append(Task('%s-%d' % (kind, n), seq,
                            dict(kind=kind, ns=[n])))
    for kind in ('ilist', 'iarray'):
        out.append(Task(kind, seq, dict(kind=kind, ns=[1, 2, 3, 5, 12])))
    out.append(Task('other', other))
    for c in ('UoI_Lasso', 'UoI_ElasticNet', 'UoI_L1Logistic',
              'UoI_Poisson'):
        out.append(Task(c, estimators, dict(cls=c, ns=[1, 3, 10])))
    return out

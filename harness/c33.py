"""C33: synthetic data generators."""
import numpy as np

from vx.core import Unsupported
from vx.rngsim import Source
from vx.run import Task

from .c17 import expo
from .fitlib import _flat

ID = 'C33'
BOUNDS = ('1-3 samples, 1-4 features, every number of informative features, '
          '2-4 classes; every value of every random draw (normal, uniform, '
          'gamma, Poisson, Bernoulli, categorical, every shuffle), every '
          'location, scale, signal-to-noise ratio and given coefficient')
OUTSIDE = ('the distributions of numpy\'s generators; rounding; zero draws '
           'of coefficients (probability zero); larger shapes')
MOD = 'pyuoi.datasets'


def start(w, seed='int', fixed=None):
    src = Source(w)
    src.fixed = fixed

    def nonzero(kind, v):
        if kind == 'g':
            w.assume(w.or_(v > 1. / 64, v < -1. / 64))
    src.limit = nonzero
    L = w.load(overrides=src.overrides())
    if seed == 'int':
        rs, key = 5, ('seed', 5)
    elif seed == 'numpy':
        rs, key = np.int64(5), ('seed', 5)
    elif seed == 'state':
        rs, key = src.state(('caller',), 3), ('caller',)
    else:
        rs, key = None, None
    return src, L.mod(MOD), rs, key


def stream(w, src, key):
    """Only the given state is used, each draw once."""
    if key is not None:
        w.check(all(e[0] == key for e in src.log), 'only the given state is '
                'used')
    w.check(len({e[0] for e in src.log}) <= 1, 'one source of randomness')
    at = [(e[0], e[1]) for e in src.log]
    w.check(len(set(at)) == len(at), 'draws are not reused')


def sized(w, v, shape, label):
    w.check(np.shape(v) == shape, label, str(np.shape(v)))


class Draws:
    """Matches results with draws; every draw is used once."""

    def __init__(self, w, src):
        self.w, self.src = w, src
        self.free = [(e, src.args.get((e[0], e[1]))) for e in src.log]

    def take(self, kind, got, make, label, params=None):
        """`got` must be make(draw) for an unused draw of that kind (with
        the given parameters)."""
        w = self.w
        cand = [q for q in self.free if q[0][2] == kind]
        hit = None
        for q in cand:
            if params is None or self.fits(q[1], params):
                if w.same(got, make(q[0][3])):
                    hit = q
                    break
                if hit is None and params is not None:
                    hit = q
        if not cand:
            if not self.free:
                w.check(False, label, 'no draw left')
            raise Unsupported('unexpected kind of draws')
        q = hit or cand[0]
        w.eq(got, make(q[0][3]), label)
        if params is not None:
            w.eq(np.shape(q[1]), np.shape(params), label)
            for a, b in zip(_flat(q[1]), _flat(params)):
                w.eq(a, b, label)
        self.free.remove(q)
        return q

    def fits(self, a, b):
        a, b = list(_flat(a)), list(_flat(b))
        return len(a) == len(b) and all(self.w.same(x, y)
                                        for x, y in zip(a, b))


def dot(w, row, beta):
    s = 0.
    for a, b in zip(row, beta):
        s = s + a * b
    return s


def sparsity(w, beta, informative, F, make, dr, kind, label):
    """Exactly `informative` entries are nonzero, and they are draws."""
    nz = [j for j in range(F) if not w.same(beta[j], 0.)]
    w.check(len(nz) == min(informative, F), 'the requested number of '
            'informative features')
    for j in nz:
        dr.take(kind, beta[j], make, label)
    return nz


def regression(w, fn, n, F, inf, given=False, icpt=False, seed='int',
               default=False):
    src, mod, rs, key = start(w, seed)
    kw = dict(n_samples=n, n_features=F, n_informative=inf,
              include_intercept=icpt, random_state=rs)
    lin = fn == 'make_linear_regression'
    if default:
        loc, scale = (3., 1.) if lin else (0., .125)
        lo, hi, snr, shape, bscale = 1., 3., 5., 1., 3.
    else:
        loc = kw['X_loc'] = w.real('loc', -4, 4)
        scale = kw['X_scale'] = w.real('scale', .25, 4)
        if lin:
            lo = kw['beta_low'] = w.real('lo', .25, 2)
            hi = kw['beta_high'] = w.real('hi', 3, 5)
            snr = kw['snr'] = w.real('snr', .25, 8)
        else:
            shape = kw['beta_shape'] = w.real('shape', .5, 2)
            bscale = kw['beta_scale'] = w.real('bscale', .5, 2)
    given_b = given_0 = None
    if given:
        given_b = kw['beta'] = w.reals('beta', F, -2, 2)
        given_0 = given_b.copy()
    X, y, beta, b = getattr(mod, fn)(**kw)
    stream(w, src, key)
    sized(w, X, (n, F), 'design shape')
    sized(w, y, (n,), 'response shape')
    sized(w, beta, (F,), 'coefficient shape')
    w.check(np.ndim(b) == 0, 'scalar intercept')
    dr = Draws(w, src)
    for i in range(n):
        for j in range(F):
            dr.take('g', X[i, j], lambda g: loc + scale * g,
                    'features have the requested location and scale')
    if given:
        w.eq(beta, given_0, 'given coefficients are used unchanged')
        w.eq(given_b, given_0, 'given coefficients are not modified')
    elif lin:
        sparsity(w, beta, inf, F, lambda u: lo + (hi - lo) * u, dr, 'u',
                 'coefficients within the requested range')
    else:
        sparsity(w, beta, inf, F, lambda g: bscale * g, dr, 'ga',
                 'coefficients with the requested scale')
    if icpt:
        if lin:
            dr.take('u', b, lambda u: lo + (hi - lo) * u,
                    'intercept within the requested range')
        else:
            dr.take('ga', b, lambda g: bscale * g,
                    'intercept with the requested scale')
    else:
        w.eq(b, 0., 'no intercept')
    if not lin:
        for (e, a) in [(e, src.args.get((e[0], e[1]))) for e in src.log]:
            if e[2] == 'ga':
                w.eq(a[0], shape, 'the requested shape')
    eta = [b + dot(w, [X[i, j] for j in range(F)],
                   [beta[j] for j in range(F)]) for i in range(n)]
    if lin:
        mean = sum(eta, 0.) / n
        var = sum([(e - mean) * (e - mean) for e in eta], 0.) / n
        sd = w.sqrt(var / snr)
        for i in range(n):
            dr.take('g', y[i], lambda g: eta[i] + sd * g,
                    'signal plus noise of the requested variance')
    else:
        for i in range(n):
            dr.take('po', y[i], lambda k: k,
                    'counts with rate exp of the signal',
                    [expo(w, eta[i])])


def grid(n, F, at):
    """A fixed design whose rows are standard already."""
    def fixed(key, pos, kind):
        if kind == 'g' and pos - at < n * F:
            i, j = divmod(pos - at, F)
            return float((1 - 2 * (j % 2)) * (1 - 2 * (i % 2)) *
                         (-1 if F > 2 and i == 1 and j < 2 else 1))
    return fixed


def classification(w, n, F, inf, K, shared=False, icpt=False, seed='int',
                   scale=None, freeX=False):
    src, mod, rs, key = start(w, seed, None if freeX else grid(
        n, F, 3 if seed == 'state' else 0))
    if freeX:
        w.linear()
    kw = dict(n_samples=n, n_features=F, n_informative=inf, n_classes=K,
              shared_support=shared, include_intercept=icpt, random_state=rs)
    sc = 1.
    if scale is not None:
        sc = kw['w_scale'] = w.real('w_scale', .25, 4)
    if freeX:
        # (rows are not constant: their deviation would be zero)
        for i in range(n):
            a = src.value(key, i * F, 'g', -9, 9)
            b = src.value(key, i * F + 1, 'g', -9, 9)
            w.assume(a > b + .125)
    X, y, W, b = mod.make_classification(**kw)
    stream(w, src, key)
    cols = K if K > 2 else 1
    sized(w, X, (n, F), 'design shape')
    sized(w, y, (n,), 'response shape')
    sized(w, W, (cols, F), 'coefficient shape')
    sized(w, b, (1, cols), 'intercept shape')
    dr = Draws(w, src)
    if freeX:
        for i in range(n):
            row = [src.value(key, i * F + j, 'g', -9, 9) for j in range(F)]
            mean = sum(row, 0.) / F
            var = sum([(v - mean) * (v - mean) for v in row], 0.) / F
            sd = w.sqrt(var)
            for j in range(F):
                w.eq(X[i, j], (row[j] - mean) / sd, 'rows are standardized')
        dr.free = [q for q in dr.free if not (q[0][2] == 'g' and
                                              q[0][1] < n * F)]
    zeros = []
    for c in range(cols):
        z = [j for j in range(F) if w.same(W[c, j], 0.)]
        w.check(len(z) == max(F - inf, 0), 'the requested number of zeroed '
                'features')
        zeros.append(z)
        for j in range(F):
            if j not in z:
                dr.take('g', W[c, j], lambda g: sc * g,
                        'coefficients with the requested scale')
    if shared:
        w.check(all(z == zeros[0] for z in zeros), 'shared support')
    perms = [e for e in src.log if e[2] == 'p']
    if not shared and K > 2 and inf < F and perms:
        w.check(len(perms) == K, 'supports are drawn for each class')
    if not icpt:
        w.eq(b, np.zeros((1, cols)), 'no intercept')
    elif K == 2:
        dr.take('g', b[0, 0], lambda g: g, 'the intercept is drawn')
    else:
        # (draws, shifted by the same amount)
        gs = [e for e in src.log if e[2] == 'g']
        hit = False
        for t in range(len(gs) - K + 1):
            hit = hit or all(w.same(
                b[0, c] - b[0, 0], gs[t + c][3] - gs[t][3])
                for c in range(1, K))
        if not hit and not w.sym:
            hit = False
        w.check(hit, 'intercepts are drawn for each class')
    for i in range(n):
        eta = [b[0, c] + dot(w, [X[i, j] for j in range(F)],
                             [W[c, j] for j in range(F)])
               for c in range(cols)]
        if K == 2:
            p = 1 / (1 + expo(w, -eta[0]))
            dr.take('bi', y[i], lambda k: k, 'labels drawn with the '
                    'probability of the model', [1, p])
        else:
            es = [expo(w, e - eta[0]) for e in eta]
            tot = sum(es, 0.)
            dr.take('mu', y[i], lambda k: k, 'labels drawn with the '
                    'probability of the model', [1] + [e / tot for e in es])


def tasks(tier):
    out = []

    def add(name, fn, **cfg):
        out.append(Task(name, fn, cfg))

    def reg(name, fn, **cfg):
        out.append(Task(name, regression, dict(cfg, fn=fn)))
    dims = [(1, 1, 1), (1, 1, 0), (2, 1, 1), (2, 2, 1), (2, 2, 0), (2, 2, 2),
            (3, 2, 1), (2, 3, 1), (2, 3, 2), (1, 4, 2)]
    if tier != 'quick':
        dims += [(3, 3, 2), (2, 4, 3), (4, 2, 1), (1, 5, 3)]
    for fn in ('make_linear_regression', 'make_poisson_regression'):
        t = fn[5:8]
        for n, F, inf in dims:
            for icpt in (False, True):
                reg('%s-%d-%d-%d-%d' % (t, n, F, inf, icpt), fn, n=n, F=F,
                    inf=inf, icpt=icpt)
        for icpt in (False, True):
            reg('%s-given-%d' % (t, icpt), fn, n=2, F=2, inf=1, given=True,
                icpt=icpt)
            reg('%s-default-%d' % (t, icpt), fn, n=2, F=2, inf=1,
                default=True, icpt=icpt)
        for seed in ('numpy', 'state', 'none'):
            reg('%s-seed-%s' % (t, seed), fn, n=2, F=2, inf=1, seed=seed,
                icpt=True)
    for K in (2, 3):
        for n, F, inf in ((1, 2, 1), (2, 2, 1), (2, 2, 2), (1, 2, 0),
                          (1, 4, 2), (3, 2, 1)):
            if K == 3 and n == 3:
                continue
            for icpt in (False, True):
                for shared in (False, True):
                    if shared and K == 2 and n > 1 or F == 4 and K == 3 and \
                            not shared and tier == 'quick':
                        continue
                    add('class-%d-%d-%d-%d-%d-%d' % (K, n, F, inf, icpt,
                                                     shared),
                        classification, n=n, F=F, inf=inf, K=K, shared=shared,
                        icpt=icpt)
        add('class-scale-%d' % K, classification, n=1, F=2, inf=1, K=K,
            scale=1, icpt=True)
        for seed in ('numpy', 'state', 'none'):
            add('class-seed-%d-%s' % (K, seed), classification, n=1, F=2,
                inf=1, K=K, seed=seed)
    add('class-4', classification, n=1, F=2, inf=1, K=4, shared=True,
        icpt=True)
    add('class-free-2', classification, n=1, F=2, inf=1, K=2, freeX=True)
    add('class-free-3', classification, n=1, F=3, inf=2, K=2, freeX=True,
        icpt=True)
    add('class-free-m', classification, n=1, F=2, inf=1, K=3, freeX=True,
        shared=True)
    return out

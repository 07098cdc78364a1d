"""C29: the optimizer wrapper forwards options and reports outcomes."""
import warnings

import numpy as np

from vx import native
from vx.core import Control
from vx.run import Task
from vx.world import _flat

ID = 'C29'
NATIVE = True        # the compiled wrapper runs in the workers
BOUNDS = ('every value of every option (integers within a C int, reals); '
          'every return code of lbfgs.h and four codes outside it; start '
          'vectors of up to 4 entries in 8 layouts; up to 3 objective and 2 '
          'progress calls, each with every argument symbolic and a failure '
          'at any one of them')
OUTSIDE = ('the native code itself (C30-C32): here it is an arbitrary '
           'script; integers beyond a C int; vectors too long for a C int')

PARAM_OF = dict(
    LBFGSERR_INVALID_EPSILON='epsilon', LBFGSERR_INVALID_TESTPERIOD='past',
    LBFGSERR_INVALID_DELTA='delta', LBFGSERR_INVALID_LINESEARCH='linesearch',
    LBFGSERR_INVALID_MINSTEP='min_step', LBFGSERR_INVALID_MAXSTEP='max_step',
    LBFGSERR_INVALID_FTOL='ftol', LBFGSERR_INVALID_WOLFE='wolfe',
    LBFGSERR_INVALID_GTOL='gtol', LBFGSERR_INVALID_XTOL='xtol',
    LBFGSERR_INVALID_MAXLINESEARCH='max_linesearch',
    LBFGSERR_INVALID_ORTHANTWISE='orthantwise_c',
    LBFGSERR_INVALID_ORTHANTWISE_START='orthantwise_start',
    LBFGSERR_INVALID_ORTHANTWISE_END='orthantwise_end')
SAYS = dict(
    LBFGSERR_CANCELED='cancel', LBFGSERR_ROUNDING_ERROR='ounding',
    LBFGSERR_MINIMUMSTEP='min_step', LBFGSERR_MAXIMUMSTEP='max_step',
    LBFGSERR_MAXIMUMLINESEARCH='evaluations',
    LBFGSERR_MAXIMUMITERATION='iterations', LBFGSERR_WIDTHTOOSMALL='xtol',
    LBFGSERR_INCREASEGRADIENT='increases', LBFGSERR_INVALID_N='variables',
    LBFGSERR_OUTOFINTERVAL='interval')
SUCCESS = ('LBFGS_SUCCESS', 'LBFGS_STOP', 'LBFGS_ALREADY_MINIMIZED')
WARNS = ('LBFGSERR_ROUNDING_ERROR', 'LBFGSERR_MAXIMUMLINESEARCH',
         'LBFGSERR_MAXIMUMITERATION')
# the return codes the documentation of the native library lists
NAMES = sorted(set(PARAM_OF) | set(SAYS) | set(SUCCESS) | set(WARNS) | {
    'LBFGS_ALLZERO', 'LBFGSERR_UNKNOWNERROR', 'LBFGSERR_LOGICERROR',
    'LBFGSERR_OUTOFMEMORY', 'LBFGSERR_INVALID_N_SSE',
    'LBFGSERR_INVALID_X_SSE', 'LBFGSERR_INCORRECT_TMINMAX',
    'LBFGSERR_INVALIDPARAMETERS'})
SEARCH = dict(default='LBFGS_LINESEARCH_DEFAULT',
              morethuente='LBFGS_LINESEARCH_MORETHUENTE',
              armijo='LBFGS_LINESEARCH_BACKTRACKING_ARMIJO',
              wolfe='LBFGS_LINESEARCH_BACKTRACKING_WOLFE',
              strongwolfe='LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE')
DEFAULTS = dict(orthantwise_c=0, orthantwise_start=0, orthantwise_end=-1,
                epsilon=1e-5, past=0, delta=0., max_iterations=0,
                max_linesearch=20, min_step=1e-20, max_step=1e20, ftol=1e-4,
                wolfe=.9, gtol=.9, xtol=1e-30)


def prepare():
    from vx import pyx
    for f in (native.build, lambda: pyx.translate(native.pyx_path())):
        try:
            f()
        except BaseException:
            pass


class Run:
    """One call of the wrapper; ok/value or the exception."""

    def __init__(self, w, N, f, *a, **k):
        self.exc = self.value = None
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            try:
                self.value = f(*a, **k)
            except BaseException as ex:
                if isinstance(ex, Control):
                    raise
                self.exc = ex
        N.done()
        self.warned = [r for r in rec if not issubclass(
            r.category, DeprecationWarning)]


def setup(w):
    N = native.make(w)
    L = w.load()
    L.native = N
    LB = L.mod('pyuoi.lbfgs')
    LL = L.mod('pyuoi.lbfgs._lowlevel')
    return N, LB, LL


def f0(x, g, *a):
    g[:] = 0.
    return 0.


def t_defaults(w):
    N, LB, LL = setup(w)
    got = []
    N.script = lambda c: got.append(c.p) or 0
    r = Run(w, N, LB.fmin_lbfgs, f0, np.array([1., 2.]))
    w.check(r.exc is None, 'a plain minimization runs', repr(r.exc))
    w.check(len(got) == 1, 'one native call')
    for k, v in DEFAULTS.items():
        w.eq(got[0][k], v, 'documented default of %s' % k, tol=0)
    w.check(got[0]['linesearch'] == native.codes()[SEARCH['default']],
            'default line search')


def t_options(w, kind):
    N, LB, LL = setup(w)
    got = []
    N.script = lambda c: got.append(c.p) or 0
    cs = native.codes()
    opt = {}
    for k, t in native.FIELDS:
        if k == 'linesearch':
            continue
        if t == 'i':
            opt[k] = w.int(k, -10 ** 6, 10 ** 6)
        elif kind == 'int':
            opt[k] = w.int(k, -100, 10 ** 6)
        else:
            opt[k] = w.real(k, -1e6, 1e6)
    ls = w.choose('line_search', sorted(SEARCH))
    r = Run(w, N, LB.fmin_lbfgs, f0, np.array([1., 2.]), line_search=ls,
            **opt)
    c = opt['orthantwise_c']
    if bool(c < 0):
        w.check(r.exc is not None and not got,
                'a negative L1 weight is refused')
        return
    w.check(r.exc is None and len(got) == 1, 'one native call', repr(r.exc))
    for k, v in opt.items():
        w.eq(got[0][k], v, '%s reaches its own field' % k, tol=1e-12)
    want = cs[SEARCH[ls]]
    warn = False
    if bool(c > 0):
        want = cs[SEARCH['wolfe']]
        warn = ls not in ('wolfe', 'default')
    w.check(got[0]['linesearch'] == want, 'line search reaches its field',
            '%s %s' % (ls, got[0]['linesearch']))
    w.check(bool(len(r.warned)) == warn,
            'a warning exactly when the line search is replaced')


def t_badsearch(w):
    N, LB, LL = setup(w)
    N.script = lambda c: 0
    nm = w.choose('name', ['', 'Wolfe', 'bfgs', None, 2])
    r = Run(w, N, LB.fmin_lbfgs, f0, np.array([1., 2.]), line_search=nm)
    w.check(r.exc is not None and N.calls == 0,
            'an unknown line search is refused')


def t_props(w):
    """The class' own settings: each one its own field, readable again."""
    N, LB, LL = setup(w)
    cs = native.codes()
    k = w.choose('field', [f for f, _ in native.FIELDS])
    t = dict(native.FIELDS)[k]
    got = []
    N.script = lambda c: got.append(c.p) or 0
    o = LL.LBFGS()
    if k == 'linesearch':
        nm = w.choose('name', sorted(SEARCH))
        o.linesearch = nm
        v = cs[SEARCH[nm]]
    else:
        v = w.int('v', -10 ** 6, 10 ** 6) if t == 'i' else w.real('v')
        setattr(o, k, v)
    w.eq(getattr(o, k), v, '%s reads back' % k)
    r = Run(w, N, o.minimize, f0, np.array([1., 2.]))
    w.check(r.exc is None and len(got) == 1, 'one native call', repr(r.exc))
    for f, _ in native.FIELDS:
        w.eq(got[0][f], v if f == k else native.sentinel(f),
             'setting %s changes only %s' % (k, f))


def layouts(w, which):
    """(x0, its values in index order, shape of the answer)."""
    if which in ('vec', 'one'):
        n = 3 if which == 'vec' else 1
        x = w.reals('x', n)
        return x, (n,)
    if which == 'mat':
        return w.reals('x', (2, 2)), (2, 2)
    if which == 'col':
        return w.reals('x', (3, 1)), (3, 1)
    if which == 'transposed':
        return w.reals('x', (2, 2)).T, (2, 2)
    if which == 'strided':
        return w.reals('x', (4,))[::2], (2,)
    if which == 'reversed':
        return w.reals('x', (3,))[::-1], (3,)
    if which == 'ints':
        return w.ints('x', (3,), -1000, 1000), (3,)
    if which == 'list':
        return [w.real('x%d' % i) for i in range(2)], (2,)
    if which == 'nested':
        return [[w.real('x%d' % i)] for i in range(2)], (2, 1)
    if which == 'scalar':
        return w.real('x'), (1,)
    raise KeyError(which)


LAYOUTS = ('vec', 'one', 'mat', 'col', 'transposed', 'strided', 'reversed',
           'ints', 'list', 'nested', 'scalar')


def t_start(w, layout):
    """The start vector arrives, is copied, and the answer has its shape."""
    N, LB, LL = setup(w)
    x0, shape = layouts(w, layout)
    vals = _flat(np.atleast_1d(x0) if not w.sym else x0)
    vals = list(vals)
    fin = [w.real('z%d' % i) for i in range(len(vals))]
    start, seen, ns = [], [], []

    def f(x, g):
        seen.append((np.shape(x), np.shape(g), list(_flat(x))))
        g[...] = 0.
        return 1.

    def script(c):
        ns.append(c.n)
        start.append(c.x.get(c.n))
        g = c.buf()
        c.eval(c.x, g, 0.)
        c.x.set(fin)
        c.eval(c.x, g, 0.)
        return 0
    N.script = script
    r = Run(w, N, LB.fmin_lbfgs, f, x0)
    w.check(r.exc is None, 'the minimization runs', repr(r.exc))
    w.check(ns == [len(vals)], 'number of variables')
    w.eq(start[0], vals, 'the native start is the given vector')
    w.check(all(s[0] == shape and s[1] == shape for s in seen),
            'callbacks see the shape of the start vector')
    w.eq(seen[0][2], vals, 'the objective sees the start vector')
    w.eq(seen[1][2], fin, 'the objective sees the current point')
    w.check(np.shape(r.value) == shape, 'the answer has the input shape',
            np.shape(r.value))
    w.eq(_flat(r.value), fin, 'the answer is the final point')
    w.eq(list(_flat(x0)), vals, 'the caller keeps its start vector')
    w.check(N.mallocs == N.frees == 1 and N.bad == 0,
            'the native copy is released once')


def outcome(w, r, name, LL, fin, shape):
    """What the documentation promises for a native outcome."""
    if name in SUCCESS or name in WARNS:
        w.check(r.exc is None, 'a result is returned', '%s %r' % (name,
                                                                  r.exc))
        w.check(np.shape(r.value) == shape, 'the answer has the input shape')
        w.eq(_flat(r.value), fin, 'the answer is the final point')
        w.check(bool(r.warned) == (name in WARNS),
                'recoverable limits warn, successes do not', name)
        if name in WARNS:
            w.check(any(SAYS[name] in str(x.message) for x in r.warned),
                    'the warning names the limit', name)
    elif name == 'LBFGSERR_OUTOFMEMORY':
        w.check(type(r.exc) is MemoryError, 'out of memory', repr(r.exc))
    elif name == 'LBFGS_ALLZERO':
        w.check(type(r.exc) is LL.AllZeroLBFGSError, 'all-zero outcome',
                repr(r.exc))
    elif name is None:
        w.check(r.exc is not None, 'an unlisted code is no success')
    else:
        w.check(type(r.exc) is LL.LBFGSError, 'failures raise LBFGSError',
                '%s %r' % (name, r.exc))
        s = str(r.exc)
        w.check(bool(s), 'failures have a message', name)
        if name in SAYS:
            w.check(SAYS[name] in s, 'the message names the failure',
                    '%s: %s' % (name, s))
        if name in PARAM_OF:
            words = s.replace('.', ' ').split()
            w.check(PARAM_OF[name] in words and not any(
                p in words for p in PARAM_OF.values()
                if p != PARAM_OF[name]),
                'the message names the rejected parameter',
                '%s: %s' % (name, s))


def t_outcome(w, shape, wrap):
    N, LB, LL = setup(w)
    cs = native.codes()
    miss = [n for n in NAMES if n not in cs]
    w.check(not miss, 'lbfgs.h lists the documented codes', miss)
    name = w.choose('code', NAMES + [None])
    code = cs[name] if name else w.choose('other', [3, -1, -700, -2000])
    n = int(np.prod(shape))
    x0 = w.reals('x', shape)
    fin = [w.real('z%d' % i) for i in range(n)]

    def script(c):
        c.x.set(fin)
        return code
    N.script = script
    call = LB.fmin_lbfgs if wrap else LL.LBFGS().minimize
    r = Run(w, N, call, f0, x0)
    outcome(w, r, name, LL, fin, shape)
    w.check(N.calls == 1, 'one native call')
    w.check(N.mallocs == N.frees == 1 and N.bad == 0,
            'the native copy is released once')


def t_eval(w, shape, nargs, ret):
    N, LB, LL = setup(w)
    n = int(np.prod(shape))
    x0 = w.reals('x', shape)
    args = tuple(w.real('a%d' % i) for i in range(nargs))
    gs = [[w.real('g%d%d' % (j, i)) for i in range(n)] for j in range(2)]
    xs = [[w.real('p%d%d' % (j, i)) for i in range(n)] for j in range(2)]
    if ret == 'real':
        vs = [w.real('v%d' % j) for j in range(2)]
    elif ret == 'int':
        vs = [w.int('v%d' % j, -1000, 1000) for j in range(2)]
    elif ret == 'array':
        vs = [w.reals('v%d' % j, (1,)) for j in range(2)]
    else:
        vs = [True, 2]
    got, res, back = [], [], []

    def f(x, g, *a):
        j = len(got)
        got.append((list(_flat(x)), a, np.shape(x), np.shape(g)))
        for ix, v in zip(np.ndindex(*shape), gs[j]):
            g[ix] = v
        return vs[j]

    def script(c):
        g = [c.buf(), c.buf()]
        t = c.buf()
        c.x.set(xs[0])
        res.append(c.eval(c.x, g[0], 0.))
        t.set(xs[1])
        res.append(c.eval(t, g[1], .5))
        back.extend([g[0].get(n), g[1].get(n), c.x.get(n)])
        return 0
    N.script = script
    r = Run(w, N, LB.fmin_lbfgs, f, x0, args=args)
    w.check(r.exc is None, 'the minimization runs', repr(r.exc))
    w.check(len(got) == 2, 'one call per evaluation')
    for j in range(2):
        w.eq(got[j][0], xs[j], 'the objective sees the point asked for')
        w.check(len(got[j][1]) == nargs, 'extra arguments are passed on')
        for u, v in zip(got[j][1], args):
            w.eq(u, v, 'extra arguments in order')
        w.check(got[j][2] == shape and got[j][3] == shape,
                'point and gradient have the shape of the start vector')
        w.eq(back[j], gs[j], 'the gradient reaches the native code')
        w.eq(res[j], _flat(vs[j])[0] if ret == 'array' else vs[j],
             'the value reaches the native code')
    w.eq(back[2], xs[0], 'the current point is not disturbed')


def t_progress(w, shape, nargs, ret):
    N, LB, LL = setup(w)
    n = int(np.prod(shape))
    x0 = w.reals('x', shape)
    args = tuple(w.real('a%d' % i) for i in range(nargs))
    xs = [w.real('p%d' % i) for i in range(n)]
    gs = [w.real('g%d' % i) for i in range(n)]
    sc = [w.real('s%d' % i) for i in range(4)]
    k, ls = w.int('k', 0, 10 ** 6), w.int('ls', 0, 10 ** 6)
    cs = native.codes()
    if ret == 'int':
        v = w.int('r', -3000, 3000)
    elif ret == 'real':
        v = w.real('r', -3000, 3000)
    elif ret == 'none':
        v = w.choose('r', [None, 0, 0., False])
    else:
        v = w.choose('r', ['stop', True, 2 ** 32, 2 ** 31, -2 ** 31, 1e300,
                           float('nan'), .25, 1, 2, -1021, -998, -997,
                           -1001, 1024])
    got, codes = [], []

    def progress(*a):
        got.append(([list(_flat(a[0])), list(_flat(a[1]))], a[2:],
                    np.shape(a[0]), np.shape(a[1])))
        return v

    def script(c):
        g = c.buf()
        c.x.set(xs)
        g.set(gs)
        q = c.progress(c.x, g, sc[0], sc[1], sc[2], sc[3], k, ls)
        codes.append(q)
        # the native code hands a nonzero answer back, and may as well reach
        # its iteration limit
        return q if bool(q != 0) else 0
    N.script = script
    r = Run(w, N, LB.fmin_lbfgs, f0, x0, progress=progress, args=args)
    w.check(len(got) == 1, 'the progress callback runs')
    (gx, gg), rest, sx, sg = got[0]
    w.eq(gx, xs, 'progress sees the point first')
    w.eq(gg, gs, 'progress sees the gradient second')
    w.check(sx == shape and sg == shape, 'progress arrays have the shape')
    w.check(len(rest) == 6 + nargs, 'progress arguments')
    for i, nm in enumerate(['fx', 'xnorm', 'gnorm', 'step']):
        w.eq(rest[i], sc[i], 'progress argument %s' % nm)
    w.eq(rest[4], k, 'progress argument k')
    w.eq(rest[5], ls, 'progress argument num_eval')
    for u, t in zip(rest[6:], args):
        w.eq(u, t, 'extra arguments follow')
    nonzero = not (v is None or bool(v == 0))
    if not nonzero:
        w.check(bool(codes[0] == 0), 'none and zero let it go on')
        w.check(r.exc is None, 'and the result is returned', repr(r.exc))
        w.eq(_flat(r.value), xs, 'the answer is the final point')
    else:
        w.check(bool(codes[0] != 0), 'nonzero stops the native code')
        w.check(r.exc is not None, 'nonzero never looks like success',
                repr(v))
        if not isinstance(v, str) and bool(v == -2048):
            w.check(type(r.exc) is LL.AllZeroLBFGSError, 'all-zero outcome',
                    repr(r.exc))
        else:
            w.check(type(r.exc) is LL.LBFGSError,
                    'nonzero raises LBFGSError', repr(r.exc))
    w.check(N.mallocs == N.frees == 1 and N.bad == 0,
            'the native copy is released once')


class Boom(Exception):
    pass


def t_fault(w, where):
    """A callback fails at some call; whatever the native code makes of it,
    the caller gets that exception."""
    N, LB, LL = setup(w)
    cs = native.codes()
    x0 = w.reals('x', 2)
    at = w.choose('at', [0, 1, 2] if where == 'eval' else [0, 1])
    code = cs[w.choose('code', NAMES)]
    kind = w.choose('kind', ['Boom', 'KeyboardInterrupt', 'SystemExit',
                             'ZeroDivisionError', 'bad value', 'StopIteration'
                             ] if where == 'eval' else
                    ['Boom', 'KeyboardInterrupt', 'LBFGSError'])
    ex = dict(Boom=Boom('x'), KeyboardInterrupt=KeyboardInterrupt(),
              SystemExit=SystemExit(3), ZeroDivisionError=ZeroDivisionError(),
              StopIteration=StopIteration(),
              LBFGSError=LL.LBFGSError('mine')).get(kind)
    bad = w.choose('value', [None, 'a', [1.], {}]) if kind == 'bad value' \
        else None
    cnt = dict(eval=0, progress=0)
    heard = []

    def hit(what):
        j = cnt[what]
        cnt[what] += 1
        if what == where and j == at:
            if ex is not None:
                raise ex
            return bad
        return 0. if what == 'eval' else 0

    def f(x, g):
        g[:] = 0.
        return hit('eval')

    def progress(*a):
        return hit('progress')

    def script(c):
        g = c.buf()
        for i in range(3):
            v = c.eval(c.x, g, 0.)
            heard.append(v)
            if i:
                q = c.progress(c.x, g, 0., 0., 0., 1., i, 1)
                if where == 'progress' and i - 1 == at:
                    w_codes.append(q)
        return code
    w_codes = []
    N.script = script
    r = Run(w, N, LB.fmin_lbfgs, f, x0, progress=progress)
    if ex is not None:
        w.check(r.exc is ex, 'the exception of the callback is raised',
                repr(r.exc))
    else:
        w.check(isinstance(r.exc, TypeError),
                'an unusable objective value is an error', repr(r.exc))
    if w_codes:
        w.check(w_codes[0] != 0, 'a failed progress call stops the search')
    if where == 'eval':
        h = heard[at]
        w.check(not isinstance(h, float) or h != h,
                'the native code is not told a value that was not computed')
    w.check(N.mallocs == N.frees == 1 and N.bad == 0,
            'the native copy is released once')


def t_refuse(w):
    N, LB, LL = setup(w)
    N.script = lambda c: 0
    x0 = w.reals('x', 2)
    what = w.choose('what', ['f', 'progress', 'memory', 'word', 'none'])
    if what == 'f':
        r = Run(w, N, LB.fmin_lbfgs, w.choose('v', [None, 1., 'f', []]), x0)
        w.check(isinstance(r.exc, TypeError), 'f must be callable',
                repr(r.exc))
    elif what == 'progress':
        r = Run(w, N, LB.fmin_lbfgs, f0, x0,
                progress=w.choose('v', [0, 1., 'f', []]))
        w.check(isinstance(r.exc, TypeError), 'progress must be callable',
                repr(r.exc))
    elif what == 'memory':
        N.fail_malloc = True
        r = Run(w, N, LB.fmin_lbfgs, f0, x0)
        w.check(isinstance(r.exc, MemoryError), 'no memory for the copy',
                repr(r.exc))
    elif what == 'word':
        r = Run(w, N, LB.fmin_lbfgs, f0, ['a', 'b'])
        w.check(r.exc is not None, 'a start vector of words is refused')
    else:
        r = Run(w, N, LB.fmin_lbfgs, f0, np.array([None, None]))
        w.check(r.exc is not None, 'a start vector of nothing is refused')
    w.check(N.calls == 0, 'the native code is not called')


def tasks(tier):
    T = []

    def add(name, fn, **cfg):
        T.append(Task(name, fn, cfg))
    add('defaults', t_defaults)
    add('options-real', t_options, kind='real')
    add('options-int', t_options, kind='int')
    add('badsearch', t_badsearch)
    add('props', t_props)
    for l in LAYOUTS:
        add('start-' + l, t_start, layout=l)
    for s in [(2,), (2, 1), (1,)] + ([(2, 2), (1, 3)]
                                     if tier == 'thorough' else []):
        for wrap in (True, False):
            add('outcome-%s-%s' % ('x'.join(map(str, s)),
                                   'fmin' if wrap else 'class'), t_outcome,
                shape=s, wrap=wrap)
    for s in [(2,), (2, 2), (3,)]:
        for ret in ('real', 'int', 'array', 'const'):
            for na in (0, 2):
                add('eval-%s-%s-%d' % ('x'.join(map(str, s)), ret, na),
                    t_eval, shape=s, nargs=na, ret=ret)
        for ret in ('none', 'int', 'real', 'const'):
            for na in (0, 2):
                add('progress-%s-%s-%d' % ('x'.join(map(str, s)), ret, na),
                    t_progress, shape=s, nargs=na, ret=ret)
    add('fault-eval', t_fault, where='eval')
    add('fault-progress', t_fault, where='progress')
    add('refuse', t_refuse)
    return T

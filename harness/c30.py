"""C30: the native solver validates its parameters and keeps to its memory."""
from harness import clib
from harness.clib import minimize, point, script
from vx import native
from vx.core import is_sym
from vx.run import Task

ID = 'C30'
NATIVE = True
BOUNDS = ('validation: all sixteen parameters and the number of variables at '
          'once (reals unbounded; integers m, past in [-2, 3], n in [-2, 3], '
          'ranges in [-3, 5], line search in [-1, 5], limits within a C int); '
          'memory: n <= 3, m <= 3, past <= 2, up to 3 iterations and 3 '
          'trials, every line search and L1 range, every objective, gradient '
          'and progress value, every single allocation failure; every double '
          'the native code computes is an unknown in these runs, so that '
          'each comparison goes both ways')
OUTSIDE = ('overflow of integer sizes and counters, NaN and infinite '
           'parameters; blocks are checked through the IR of clang -O0, the '
           'optimised machine code only in replays')


def prepare():
    try:
        clib.module()
    except BaseException:
        pass


def _codes():
    return native.codes()


def t_valid(w, wolfe, null=False):
    """One call that either is refused or finds x = 0 optimal at once."""
    C = _codes()
    p = {}
    lo = dict(m=-2, past=-2, orthantwise_start=-3, orthantwise_end=-3,
              linesearch=-1, max_iterations=-5, max_linesearch=-5)
    hi = dict(m=3, past=3, orthantwise_start=5, orthantwise_end=5,
              linesearch=5, max_iterations=2 ** 31 - 1,
              max_linesearch=2 ** 31 - 1)
    for k, t in clib.FIELDS:
        p[k] = w.int(k, lo[k], hi[k]) if t == 'i' else w.real(k)
    n = w.int('n', -2, 3)
    if not wolfe:
        w.assume(w.or_(p['linesearch'] < 2, p['linesearch'] > 3))
    else:
        w.assume(w.and_(p['linesearch'] >= 2, p['linesearch'] <= 3))
    T = minimize(w, [0., 0., 0.], [(0., [0., 0., 0.])], [], n=n,
                 null_params=null, **p)
    w.check(T.crash is None, 'memory is respected', T.crash)
    if T.crash is not None:
        return
    w.check(T.leaks == 0, 'everything is released', T.leaks)
    w.check(len(T.progs) == 0, 'no progress report')
    for v in T.x:
        w.check(v == 0, 'the variables are untouched')
    ret = T.ret
    w.observe('ret', ret)
    if null:
        w.check(w.or_(n <= 0, ret == C['LBFGS_ALREADY_MINIMIZED']),
                'defaults are valid')
        w.check(w.or_(n > 0, ret == C['LBFGSERR_INVALID_N']),
                'no variables are refused')
        return
    c, ls = p['orthantwise_c'], p['linesearch']
    bad = dict(
        LBFGSERR_INVALID_N=n <= 0,
        LBFGSERR_INVALID_EPSILON=p['epsilon'] < 0,
        LBFGSERR_INVALID_TESTPERIOD=p['past'] < 0,
        LBFGSERR_INVALID_DELTA=p['delta'] < 0,
        LBFGSERR_INVALID_MINSTEP=p['min_step'] < 0,
        LBFGSERR_INVALID_MAXSTEP=p['max_step'] < p['min_step'],
        LBFGSERR_INVALID_FTOL=p['ftol'] < 0,
        LBFGSERR_INVALID_WOLFE=w.and_(
            wolfe, w.or_(p['wolfe'] <= p['ftol'], p['wolfe'] >= 1)),
        LBFGSERR_INVALID_GTOL=p['gtol'] < 0,
        LBFGSERR_INVALID_XTOL=p['xtol'] < 0,
        LBFGSERR_INVALID_MAXLINESEARCH=p['max_linesearch'] <= 0,
        LBFGSERR_INVALID_ORTHANTWISE=c < 0,
        LBFGSERR_INVALID_ORTHANTWISE_START=w.or_(
            p['orthantwise_start'] < 0, p['orthantwise_start'] > n),
        LBFGSERR_INVALID_ORTHANTWISE_END=p['orthantwise_end'] > n,
        LBFGSERR_INVALID_LINESEARCH=w.or_(
            w.or_(ls < 0, ls > 3), w.and_(w.not_(c == 0), w.not_(ls == 2))),
        LBFGSERR_INVALIDPARAMETERS=p['m'] <= 0)
    r = w.concrete_int(ret)
    for k, v in bad.items():
        if r == C['LBFGS_ALREADY_MINIMIZED']:
            w.check(w.not_(v), 'accepted although %s' % k)
        elif r == C[k]:
            w.check(v, 'refused without reason: %s' % k)
    names = dict((C[k], k) for k in bad)
    w.check(r == C['LBFGS_ALREADY_MINIMIZED'] or r in names,
            'a documented code', r)
    w.check(len(T.evals) == (r == C['LBFGS_ALREADY_MINIMIZED']),
            'the objective is called only after acceptance')


def t_memory(w, n, ls, m=1, past=0, iters=2, trials=1, c=False, fail=False,
             fx=True, prog=True, rng=None, eps=0.):
    C = _codes()
    x0 = point(w, 'x', n)
    # written so that random values, too, give runs of several iterations
    ev = script(w, n, iters * trials + 1)
    ev = [(f - 4. * j, g) for j, (f, g) in enumerate(ev)]
    pr = [w.ite(w.real('stop%d' % k) > 3, w.int('p%d' % k, -3, 3), 0)
          for k in range(iters)] if prog else None
    over = {}
    if c:
        over = dict(orthantwise_c=w.real('c', 0))
        w.assume(over['orthantwise_c'] > 0)
        over['orthantwise_start'], over['orthantwise_end'] = rng
    total = 6 + bool(c) + 2 * m + (past > 0)
    at = w.choose('fail', list(range(total))) if fail else None
    T = minimize(w, x0, ev, pr, fail_at=at, cut=0, ptr_fx=fx, m=m, past=past,
                 linesearch=ls, max_iterations=iters, max_linesearch=trials,
                 epsilon=eps, delta=w.real('delta', 0) if past else 0.,
                 min_step=w.real('mins', 0, 1), max_step=w.real('maxs', 1),
                 **over)
    w.check(T.crash is None, 'memory is respected', T.crash)
    if T.crash is not None:
        return
    w.check(T.leaks == 0, 'everything is released', T.leaks)
    w.check(T.inst, 'callbacks get the instance')
    for x, s, k in T.evals:
        w.check(k == n, 'the objective gets the number of variables')
    for r in T.progs:
        w.check(r[6] == n, 'progress gets the number of variables')
    ret = T.ret
    if at is not None and at < T.mallocs:
        w.check(ret == C['LBFGSERR_OUTOFMEMORY'], 'out of memory is reported',
                (at, ret))
        w.check(not T.evals and not T.progs, 'no callback without memory')
        for a, b in zip(T.x, x0):
            w.check(a == b, 'the variables are untouched')
    if at is None:
        w.check(w.not_(ret == C['LBFGSERR_OUTOFMEMORY']), 'memory was there')
    if T.evals:
        for a, b in zip(T.evals[0][0], x0):
            w.check(a == b, 'the first evaluation is at the start')
    if is_sym(ret):
        w.check(w.any([ret == p for p in pr]), 'a code of the callback')
    else:
        w.check(ret in set(C.values()) or prog and -3 <= ret <= 3,
                'a documented code', ret)


def tasks(tier):
    T = []
    big = tier == 'thorough'

    def add(name, fn, limit=None, **cfg):
        T.append(Task(name, fn, cfg, limit if tier == 'quick' else None,
                      validate=25, search=400))
    add('mem-0-1-1-0-1-2', t_memory, 150, ls=0, n=1, trials=2, iters=1)
    add('l1-it-1-0--1', t_memory, 110, ls=2, n=1, c=True, rng=(0, -1), m=2)
    add('l1-2-0--1', t_memory, 110, ls=2, n=2, c=True, rng=(0, -1), iters=1)
    for wf in (False, True):
        add('valid-%s' % ('wolfe' if wf else 'other'), t_valid, wolfe=wf)
    add('valid-null', t_valid, wolfe=False, null=True)
    for ls in (0, 1, 2, 3):
        for n in (1, 2):
            add('oom-%d-%d' % (ls, n), t_memory, ls=ls, n=n, m=2, past=1,
                fail=True)
        for m, past, it, tr in [(1, 0, 2, 1), (2, 1, 3, 1), (1, 2, 3, 1),
                                (1, 0, 4, 1),                                (1, 0, 1, 2)] + (
                [(3, 0, 4, 1), (2, 0, 2, 2), (1, 0, 1, 3)]
                if big or ls in (1, 2) else []):
            add('mem-%d-1-%d-%d-%d-%d' % (ls, m, past, it, tr), t_memory,
                ls=ls, n=1, m=m, past=past, iters=it, trials=tr)
        add('mem-%d-2' % ls, t_memory, ls=ls, n=2, m=2, iters=3)
        add('mem-%d-3' % ls, t_memory, ls=ls, n=3, m=1, iters=2)
        add('mem-%d-nofx' % ls, t_memory, ls=ls, n=1, iters=1, fx=False,
            prog=False)
    for n, rngs in ((1, [(0, -1), (0, 0), (1, 1), (1, 0)]),
                    (2, [(0, -1), (1, 2), (0, 1), (2, 1), (2, 2), (2, 0)]),
                    (3, [(1, 2), (3, 0)])):
        for r in rngs:
            nm = '%d-%d-%d' % (n, r[0], r[1])
            add('oom-l1-' + nm, t_memory, ls=2, n=n, c=True, rng=r, m=1,
                past=1, fail=True, iters=1)
            add('l1-' + nm, t_memory, ls=2, n=n, c=True, rng=r, m=1,
                iters=1, trials=1)
            if n == 1:
                add('l1-it-' + nm, t_memory, ls=2, n=n, c=True, rng=r, m=2,
                    iters=2, trials=1)
                add('l1-tr-' + nm, t_memory, ls=2, n=n, c=True, rng=r, m=1,
                    iters=1, trials=2)
    out = []
    for t in T:                          # the long ones stay in front
        if t.name not in {o.name for o in out}:
            out.append(t)
    return out

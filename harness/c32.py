"""C32: line searches accept only steps that satisfy their conditions."""
from harness import clib
from harness.clib import minimize, point, script
from vx import native
from vx.core import is_sym
from vx.run import Task
import math

ID = 'C32'
NATIVE = True
BOUNDS = ('every start point, objective and gradient sequence and every '
          'tolerance and step bound; n <= 3 for one trial, n <= 2 for two, '
          'n = 1 for three and four trials (More-Thuente: two); the first '
          'line search exactly, later ones (up to three iterations) from '
          'arbitrary directions, as far as the time limit goes; an objective of NaN or infinity at any '
          'one trial')
OUTSIDE = ('rounding (the native doubles are exact reals here); NaN '
           'gradients; steps chosen by interpolation beyond the bounds '
           'stated')


def prepare():
    try:
        clib.module()
    except BaseException:
        pass


LS = dict(mt=0, armijo=1, wolfe=2, strong=3)


def dot(a, b):
    s = 0.
    for u, v in zip(a, b):
        s = s + u * v
    return s


def isnan(v):
    return not is_sym(v) and math.isnan(v)


class Terms:
    """The conditions of one line search."""

    def __init__(self, w, ls, p, f0, g0, d):
        self.w, self.ls, self.p, self.f0, self.d = w, ls, p, f0, d
        self.dg0 = dot(g0, d)

    def armijo(self, f, step):
        if isnan(f):
            return False
        return f <= self.f0 + self.p['ftol'] * step * self.dg0

    def curve(self, g):
        dg = dot(g, self.d)
        w = self.w
        if self.ls == 'armijo':
            return True
        if self.ls == 'wolfe':
            return dg >= self.p['wolfe'] * self.dg0
        k = self.p['wolfe' if self.ls == 'strong' else 'gtol']
        return w.and_(dg <= -k * self.dg0, dg >= k * self.dg0)

    def ok(self, f, g, step):
        a = self.armijo(f, step)
        if not is_sym(a) and not a:
            return False
        return self.w.and_(a, self.curve(g))


def settings(w, ls, trials):
    p = dict(ftol=w.real('ftol', 0), min_step=w.real('mins', 0),
             max_step=w.real('maxs', 0))
    w.assume(p['min_step'] <= p['max_step'])
    if ls in ('wolfe', 'strong'):
        p['wolfe'] = w.real('wolfe', 0, 1)
        w.assume(w.and_(p['ftol'] < p['wolfe'], p['wolfe'] < 1))
    if ls == 'mt':
        p['gtol'] = w.real('gtol', 0)
        p['xtol'] = w.real('xtol', 0)
    return dict(p, linesearch=LS[ls], max_linesearch=trials)


def judge(w, ls, p, x, f, g, d, tr, ev, ok, ret, trials, exact=True):
    """One line search from (x, f, g) along d: the trials tr (x, step) with
    their evaluations ev; ok: it was followed by a progress report."""
    C = native.codes()
    t = Terms(w, ls, p, f, g, d)
    w.check(1 <= len(tr) <= trials, 'no more trials than allowed', len(tr))
    lo, hi = p['min_step'], p['max_step']
    steps = [s for _, s in tr]
    for j, (xt, s) in enumerate(tr):
        for i in range(len(x)):
            if exact:
                w.eq(xt[i], x[i] + s * d[i],
                     'trials lie along the direction')
        w.check(s >= 0, 'steps go forward')
        if ls == 'mt':
            w.check(w.any([w.and_(s >= lo, s <= hi), s == 0] +
                          [s == r for r in steps[:j]]),
                    'a step within the bounds or back to the best')
    for j in range(len(tr) - 1):
        fj, gj = ev[j]
        w.check(w.not_(t.ok(fj, gj, steps[j])),
                'no acceptable trial is passed over')
        if ls != 'mt':
            w.check(w.and_(steps[j] >= lo, steps[j] <= hi),
                    'no trial after a step out of bounds')
            a = t.armijo(fj, steps[j])
            up = steps[j + 1] > steps[j]
            w.check(w.or_(a, w.not_(up)),
                    'without enough decrease the step shrinks')
            if ls != 'armijo':
                small = dot(gj, d) < p['wolfe'] * t.dg0
                w.check(w.implies(w.and_(a, small), up) if is_sym(a) or
                        is_sym(small) else up or not (a and small),
                        'on a steep slope the step grows')
    fl, gl = ev[len(tr) - 1]
    if ok:
        w.check(not isnan(fl), 'NaN is never accepted')
        a = t.armijo(fl, steps[-1])
        w.check(a, 'an accepted step decreases the objective enough')
        w.check(t.curve(gl), 'an accepted step meets the curvature condition')
        return
    s = steps[-1]
    if ls != 'mt':
        w.check(w.not_(t.ok(fl, gl, s)), 'an acceptable step is accepted')
        if ret == C['LBFGSERR_MINIMUMSTEP']:
            w.check(s < lo, 'the step is below the minimum')
        elif ret == C['LBFGSERR_MAXIMUMSTEP']:
            w.check(s > hi, 'the step is above the maximum')
        else:
            w.check(ret == C['LBFGSERR_MAXIMUMLINESEARCH'],
                    'the reason of failure', ret)
    elif ret == C['LBFGSERR_MINIMUMSTEP']:
        w.check(s == lo, 'the step is the minimum')
    elif ret == C['LBFGSERR_MAXIMUMSTEP']:
        w.check(s == hi, 'the step is the maximum')
    else:
        w.check(ret in [C['LBFGSERR_' + k] for k in (
            'MAXIMUMLINESEARCH', 'ROUNDING_ERROR', 'WIDTHTOOSMALL',
            'OUTOFINTERVAL', 'INCORRECT_TMINMAX', 'INCREASEGRADIENT')],
            'the reason of failure', ret)
    if ret == C['LBFGSERR_MAXIMUMLINESEARCH']:
        w.check(len(tr) == trials, 'all trials were used')


def t_search(w, ls, n, trials, iters=1, cut=None, special=None, m=1):
    C = native.codes()
    x0 = point(w, 'x', n)
    J = iters * trials + 1
    ev = script(w, n, J)
    if cut is not None:
        ev = [(f - 4. * j, g) for j, (f, g) in enumerate(ev)]
    if special is not None:
        at = w.choose('at', list(range(1, J)))
        ev[at] = (special, ev[at][1])
    p = settings(w, ls, trials)
    T = minimize(w, x0, ev, [0] * iters, cut=cut, m=m, epsilon=0.,
                 max_iterations=iters, **p)
    w.check(T.crash is None, 'memory is respected', T.crash)
    if T.crash is not None:
        return
    ret = T.ret
    w.observe('ret', ret)
    w.check(not is_sym(ret), 'a definite outcome')
    w.check(T.evals[0][1] == 0, 'the first evaluation is no step')
    for a, b in zip(T.evals[0][0], x0):
        w.check(a == b, 'the first evaluation is at the start')
    w.check(len(T.progs) <= iters, 'no more iterations than allowed')
    used = 1
    x, f, g = x0, ev[0][0], ev[0][1]
    d = [-v for v in g]
    for k in range(len(T.progs) + 1):
        ok = k < len(T.progs)
        if ok:
            P = T.progs[k]
            w.check(P[7] == k + 1, 'iterations are counted', P[7])
            cnt = w.concrete_int(P[8])
        else:
            cnt = len(T.evals) - used
        tr = [(T.evals[used + j][0], T.evals[used + j][1])
              for j in range(cnt)]
        es = ev[used:used + cnt]
        if not ok:
            if not cnt:
                break
            w.check(ret < 0, 'a search without success is an error', ret)
        first = k == 0
        if k:
            if not cnt:
                break
            # the direction as the first trial shows it
            s1 = tr[0][1]
            d = [(a - b) for a, b in zip(tr[0][0], x)]
            if ls == 'mt':
                break
            w.check(s1 == 1, 'later searches try the full step first')
        elif ls != 'mt' and (cut is None or cut > 8):
            w.eq(tr[0][1] * w.sqrt(dot(g, g)), 1.,
                 'the first step has length one')
        # (short cuts forget the first step: it is judged in other tasks)
        if k or cut is None or cut > 8:
            judge(w, ls, p, x, f, g, d, tr, es, ok, ret, trials)
        used += cnt
        if ok:
            x, g = tr[-1][0], es[-1][1]
            f = es[-1][0]
            for i in range(n):
                w.check(P[0][i] == x[i], 'progress shows the accepted point')
                w.check(P[1][i] == g[i], 'progress shows its gradient')
            w.check(P[2] == f, 'progress shows its objective')
            w.check(P[5] == tr[-1][1], 'progress shows the step')
    w.check(used == len(T.evals), 'every evaluation is accounted for')
    for a, b in zip(T.x, x):
        w.check(a == b, 'the result is the last accepted point')
    if len(T.progs) == iters or T.progs and ret >= 0:
        w.check(T.fx == f, 'the objective of the result is returned')


def t_entry(w, ls, n):
    """Nothing is searched when the start is optimal."""
    C = native.codes()
    x0 = point(w, 'x', n)
    ev = script(w, n, 2)
    p = settings(w, ls, 1)
    eps = w.real('eps', 0)
    T = minimize(w, x0, ev, [0], epsilon=eps, max_iterations=1, m=1, **p)
    if T.crash is not None:
        w.check(False, 'memory is respected', T.crash)
    gg, xx = dot(ev[0][1], ev[0][1]), dot(x0, x0)
    small = gg <= eps * eps * w.ite(xx < 1, 1., xx)
    if len(T.evals) == 1 and not is_sym(T.ret) and \
            T.ret == C['LBFGS_ALREADY_MINIMIZED']:
        w.check(small, 'only an optimal start is already minimized')
        for a, b in zip(T.x, x0):
            w.check(a == b, 'the result is the start')
        w.check(T.fx == ev[0][0], 'with its objective')
    else:
        w.check(w.not_(small), 'an optimal start is recognised')


def tasks(tier):
    T = []
    big = tier == 'thorough'

    def add(name, fn, limit=None, **cfg):
        T.append(Task(name, fn, cfg, None if big else limit, validate=25,
                      search=400))
    for ls in LS:
        for n, tr in [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3)] + (
                [(1, 4), (2, 3), (3, 1)] if big else []):
            if ls == 'mt' and tr > 2 and not big:
                continue
            add('%s-%d-%d' % (ls, n, tr), t_search, ls=ls, n=n, trials=tr)
        for sp in ('nan', 'inf'):
            add('%s-%s' % (ls, sp), t_search, ls=ls, n=1, trials=2,
                special=float(sp))
            add('%s-%s-it' % (ls, sp), t_search, ls=ls, n=1, trials=1,
                iters=2, cut=16, special=float(sp))
        for n, tr, it in [(1, 1, 2), (1, 2, 2), (2, 1, 2), (1, 1, 3)] + (
                [(3, 1, 2), (2, 2, 2)] if big else []):
            if ls != 'mt':
                add('%s-it-%d-%d-%d' % (ls, n, tr, it), t_search, ls=ls, n=n,
                    trials=tr, iters=it, cut=16 if n == 1 else 4 if tr == 1 else 6)
        for n in (1, 2):
            if n == 1 or ls == 'mt' or big:
                add('%s-entry-%d' % (ls, n), t_entry, ls=ls, n=n)
    return T

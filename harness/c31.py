"""C31: orthant-wise steps respect the L1 subgradient and never cross zero."""
from harness import clib
from harness.c32 import dot, prepare    # noqa: F401
from harness.clib import minimize, point, script
from vx import native
from vx.core import is_sym
from vx.run import Task

ID = 'C31'
NATIVE = True
BOUNDS = ('every start point, L1 weight, objective and gradient sequence, '
          'tolerance and step bound; n <= 2 (3 for the stopping test) and '
          'every penalized range; one line search of up to 3 trials exactly, '
          'up to three iterations with arbitrary earlier directions')
OUTSIDE = ('rounding (the native doubles are exact reals here); NaN and '
           'infinite values; n = 2 iterations as far as the time limit goes')


def inside(rng, n):
    s, e = rng
    return range(s, n if e < 0 else e)


def sgn(a):
    return 1 if a > 0 else -1 if a < 0 else 0


def pseudo(w, x, g, c, R):
    """Minimum-norm subgradient of loss + c |x|_1 over R."""
    out = []
    for i in range(len(x)):
        if i in R:
            s = sgn(x[i])
            if s:
                v = g[i] + s * c
            else:
                # at zero: soft thresholding of the gradient
                v = g[i] - c if g[i] > c else g[i] + c if g[i] < -c else 0.
            out.append(v)
        else:
            out.append(g[i])
    return out


def l1(w, x, R):
    s = 0.
    for i in R:
        s = s + sgn(x[i]) * x[i]
    return s


def regular(w, xt):
    """No trial point became NaN (outside the bounds)."""
    for v in xt:
        if not is_sym(v):
            w.assume(v - v == 0)


def same(w, a, b, label):
    """Equality up to rounding (exact for symbolic values)."""
    if is_sym(a) or is_sym(b):
        w.check(a == b, label)
    else:
        w.check(abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)), label, (a, b))


def t_steps(w, n, rng, trials, iters=1, cut=None, m=1):
    C = native.codes()
    R = inside(rng, n)
    x0 = point(w, 'x', n)
    J = iters * trials + 1
    ev = script(w, n, J)
    if cut is not None:
        ev = [(f - 4. * j, g) for j, (f, g) in enumerate(ev)]
    c = w.real('c', 0)
    w.assume(c > 0)
    p = dict(ftol=w.real('ftol', 0), min_step=w.real('mins', 0),
             max_step=w.real('maxs', 0))
    w.assume(p['min_step'] <= p['max_step'])
    T = minimize(w, x0, ev, [0] * iters, cut=cut, m=m, epsilon=0.,
                 max_iterations=iters, max_linesearch=trials, linesearch=2,
                 wolfe=max_wolfe(w, p), orthantwise_c=c,
                 orthantwise_start=rng[0], orthantwise_end=rng[1], **p)
    w.check(T.crash is None, 'memory is respected', T.crash)
    if T.crash is not None:
        return
    ret = T.ret
    w.observe('ret', ret)
    x, g = x0, ev[0][1]
    pg = pseudo(w, x, g, c, R)
    F = ev[0][0] + c * l1(w, x, R)
    zero = w.all([v == 0 for v in pg])
    if ret == C['LBFGS_ALREADY_MINIMIZED']:
        w.check(zero, 'a start with a nonzero subgradient is not optimal')
        w.check(len(T.evals) == 1, 'an optimal start is not moved')
        if cut is None:
            same(w, T.fx, F, 'the penalized objective is returned')
        return
    w.check(w.not_(zero), 'an optimal start is recognised')
    used = 1
    for k in range(len(T.progs) + 1):
        ok = k < len(T.progs)
        P = T.progs[k] if ok else None
        cnt = w.concrete_int(P[8]) if ok else len(T.evals) - used
        if not cnt:
            break
        w.check(cnt <= trials, 'no more trials than allowed')
        tr = T.evals[used:used + cnt]
        es = ev[used:used + cnt]
        for j, (xt, s, _) in enumerate(tr):
            regular(w, xt)
            for i in range(n):
                mv = xt[i] - x[i]
                side = 0
                if i in R:
                    side = sgn(x[i]) or -sgn(pg[i])
                    w.check(xt[i] * side >= 0,
                            'a penalized coordinate changed its sign')
                    if side == 0:
                        w.check(xt[i] == 0,
                                'a penalized coordinate left zero without a '
                                'gradient')
                if cut is not None and k == 0:
                    continue        # the step itself is left arbitrary
                if i in R:
                    w.check(w.or_(mv * pg[i] <= 0, xt[i] == 0),
                            'a penalized coordinate moves uphill')
                if k == 0:
                    free = x[i] - s * pg[i]
                    if i in R:
                        free = free if free * side > 0 else 0.
                    same(w, xt[i], free, 'the first search follows the '
                         'steepest descent of the penalized objective')
            Ft = es[j][0] + c * l1(w, xt, R)
            low = Ft <= F + p['ftol'] * dot(
                [a - b for a, b in zip(xt, x)], pg)
            if j < cnt - 1 or not ok:
                w.check(w.not_(low), 'an acceptable step is accepted')
            else:
                w.check(low, 'an accepted step decreases the penalized '
                        'objective enough')
            if j:
                w.check(s < tr[j - 1][1], 'the step shrinks')
                w.check(w.and_(tr[j - 1][1] >= p['min_step'],
                               tr[j - 1][1] <= p['max_step']),
                        'no trial after a step out of bounds')
        used += cnt
        if not ok:
            w.check(ret in (C['LBFGSERR_MINIMUMSTEP'],
                            C['LBFGSERR_MAXIMUMSTEP'],
                            C['LBFGSERR_MAXIMUMLINESEARCH']),
                    'the reason of failure', ret)
            break
        x, g = tr[-1][0], es[-1][1]
        F = es[-1][0] + c * l1(w, x, R)
        pg = pseudo(w, x, g, c, R)
        for i in range(n):
            w.check(P[0][i] == x[i], 'progress shows the accepted point')
            w.check(P[1][i] == g[i], 'progress shows the plain gradient')
        same(w, P[2], F, 'progress shows the penalized objective')
        if cut is None:
            gn = dot(pg, pg)
            w.check(P[4] >= 0, 'the gradient norm is a norm')
            same(w, P[4] * P[4], gn,
                 'progress shows the norm of the pseudo-gradient')
    w.check(used == len(T.evals), 'every evaluation is accounted for')
    for a, b in zip(T.x, x):
        w.check(a == b, 'the result is the last accepted point')


def max_wolfe(w, p):
    """A valid curvature constant: the search does not use it."""
    w.assume(p['ftol'] < .5)
    return .75


def t_optimal(w, n, rng):
    """The stopping test uses the pseudo-gradient."""
    C = native.codes()
    R = inside(rng, n)
    x0, ev = point(w, 'x', n), script(w, n, 2)
    c, eps = w.real('c', 0), w.real('eps', 0)
    w.assume(c > 0)
    T = minimize(w, x0, ev, None, m=1, epsilon=eps, max_iterations=1,
                 max_linesearch=1, linesearch=2, orthantwise_c=c,
                 orthantwise_start=rng[0], orthantwise_end=rng[1])
    w.check(T.crash is None, 'memory is respected', T.crash)
    if T.crash is not None:
        return
    pg = pseudo(w, x0, ev[0][1], c, R)
    xx = dot(x0, x0)
    small = dot(pg, pg) <= eps * eps * w.ite(xx < 1, 1., xx)
    if len(T.evals) == 1:
        w.check(T.ret == C['LBFGS_ALREADY_MINIMIZED'], 'the outcome', T.ret)
        w.check(small, 'only an optimal start is already minimized')
    else:
        w.check(w.not_(small), 'an optimal start is recognised')


def tasks(tier):
    T = []
    big = tier == 'thorough'

    def add(name, fn, limit=None, **cfg):
        T.append(Task(name, fn, cfg, None if big else limit, validate=25,
                      search=400))
    for rng in ((0, -1), (0, 0), (1, 1), (0, 1)):
        nm = '1-%d-%d' % rng
        full = rng == (0, -1)
        for tr in (1, 2, 3):
            if full or big or tr == 1 or rng == (1, 1) and tr == 2:
                add('step-%s-%d' % (nm, tr), t_steps, 45, n=1, rng=rng,
                    trials=tr)
        add('opt-' + nm, t_optimal, 40, n=1, rng=rng)
        if full or big:
            add('iter-%s-2' % nm, t_steps, 45, n=1, rng=rng, trials=1,
                iters=2, cut=8)
            add('iter-%s-2-2' % nm, t_steps, 45, n=1, rng=rng, trials=2,
                iters=2, cut=8)
            add('iter-%s-3' % nm, t_steps, 45, n=1, rng=rng, trials=1,
                iters=3, cut=8)
    for rng in ((0, -1), (0, 1), (1, 2), (1, -1), (2, 2), (2, 1), (0, 0)):
        nm = '2-%d-%d' % rng
        pen = bool(len(inside(rng, 2)))
        if pen or big or rng == (2, 2):
            add('step-%s-1' % nm, t_steps, 45, n=2, rng=rng, trials=1)
            add('opt-' + nm, t_optimal, 40, n=2, rng=rng)
        if rng in ((0, -1), (1, 2)) or big:
            add('step-%s-2' % nm, t_steps, 45, n=2, rng=rng, trials=2)
        if pen and rng != (1, 2) or big:
            add('iter-%s-2' % nm, t_steps, 45, n=2, rng=rng, trials=1,
                iters=2, cut=8)
    if big:
        add('opt-3-1-2', t_optimal, n=3, rng=(1, 2))
        add('step-3-1-2', t_steps, n=3, rng=(1, 2), trials=1)
    return T

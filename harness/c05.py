"""C05: winners and bagging."""
from vx.run import Task

from . import c04, estmod

ID = 'C05'
BOUNDS = c04.BOUNDS + '; criteria r2, accuracy, log-likelihood and AIC'
OUTSIDE = c04.OUTSIDE


def main(w, **k):
    estmod.check_c05(estmod.Run(w, **k))


def tasks(tier):
    cs = c04.cfgs(tier) + [('lasso', dict(F=2, S=2, B=1, metric='AIC')),
                           ('lasso', dict(F=1, S=2, B=1, metric='BIC')),
                           ('logistic', dict(F=2, S=2, B=1, metric='log')),
                           ('poisson', dict(F=2, S=2, B=1, metric='AIC'))]
    return [Task('%s-%s' % (m, '-'.join('%s%s' % (k, v) for k, v in
                                        c.items())), main,
                 dict(model=m, **c)) for m, c in cs]

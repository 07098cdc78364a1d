"""C04: estimates and coefficients vanish outside the selected supports."""
from vx.run import Task

from . import estmod

ID = 'C04'
BOUNDS = ('complete fits with every solver outcome (all real coefficients and '
          'scores) for 1-3 features, 1-3 outputs, 1-2 (thorough 3) supports of '
          'every pattern and 1-3 estimation bootstraps; lasso, elastic net, '
          'binary and multinomial logistic with shared and separate supports, '
          'Poisson')
OUTSIDE = ('more features, supports or bootstraps; sparse designs; the '
           'standardized case is C10')


def main(w, **k):
    estmod.check_c04(estmod.Run(w, **k))


def cfgs(tier):
    c = [('lasso', dict(F=2, S=2, B=2)), ('lasso', dict(F=3, S=1, B=2)),
         ('lasso', dict(F=1, S=2, B=1)), ('lasso', dict(F=2, S=1, B=3)),
         ('lasso', dict(F=2, S=2, B=2, fit_intercept=False)),
         ('en', dict(F=2, S=2, B=1)),
         ('logistic', dict(F=2, S=2, B=1)),
         ('logistic', dict(F=2, S=2, B=1, D=2)),
         ('logistic', dict(F=2, S=1, B=2, D=3)),
         ('logistic', dict(F=2, S=1, B=2, D=2, shared=False)),
         ('logistic', dict(F=2, S=1, B=1, D=3, shared=False)),
         ('poisson', dict(F=2, S=2, B=1))]
    if tier != 'quick':
        c += [('lasso', dict(F=2, S=3, B=2)), ('lasso', dict(F=3, S=2, B=2)),
              ('lasso', dict(F=2, S=2, B=3)), ('en', dict(F=2, S=2, B=3)),
              ('logistic', dict(F=2, S=2, B=2, D=3)),
              ('logistic', dict(F=2, S=2, B=1, D=2, shared=False)),
              ('poisson', dict(F=3, S=2, B=2))]
    return c


def tasks(tier):
    return [Task('%s-%s' % (m, '-'.join('%s%s' % (k, v) for k, v in
                                        c.items())), main,
                 dict(model=m, **c)) for m, c in cfgs(tier)]

"""C18: masked logistic fits."""
from vx.run import Task

from . import solvers

ID = 'C18'
BOUNDS = ('every coefficient mask (bool and float), real design (2-3 x 2-3), '
          'weight, penalty and optimizer answer; binary and 2-3 classes, L1 '
          'and L2, with and without intercept and warm start; the optimizers '
          'are replaced, the objective they receive is evaluated at an '
          'arbitrary point')
OUTSIDE = 'what the optimizer finds; larger shapes'


def tasks(tier):
    out = []

    def add(nm, **c):
        d = dict(N=2, F=2, K=1, pen='l1', icpt=True, wt=False, cw=None,
                 warm=False, masked='bool', labels=[0, 1], zero=True)
        d.update(c)
        out.append(Task(nm, solvers.logistic, d))
    for pen in ('l1', 'l2'):
        for icpt in (True, False):
            s = '-int' * icpt
            add('bin-%s%s' % (pen, s), pen=pen, icpt=icpt)
            add('bin-float-%s%s' % (pen, s), pen=pen, icpt=icpt,
                masked='float', warm=True)
            add('bin-F3-%s%s' % (pen, s), pen=pen, icpt=icpt, F=3)
            add('bin-wt-%s%s' % (pen, s), pen=pen, icpt=icpt, wt=True, N=3)
            add('K2-%s%s' % (pen, s), pen=pen, icpt=icpt, K=2,
                multi='multinomial')
            add('K2-warm-%s%s' % (pen, s), pen=pen, icpt=icpt, K=2,
                multi='multinomial', warm=True, masked='float')
            add('K3-F1-%s%s' % (pen, s), pen=pen, icpt=icpt, K=3, N=3, F=1,
                labels=[0, 1, 2])
            if tier != 'quick' or icpt:
                add('K3-F2-%s%s' % (pen, s), pen=pen, icpt=icpt, K=3, N=3,
                    F=2, labels=[2, 4, 5])
            if tier != 'quick':
                add('K2-F3-%s%s' % (pen, s), pen=pen, icpt=icpt, K=2, F=3,
                    multi='multinomial')
                add('K3-warm-%s%s' % (pen, s), pen=pen, icpt=icpt, K=3, N=3,
                    F=2, labels=[0, 1, 2], warm=True)
    add('bin-inf', pen='l2', Cinf=True)
    add('K3-inf', pen='l2', Cinf=True, K=3, N=3, F=1, labels=[0, 1, 2])
    for K in (1, 2, 3):
        for icpt in (True, False):
            out.append(Task('allzero-K%d%s' % (K, '-int' * icpt),
                            solvers.allzero,
                            dict(K=K, F=2, icpt=icpt, masked=True)))
    return out

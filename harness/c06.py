"""C06: which rows are fitted and which are scored."""
import numpy as np

from vx.run import Task

from . import estmod

ID = 'C06'
BOUNDS = ('complete fits on 6 tagged rows, 1-2 features, 1-2 supports of every '
          'pattern (the empty one included), 1-2 estimation bootstraps, every '
          'score and target of lasso/elastic-net/logistic/Poisson; every real '
          'selection and estimation fraction in (0, 1), stratification labels '
          'given or not')
OUTSIDE = ('how train_test_split itself realises a requested fraction or '
           'stratification (library); sparse designs')


def main(w, fr=False, strat=False, **k):
    frac = None
    if fr:
        s, e = w.real('sel_frac', .1, .9), w.real('est_frac', .1, .9)
        frac = dict(selection_frac=s, estimation_frac=e)
    st = np.array([1, 2, 1, 2, 1, 2]) if strat else None
    r = estmod.Run(w, frac=frac, stratify=st, values='zero', **k)
    estmod.check_c06(r)
    sp = r.ctx.splits[0]
    for i, c in enumerate(sp):
        if fr:
            want = s if i < 2 else e
            if c.test_size is None:
                ok = c.train_size is not None and w.near(c.train_size, want)
            else:
                ok = w.near(c.test_size, 1 - want)
                if c.train_size is not None:
                    ok = w.and_(ok, w.near(c.train_size, want))
            w.check(ok, 'the split uses the requested training fraction')
        if strat:
            w.check(c.stratify is not None and np.array_equal(
                np.asarray(c.stratify, dtype=int), st),
                'the split is stratified by the given labels')
        else:
            w.check(c.stratify is None, 'unrequested stratification')
        w.check(c.shuffle is True or c.shuffle is None,
                'splits are shuffled')


def tasks(tier):
    out = []

    def add(model, **c):
        nm = '-'.join([model] + ['%s%s' % (k, v) for k, v in c.items()])
        out.append(Task(nm, main, dict(model=model, **c)))
    for m in ('r2', 'AIC', 'AICc', 'BIC'):
        for t in (None, 'train', 'test'):
            add('lasso', F=2, S=1, B=2, metric=m, target=t)
    for m in ('acc', 'log', 'AIC', 'AICc', 'BIC'):
        for t in (None, 'train', 'test'):
            add('logistic', F=2, S=1, B=2, metric=m, target=t)
        add('logistic', F=1, S=1, B=2, D=3, metric=m)
        add('logistic', F=1, S=1, B=2, D=2, shared=False, metric=m)
    for m in ('log', 'AIC', 'AICc', 'BIC'):
        for t in (None, 'train', 'test'):
            add('poisson', F=2, S=1, B=2, metric=m, target=t)
    for m in ('lasso', 'en', 'logistic', 'poisson'):
        add(m, F=1, S=1, B=1, fr=True)
        add(m, F=1, S=1, B=1, strat=True)
        add(m, F=2, S=2, B=1)
    for m in ('r2', 'BIC'):
        add('en', F=1, S=2, B=2, metric=m)
    if tier != 'quick':
        add('lasso', F=2, S=2, B=3)
        add('lasso', F=3, S=1, B=2, metric='AICc', target='test')
        add('logistic', F=2, S=2, B=2, D=3, metric='log')
        add('poisson', F=2, S=2, B=2, metric='BIC')
    return out

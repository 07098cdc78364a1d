"""Stubs around the column subset selections."""
import numpy as np
import sklearn.decomposition
import sklearn.model_selection

from vx.core import Unsupported
from vx.rngsim import Source

CUR = 'pyuoi.decomposition.CUR'
UTIL = 'pyuoi.decomposition.utils'


class Env:
    def __init__(self, w, comps, more=(), by_value=False):
        """comps(k, n_components, data) -> components of the k-th SVD."""
        self.w = w
        self.src = Source(w, by_value)
        self.svds = []
        self.splits = []
        env = self

        class TSVD:
            def __init__(self, n_components=2, *, algorithm='randomized',
                         n_iter=5, n_oversamples=10,
                         power_iteration_normalizer='auto',
                         random_state=None, tol=0.):
                self.n_components = n_components
                self.kw = dict(algorithm=algorithm, n_iter=n_iter, tol=tol,
                               random_state=random_state)

            def fit(self, X, y=None):
                at = env.src.use(self.kw['random_state'], 'svd')
                self.components_ = comps(len(env.svds), self.n_components, X)
                env.svds.append((self.n_components, X.copy(), self.kw, at))
                return self

            def fit_transform(self, X, y=None):
                self.fit(X)
                raise Unsupported('fit_transform')

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                if n == 'components_':
                    raise AttributeError(n)
                raise Unsupported('TruncatedSVD attribute ' + n)

        def tts(*arrays, test_size=None, train_size=None, random_state=None,
                shuffle=True, stratify=None):
            n = arrays[0].shape[0]
            at = env.src.use(random_state, 'split')
            k = len(env.splits)
            rows = [i for i in range(n) if i != k % n]
            rows = rows[k % 2:] + rows[:k % 2]
            env.splits.append(dict(rows=rows, test_size=test_size, n=n,
                                   train_size=train_size, shuffle=shuffle,
                                   stratify=stratify, at=at,
                                   random_state=random_state))
            out = []
            for a in arrays:
                out += [a[rows], a[[k % n]]]
            return out
        self.L = w.load(overrides=[
            (sklearn.decomposition.TruncatedSVD, TSVD),
            (sklearn.model_selection.train_test_split, tts)] +
            self.src.overrides() + list(more))


def chosen(w, log, pi, c):
    """Columns whose draw falls below min(1, c * leverage)."""
    return [j for j in range(len(pi))
            if bool(w.and_(log[j][3] < c * pi[j], log[j][3] < 1))]

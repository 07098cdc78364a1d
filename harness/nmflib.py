"""Stubs around the UoI NMF models."""
import itertools

import numpy as np
import scipy.optimize
import sklearn.cluster
import sklearn.decomposition

from vx.core import Unsupported
from vx.rngsim import Source

from . import fitlib

NMF = 'pyuoi.decomposition.NMF'


class Env:
    """bases(call, k, F) -> H; labels(n) -> cluster labels;
    diss(i, j) -> dissimilarity of the bases of two factorizations"""

    def __init__(self, w, bases, labels, real_diss=False,
                 by_value=False):
        self.w = w
        self.src = Source(w, by_value)
        self.fits = []          # (n_components, data, random_state, H)
        self.made = []          # constructor settings
        self.clustered = []
        self.nn = []
        self.diss = {}
        env = self

        class Model:
            def __init__(self, **kw):
                self.__dict__['kw'] = dict(kw)
                env.made.append((type(self).__name__, dict(kw)))

            def set_params(self, **kw):
                self.kw.update(kw)
                return self

            def get_params(self, deep=True):
                return dict(self.kw)

            def __getattr__(self, n):
                if n.startswith('__') or n.endswith('_'):
                    raise AttributeError(n)
                raise Unsupported('%s attribute %s' % (
                    type(self).__name__, n))

        class FakeNMF(Model):
            def fit(self, X, y=None):
                k = self.kw['n_components']
                H = bases(len(env.fits), k, X.shape[1])
                env.fits.append((k, X.copy(), self.kw.get('random_state'),
                                 H.copy()))
                self.__dict__['components_'] = H
                self.__dict__['n_iter_'] = 3
                return self

            def fit_transform(self, X, y=None):
                self.fit(X)
                raise Unsupported('fit_transform')

        class FakeCluster(Model):
            def fit_predict(self, X, y=None):
                lab = labels(X.shape[0])
                env.clustered.append((X.copy(), lab))
                self.__dict__['labels_'] = lab
                return lab

            def fit(self, X, y=None):
                self.fit_predict(X)
                return self
        self.NMF, self.Cluster = FakeNMF, FakeCluster

        def nnls(A, b, maxiter=None):
            x = env.regress(A, b)
            return x, env.w.real('rnorm%d' % len(env.nn), 0, 9)
        self.L = w.load(overrides=[
            (sklearn.decomposition.NMF, FakeNMF),
            (sklearn.cluster.DBSCAN, FakeCluster),
            (scipy.optimize.nnls, nnls)] + self.src.overrides())
        if not real_diss:
            fitlib.patch(self.L, 'pyuoi.decomposition.utils',
                         'dissimilarity', self.dissim)

    def regress(self, A, b):
        if np.ndim(b) != 1:
            raise Unsupported('several rows at once')
        i = len(self.nn)
        x = self.w.reals('w%d' % i, np.shape(A)[1], 0, 5)
        self.nn.append((A.copy(), b.copy(), x.copy()))
        return x

    def which(self, H):
        for i, f in enumerate(self.fits):
            if np.shape(f[3]) == np.shape(H) and all(
                    self.w.same(a, b) for a, b in zip(fitlib._flat(f[3]),
                                                      fitlib._flat(H))):
                return i
        raise Unsupported('dissimilarity of something else')

    def dissim(self, H1, H2):
        k = tuple(sorted((self.which(H1), self.which(H2))))
        if k not in self.diss:
            self.diss[k] = self.w.real('d_%d_%d' % k, 0, 1)
        return self.diss[k]

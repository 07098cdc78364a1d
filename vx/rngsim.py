"""Random states with unknown draws.

Every stream (a seed, a caller's generator, the global generator, a freshly
seeded one) is an infinite sequence of unknowns addressed by its position, so
that equal seeds give equal draws and every other relation between draws is
left open.  `Source.log` lists the draws: (stream, position, kind, value)."""
import itertools
import numbers

import numpy as np

from .core import SymBase, SymInt, Unsupported


class Source:
    def __init__(self, w, by_value=False):
        self.w = w
        self.seeds = [] if by_value else None   # seeds seen, in order
        self.log = []
        self.args = {}      # (stream, position) -> distribution parameters
        self.vals = w.__dict__.setdefault('_rnd', {})
        self.fresh = 0
        self.fixed = None   # (stream, position, kind) -> value or None
        self.limit = None   # (kind, value): assumptions on draws
        src = self

        class RandomState(State):
            _src = src

            def __init__(self, seed=None):
                if seed is None:
                    src.fresh += 1
                    key = ('fresh', src.fresh)
                elif src.seeds is not None and isinstance(
                        seed, (numbers.Integral, SymInt)):
                    if bool(seed < 0):
                        raise ValueError('Seed must be between 0 and 2**32')
                    key = ('seed', src.seed_of(seed))
                elif isinstance(seed, SymBase):
                    raise Unsupported('symbolic seed')
                elif isinstance(seed, numbers.Integral):
                    if seed < 0:
                        raise ValueError('Seed must be between 0 and 2**32')
                    key = ('seed', int(seed))
                else:
                    raise Unsupported('seed ' + type(seed).__name__)
                self.key, self.pos = key, 0
        self.RandomState = RandomState

        class Generator(RandomState):
            def __init__(self, seed=None):
                if isinstance(seed, State):
                    raise Unsupported('generator of a state')
                RandomState.__init__(self, seed)
                self.key = ('generator',) + self.key
        self.Generator = Generator
        self.glob = self.state(('global',))

    def seed_of(self, seed):
        """Number of the first equal seed."""
        for i, old in enumerate(self.seeds):
            if bool(seed == old):
                return i
        self.seeds.append(seed)
        return len(self.seeds) - 1

    def state(self, key, pos=0):
        s = self.RandomState.__new__(self.RandomState)
        s.key, s.pos = key, pos
        return s

    def value(self, key, pos, kind, lo, hi):
        k = (key, pos, kind)
        if self.fixed is not None and k not in self.vals:
            v = self.fixed(key, pos, kind)
            if v is not None:
                return v
        if k not in self.vals:
            nm = 'rnd_%s_%d%s' % ('_'.join(str(i) for i in key), pos, kind)
            if kind in ('i', 'po', 'bi', 'mu'):
                nm += '_%s_%s' % (lo, hi)
                v = self.w.int(nm, lo, hi - 1)
            else:
                v = self.w.real(nm, lo, hi)
                if kind == 'u':
                    self.w.assume(v < 1)
            if self.limit is not None:
                self.limit(kind, v)
            self.vals[k] = v
        return self.vals[k]

    def overrides(self):
        import sklearn.utils
        g = self.glob
        out = [(np.random.RandomState, self.RandomState),
               (np.random.default_rng, self.Generator),
               (np.random.mtrand._rand, g),
               (sklearn.utils.check_random_state, self.check)]
        for n in ('rand', 'randn', 'randint', 'random', 'random_sample',
                  'uniform', 'normal', 'standard_normal', 'permutation',
                  'shuffle', 'choice', 'poisson', 'seed', 'multinomial',
                  'binomial', 'exponential', 'gamma', 'beta', 'laplace',
                  'get_state', 'set_state'):
            out.append((getattr(np.random, n), getattr(g, n)))
        return out

    def check(self, seed):
        if seed is None or seed is np.random or \
                getattr(seed, '__name__', '') == 'numpy.random':
            return self.glob
        if isinstance(seed, State):
            return seed
        if isinstance(seed, (numbers.Integral, SymInt)):
            return self.RandomState(seed)
        raise ValueError('%r cannot be used to seed a RandomState' % (seed,))

    def use(self, rs, what):
        """A library routine draws from `rs` (as given to it): the identity
        of what it draws."""
        st = self.check(rs)
        at = (st.key, st.pos, what)
        st.pos += 1
        self.log.append((at[0], at[1], what, None))
        return at


class State:
    def __repr__(self):
        return 'State%r@%d' % (self.key, self.pos)

    def _one(self, kind, lo=None, hi=None):
        s = self._src
        v = s.value(self.key, self.pos, kind, lo, hi)
        s.log.append((self.key, self.pos, kind, v))
        self.pos += 1
        return v

    def _many(self, size, f):
        if size is None or size == ():
            return f()
        if isinstance(size, numbers.Integral):
            size = (size,)
        size = tuple(int(i) for i in size)
        n = int(np.prod(size))
        vs = [f() for _ in range(n)]
        w = self._src.w
        if n == 0:
            return np.zeros(size)
        return w.array(vs).reshape(size)

    def _u(self):
        return self._one('u', 0, 1)

    def random_sample(self, size=None):
        return self._many(size, self._u)

    random = random_sample

    def rand(self, *d):
        return self._many(d, self._u)

    def uniform(self, low=0., high=1., size=None):
        if np.ndim(low) or np.ndim(high):
            raise Unsupported('uniform with array bounds')
        return self._many(size, lambda: low + (high - low) * self._u())

    def _g(self):
        return self._one('g', -9, 9)

    def randn(self, *d):
        return self._many(d, self._g)

    def standard_normal(self, size=None):
        return self._many(size, self._g)

    def normal(self, loc=0., scale=1., size=None):
        if np.ndim(loc) or np.ndim(scale):
            raise Unsupported('normal with array parameters')
        return self._many(size, lambda: loc + scale * self._g())

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if isinstance(low, SymBase) or isinstance(high, SymBase):
            raise Unsupported('symbolic integer range')
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        r = self._many(size, lambda: self._one('i', low, high))
        return r if np.ndim(r) == 0 else r.astype(dtype)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + (1 if endpoint else 0), size, dtype)

    def _with(self, args, kind, lo, hi):
        self._src.args[self.key, self.pos] = args
        return self._one(kind, lo, hi)

    @staticmethod
    def _each(size, *args):
        """Parameters of every draw, shape of the result"""
        nd = [a for a in args if np.ndim(a)]
        if not nd:
            return None, size
        sh = np.shape(nd[0])
        if size is not None and (tuple(size) if np.ndim(size) else
                                 (size,)) != tuple(sh) or any(
                np.shape(a) != sh for a in nd):
            raise Unsupported('broadcast random parameters')
        flat = [list(a.ravel()) if np.ndim(a) else [a] * int(np.prod(sh))
                for a in args]
        return list(zip(*flat)), sh

    def _draws(self, size, args, f):
        each, sh = self._each(size, *args)
        if each is None:
            return self._many(sh, lambda: f(*args))
        it = iter(each)
        return self._many(sh, lambda: f(*next(it)))

    def gamma(self, shape, scale=1., size=None):
        return self._draws(size, (shape, scale), lambda a, b:
                           b * self._with((a,), 'ga', 1. / 64, 9))

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1., size)

    def poisson(self, lam=1., size=None):
        return self._draws(size, (lam,), lambda a: self._with(
            (a,), 'po', 0, 5))

    def binomial(self, n, p, size=None):
        def f(n, p):
            if isinstance(n, SymBase):
                raise Unsupported('symbolic number of trials')
            return self._with((n, p), 'bi', 0, int(n) + 1)
        return self._draws(size, (n, p), f)

    def multinomial(self, n, pvals, size=None):
        if size is not None or n != 1:
            raise Unsupported('multinomial')
        k = len(pvals)
        c = self._with((n,) + tuple(pvals[i] for i in range(k)), 'mu', 0, k)
        return self._src.w.array([
            self._src.w.ite(c == i, 1, 0) for i in range(k)])

    def _perm(self, n):
        if n > 5:
            raise Unsupported('permutation of more than five')
        s = self._src
        k = (self.key, self.pos, 'p')
        if k not in s.vals:
            s.vals[k] = s.w.choose(
                'perm_%s_%d_%d' % ('_'.join(str(i) for i in self.key),
                                   self.pos, n),
                list(itertools.permutations(range(n))))
        p = s.vals[k]
        s.log.append((self.key, self.pos, 'p', p))
        self.pos += 1
        return list(p)

    def permutation(self, x):
        if isinstance(x, numbers.Integral):
            return np.array(self._perm(int(x)), dtype=int)
        p = self._perm(len(x))
        return x[p] if hasattr(x, 'dtype') else self._src.w.array(
            [x[i] for i in p])

    def shuffle(self, x):
        p = self._perm(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = x[p].copy()

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise Unsupported('weighted choice')
        pool = list(range(int(a))) if isinstance(a, numbers.Integral) else a
        n = len(pool)
        if not replace:
            k = 1 if size is None else int(np.prod(size))
            if k > n:
                raise ValueError("Cannot take a larger sample than "
                                 "population when 'replace=False'")
            idx = self._perm(n)[:k]
            if size is None:
                return pool[idx[0]]
            r = np.array(idx, dtype=int).reshape(size)
            return r if isinstance(a, numbers.Integral) else np.asarray(
                pool)[r]
        raise Unsupported('choice with replacement')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('random draw ' + n)
        return f

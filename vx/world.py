"""The interface a harness sees.  The same harness runs symbolically (inputs
are solver variables, checks are solver queries) and concretely (inputs are
numbers, the uninstrumented sources run on real numpy); the concrete mode
replays counterexamples and validates the symbolic paths."""
import math
import pickle
import random
import time
import traceback
import warnings

import numpy as np
import z3

from . import alg, arr, core, load
from .core import (Control, PathEnd, SymBase, SymBool, SymInt, SymNum,
                   SymReal, Unsupported, Violated, feval, has_uf, is_sym,
                   lift_bool, lift_real, special)


class Rejected(Control):
    """Concrete run outside the harness' assumptions."""


class Failed(Control):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Res:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


def _flat(x):
    if isinstance(x, arr.LazyUnique):
        x = x._mat()
    if isinstance(x, arr.SymArray):
        return list(x.view(np.ndarray).ravel()) if x.ndim else [x._one()]
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        r = []
        for i in x:
            r.extend(_flat(i))
        return r
    return [x]


def shape_of(x):
    if isinstance(x, arr.LazyUnique):
        x = x._mat()
    return np.shape(x) if not isinstance(x, SymBase) else ()


class World:
    def call(self, f, *a, **k):
        try:
            return Res(f(*a, **k))
        except Exception as ex:
            return Res(None, ex)

    def raises(self, f, *a, exc=Exception, **k):
        r = self.call(f, *a, **k)
        return r.exc is not None and isinstance(r.exc, exc)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real('%s%s' % (name, list(ix)), lo, hi)
        return self._pack(out, 'f')

    def ints(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.int('%s%s' % (name, list(ix)), lo, hi)
        return self._pack(out, 'i')

    def bools(self, name, shape):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.bool('%s%s' % (name, list(ix)))
        return self._pack(out, 'b')

    def watch_exp(self, cb):
        """cb sees the argument of every exponential (symbolic runs only)."""

    def linear(self):
        """Try linear abstractions of queries first."""
        if self.sym:
            self.e.linear = True

    def sqrt(self, x):
        return core.sym_sqrt(x) if is_sym(x) else np.sqrt(x)

    def all(self, xs):
        r = True
        for x in xs:
            r = self.and_(r, x)
        return r

    def any(self, xs):
        r = False
        for x in xs:
            r = self.or_(r, x)
        return r


class Sym(World):
    sym = True

    def __init__(self, eng, runner):
        self.e = eng
        self.r = runner
        self.obs = []
        self.ldr = None
        self.n_checks = 0

    def watch_exp(self, cb):
        self.e.watch_exp = cb

    # inputs
    def real(self, name, lo=None, hi=None):
        c = self.e.var(name, 'r')
        if lo is not None:
            self.e.add(c >= core.rv(lo))
            if lo >= 0:
                self.e.nonneg[c.get_id()] = c
            if lo > 0:
                self.e.pos_ids[c.get_id()] = c
        if hi is not None:
            self.e.add(c <= core.rv(hi))
        return SymReal(c)

    def double(self, name):
        from .fp import SymFP
        return SymFP(self.e.var(name, 'd'))

    def int(self, name, lo=None, hi=None):
        c = self.e.var(name, 'i')
        if lo is not None:
            self.e.add(c >= lo)
        if hi is not None:
            self.e.add(c <= hi)
        return SymInt(c)

    def bool(self, name):
        return SymBool(self.e.var(name, 'b'))

    def concrete_int(self, v):
        """An integer result as a number (forks)."""
        if isinstance(v, SymBool):
            return int(bool(v))
        return self.e.concretize(v.e) if is_sym(v) else v

    def choose(self, name, options):
        c = self.e.var(name, 'i')
        self.e.add(z3.And(c >= 0, c < len(options)))
        self.e.model = None
        return options[self.e.concretize(c)]

    def _pack(self, a, kind):
        r = arr.SymArray.of(a, {'f': float, 'i': int, 'b': bool}[kind])
        return r

    def array(self, x):
        return arr.SymArray.of(x)

    # logic
    def and_(self, a, b):
        if not is_sym(a):
            return b if a else False
        if not is_sym(b):
            return a if b else False
        return SymBool(z3.And(lift_bool(a), lift_bool(b)))

    def or_(self, a, b):
        if not is_sym(a):
            return True if a else b
        if not is_sym(b):
            return True if b else a
        return SymBool(z3.Or(lift_bool(a), lift_bool(b)))

    def not_(self, a):
        if not is_sym(a):
            return not a
        return SymBool(z3.Not(lift_bool(a)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise PathEnd()
            return
        self.e.assume(lift_bool(c))

    def near(self, a, b, tol=1e-6):
        """a == b, exact symbolically and within tol concretely."""
        if is_sym(a) or is_sym(b):
            if special(a) or special(b):
                return False
            d = self._diff(a, b)
            if d is None:
                return True
            return SymBool(z3.Not(d))
        return _close(a, b, tol)

    # checks
    def check(self, cond, label, info=None):
        self.n_checks += 1
        self.e.stats.checks += 1
        self.r.labels.add(label)
        if isinstance(cond, arr.SymArray):
            cond = self.all(_flat(cond))
        if not is_sym(cond):
            if cond:
                self.e.stats.trivial += 1
                return
            self._fail(label, None, info)
            return
        neg = z3.simplify(z3.Not(lift_bool(cond)))
        self._decide([neg], label, info)

    def _decide(self, negs, label, info=None, strong=None, weak=None):
        """negs: the check fails iff one of negs holds."""
        neg = z3.Or(negs) if len(negs) > 1 else negs[0]
        c = core._const(z3.simplify(neg))
        if c is False:
            self.e.stats.trivial += 1
            return
        r = None
        if strong is not None:
            r, m = self.e._check(strong, timeout=self.e.QT)
            if r == z3.sat and self._try(label, m, info):
                return self._fail_done(label, neg)
        r, m = self.e._check(neg, timeout=self.e.CT)
        if r == z3.unknown and len(negs) > 1:
            r = z3.unsat
            for n in negs:
                r1, m1 = self.e._check(n, timeout=self.e.CT)
                if r1 == z3.sat:
                    r, m = r1, m1
                    break
                if r1 == z3.unknown:
                    r = z3.unknown
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.e.stats.unknown_checks += 1
            self.r.note_unknown(label)
            # a concrete look before giving up
            r0, m0 = self.e._check()
            if r0 == z3.sat and self._try(label, m0, info):
                return self._fail_done(label, neg)
            return
        if self._try(label, m, info, search=weak is None):
            return self._fail_done(label, neg)
        if weak is not None:
            # float constants in the sources are rounded; equality is
            # decided up to a relative 1e-7
            r, m2 = self.e._check(weak, timeout=self.e.CT)
            if r == z3.unsat:
                return
            if r == z3.sat and self._try(label, m2, info, search=True):
                return self._fail_done(label, neg)
        for mm in self._more_models(neg):
            if self._try(label, mm, info):
                return self._fail_done(label, neg)
        self.r.note_unconfirmed(label)
        self.e.assume(z3.Not(neg))

    def _more_models(self, neg):
        """Models of the violation with all real inputs in a small range."""
        small = [z3.And(c >= -8, c <= 8) for c in self.e.inputs.values()
                 if z3.is_real(c)]
        if small:
            r, m = self.e._check(neg, *small, timeout=self.e.QT)
            if r == z3.sat:
                yield m

    def _fail(self, label, neg, info=None):
        """Concretely false on this path: any model of the path is a
        counterexample."""
        r, m = self.e._check()
        if r == z3.unsat:
            raise PathEnd()
        if r == z3.sat and self._try(label, m, info, search=True):
            return self._fail_done(label, None)
        if r == z3.sat:
            for mm in self._more_models(z3.BoolVal(True)):
                if self._try(label, mm, info):
                    return self._fail_done(label, None)
        self.r.note_unconfirmed(label)

    def _fail_done(self, label, neg):
        if self.r.is_known(label):
            if neg is None:
                return
            self.e.assume(z3.Not(neg))
            return
        raise Violated(label)

    def _try(self, label, m, info, search=False):
        env = self.e.env_of(m)
        return self.r.confirm(label, env, info, search)

    def _diff(self, a, b):
        """z3 condition a != b, or None when identical."""
        if isinstance(a, (SymBool, bool, np.bool_)) and \
                isinstance(b, (SymBool, bool, np.bool_)):
            d = z3.simplify(z3.Xor(lift_bool(a), lift_bool(b)))
            return None if z3.is_false(d) else d
        x, y = lift_real(a), lift_real(b)
        if x.eq(y):
            return None
        d = z3.simplify(x - y, som=True)
        c = core._const(d)
        if c is not None:
            return None if abs(c) <= 1e-9 * (1 + _mag(a) + _mag(b)) \
                else z3.BoolVal(True)
        try:
            at = self.e.atoms
            n, dd = alg.desq(alg.rat(x - y, at), at)
            if not n or self._tiny(n, dd):
                return None
            return alg.term(n, self.e.atoms) != 0
        except alg.Big:
            pass
        n, dd = ratf(x - y)
        n = z3.simplify(n, som=True)
        c = core._const(n)
        if c is not None and c == 0:
            return None
        if dd is None:
            return n != 0
        return x != y if dd is False else n != 0

    def _tiny(self, n, dd):
        """|n / dd| is within rounding: dd is a sum of positive products of
        exponentials that dominates n term by term."""
        if max(abs(c) for c in n.values()) > 1:
            return False
        at = self.e.atoms.terms
        d = alg.d_poly(dd)
        return all(m in d and abs(c) <= d[m] * 1e-9 for m, c in n.items()) \
            and all(c > 0 and all(core._is_exp(at[i]) for i, _ in m)
                    for f in dd for m, c in f)

    def same(self, a, b):
        """Are the terms identical?  (Never forks; may say no.)"""
        if special(a) or special(b):
            return False
        if not is_sym(a) and not is_sym(b):
            return _close(a, b, 1e-9)
        return self._diff(a, b) is None

    def eq(self, a, b, label, tol=1e-6, info=None):
        self.r.labels.add(label)
        if isinstance(a, arr.LazyUnique):
            a = a._mat()
        if isinstance(b, arr.LazyUnique):
            b = b._mat()
        self.n_checks += 1
        self.e.stats.checks += 1
        self.observe(label, a)
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            return self._fail(label, None, 'shapes %s %s' % (sa, sb))
        negs, strong, weak = [], [], []
        for u, v in zip(_flat(a), _flat(b)):
            if special(u) or special(v):
                if not is_sym(u) and not is_sym(v) and _close(u, v, tol):
                    continue
                return self._fail(label, None, info)
            if not is_sym(u) and not is_sym(v):
                if isinstance(u, core.Fraction) or \
                        isinstance(v, core.Fraction):
                    u, v = float(u), float(v)
                if _close(u, v, tol):
                    continue
                return self._fail(label, None, info)
            d = self._diff(u, v)
            if d is None:
                continue
            negs.append(d)
            if not (isinstance(u, (SymBool, bool)) or
                    isinstance(v, (SymBool, bool))):
                x, y = lift_real(u), lift_real(v)
                strong.append(z3.And(z3.Or(x - y > 0.01, y - x > 0.01),
                                     x < 1000, x > -1000,
                                     y < 1000, y > -1000))
                ex, ey = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
                t = (ex + ey + 1) / 10 ** 7
                weak.append(z3.Or(x - y > t, y - x > t))
        if not negs:
            self.e.stats.trivial += 1
            return
        self._decide(negs, label, info,
                     z3.Or(strong) if strong else None,
                     z3.Or(weak) if len(weak) == len(negs) else None)

    def observe(self, label, v):
        self.obs.append((label, v))

    def load(self, overrides=(), absent=(), stubs=None):
        L = load.Loader(True, list(overrides), absent)
        L.modstub.update(stubs or {})
        self.ldr = L
        return L


def _mag(a):
    return abs(float(a)) if not is_sym(a) else 0.


def _close(u, v, tol):
    if isinstance(u, (str, bytes)) or isinstance(v, (str, bytes)) or \
            u is None or v is None:
        return u == v
    try:
        u, v = float(u), float(v)
    except (TypeError, ValueError):
        return u == v
    if math.isnan(u) or math.isnan(v):
        return math.isnan(u) and math.isnan(v)
    if math.isinf(u) or math.isinf(v):
        return u == v
    return abs(u - v) <= tol * (1 + max(abs(u), abs(v)))


def ratf(e):
    """(numerator, denominator) of a rational-function term; denominator None
    when 1, False when the term is not a pure rational function."""
    cache = {}

    def mul(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a * b

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        kind = t.decl().kind() if z3.is_app(t) else None
        if kind == z3.Z3_OP_ADD or kind == z3.Z3_OP_SUB:
            ch = [go(c) for c in t.children()]
            # group by denominator
            groups = []
            for i, (n, d) in enumerate(ch):
                if i and kind == z3.Z3_OP_SUB:
                    n = -n
                for g in groups:
                    if (g[1] is None and d is None) or (
                            g[1] is not None and d is not None and
                            g[1].eq(d)):
                        g[0] = g[0] + n
                        break
                else:
                    groups.append([n, d])
            n, d = groups[0]
            for n2, d2 in groups[1:]:
                n = (n if d2 is None else n * d2) + \
                    (n2 if d is None else n2 * d)
                d = mul(d, d2)
            r = (n, d)
        elif kind == z3.Z3_OP_UMINUS:
            n, d = go(t.arg(0))
            r = (-n, d)
        elif kind == z3.Z3_OP_MUL:
            n, d = go(t.arg(0))
            for c in t.children()[1:]:
                n2, d2 = go(c)
                n, d = n * n2, mul(d, d2)
            r = (n, d)
        elif kind == z3.Z3_OP_DIV:
            n, d = go(t.arg(0))
            n2, d2 = go(t.arg(1))
            n = n if d2 is None else n * d2
            d = mul(d, n2)
            d = None if d is None else z3.simplify(d, som=True)
            r = (n, d)
        else:
            r = (t, None)
        cache[k] = r
        return r
    return go(e)


class Conc(World):
    sym = False

    def __init__(self, env, rnd=None, jitter=None):
        self.env = env
        self.obs = []
        self.ldr = None
        self.rnd = rnd
        self.jitter = jitter
        self.used = {}
        self.diverged = False

    def _get(self, name, default, gen):
        if name in self.used:
            raise RuntimeError('input %s requested twice' % name)
        if self.env is not None and name in self.env:
            v = self.env[name]
            if self.jitter is not None and isinstance(
                    v, (float, core.Fraction)):
                v = float(v) * (1 + self.jitter.uniform(-1e-4, 1e-4))
        elif self.rnd is not None:
            v = gen(self.rnd)
        else:
            self.diverged = True
            v = default
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        def gen(r):
            k = r.random()
            if lo is not None and hi is not None:
                return r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi)])
            if k < .15:
                v = 0.
            elif k < .4:
                v = float(r.randint(-3, 3))
            else:
                v = r.gauss(0, 1.5)
            if lo is not None:
                v = lo + abs(v)
            elif hi is not None:
                v = hi - abs(v)
            return v
        v = float(self._get(name, 0. if lo is None else float(lo), gen))
        if self.env is not None and (lo is not None and v < lo or
                                     hi is not None and v > hi):
            v = lo if lo is not None and v < lo else hi
        return np.float64(v)

    def double(self, name):
        return float(self._get(name, 0., lambda r: r.choice(
            [r.uniform(-.5, 1.5), r.randint(-20, 20) / 12.])))

    def int(self, name, lo=None, hi=None):
        def gen(r):
            return r.randint(lo if lo is not None else (hi or 0) - 6,
                             hi if hi is not None else (lo or 0) + 6)
        return int(self._get(name, lo or 0, gen))

    def bool(self, name):
        return np.bool_(self._get(name, False, lambda r: r.random() < .5))

    def choose(self, name, options):
        return options[int(self._get(
            name, 0, lambda r: r.randrange(len(options))))]

    def concrete_int(self, v):
        return v

    def _pack(self, a, kind):
        return a.astype({'f': float, 'i': int, 'b': bool}[kind])

    def array(self, x):
        return np.array(x)

    def and_(self, a, b):
        return bool(a) and bool(b)

    def or_(self, a, b):
        return bool(a) or bool(b)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not bool(np.all(c)):
            raise Rejected()

    def near(self, a, b, tol=1e-6):
        return _close(a, b, tol)

    def check(self, cond, label, info=None):
        if not bool(np.all(cond)):
            raise Failed(label, info)

    def same(self, a, b):
        return _close(a, b, 1e-9)

    def eq(self, a, b, label, tol=1e-6, info=None):
        self.observe(label, a)
        if np.shape(a) != np.shape(b):
            raise Failed(label, 'shapes %s and %s' % (np.shape(a),
                                                      np.shape(b)))
        for u, v in zip(_flat(a), _flat(b)):
            if not _close(u, v, tol):
                raise Failed(label, 'got %s, expected %s' % (_s(a), _s(b)))

    def observe(self, label, v):
        self.obs.append((label, v))

    def load(self, overrides=(), absent=(), stubs=None):
        L = load.Loader(False, list(overrides), absent)
        L.override(np.empty, _poison_empty)
        L.override(np.empty_like, _poison_like)
        L.modstub.update(stubs or {})
        self.ldr = L
        return L


def _poison(r):
    if r.dtype.kind == 'f':
        r.fill(-7.25e5)
    elif r.dtype.kind in 'iu':
        r.fill(77777)
    elif r.dtype.kind == 'b':
        r.fill(True)
    return r


def _poison_empty(shape, dtype=float, order='C', **k):
    return _poison(np.empty(shape, dtype, order))


def _poison_like(a, *p, **k):
    return _poison(np.empty_like(a, *p, **k))


def _s(x):
    return str(np.asarray(x)).replace('\n', ' ')[:160]


# --------------------------------------------------------------------------

class Runner:
    """Runs one harness configuration over all its paths."""

    def __init__(self, fn, cfg, deadline, known=(), max_paths=10 ** 6,
                 validate=40, search=60, seed=1):
        self.fn, self.cfg = fn, cfg
        self.deadline = deadline
        self.known = set(known)
        self.max_paths = max_paths
        self.validate = validate
        self.search = search
        self.seed = seed
        self.breadcrumb = None
        self.labels = set()
        self.unknown = {}
        self.unconf = {}
        self.unsupported = {}
        self.mismatch = []
        self.violations = []       # dicts
        self.known_hit = {}
        self.validated = 0
        self.replayed = 0
        self.concolic = 0
        self.samples = []
        self.done_paths = 0
        self.last_fail = None
        self.funcs = set()

    def is_known(self, label):
        return label in self.known

    def note_unknown(self, label):
        self.unknown[label] = self.unknown.get(label, 0) + 1

    def note_unconfirmed(self, label):
        self.unconf[label] = self.unconf.get(label, 0) + 1

    # concrete execution
    def concrete(self, env, rnd=None, jitter=None):
        """-> (status, world, failure).  status: ok, fail, exc, rejected"""
        save = core.ENG
        core.ENG = None
        if self.breadcrumb:
            with open(self.breadcrumb, 'wb') as f:
                pickle.dump((env, rnd.getstate() if rnd else None), f)
        w = Conc(env, rnd, jitter)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                try:
                    self.fn(w, **self.cfg)
                    return 'ok', w, None
                except Rejected:
                    return 'rejected', w, None
                except Failed as f:
                    return 'fail', w, f
                except Unsupported as ex:
                    return 'rejected', w, None
                except Exception as ex:
                    if _ours(ex):
                        return 'rejected', w, ex
                    return 'exc', w, ex
        finally:
            core.ENG = save

    def confirm(self, label, env, info=None, search=False):
        """Replay on the real code; True when a check really fails."""
        self.replayed += 1
        st, w, f = self.concrete(env)
        if self._bad(st, f, label):
            self.record(label, w.used, f, info)
            return True
        if search and not self.is_known(label):
            r = random.Random(self.seed * 7919 + 13)
            n = self.search
            if self.unconf.get(label, 0) >= 2:
                n = 5
            for i in range(n):
                if i % 3 == 2:
                    st, w, f = self.concrete(None, rnd=r)
                else:
                    e2 = {k: (float(v) + r.gauss(0, .3 * (1 + i % 4)))
                          if isinstance(v, core.Fraction) else v
                          for k, v in env.items()}
                    st, w, f = self.concrete(e2, rnd=r)
                if self._bad(st, f, label):
                    self.record(label, w.used, f, info)
                    return True
        return False

    def _bad(self, st, f, label):
        if st == 'fail':
            if self.is_known(f.label):
                return f.label == label
            return True
        return False

    def record(self, label, env, f, info=None):
        lab = f.label if isinstance(f, Failed) else label
        if self.is_known(lab):
            self.known_hit.setdefault(lab, _env(env))
            return
        if any(v['label'] == lab for v in self.violations):
            return
        self.violations.append(dict(
            label=lab, detail=str(getattr(f, 'detail', None) or info or f),
            env=_env(env)))

    # symbolic execution
    def run(self, profile=True):
        eng = core.Engine(deadline=self.deadline, max_paths=self.max_paths)
        self.eng = eng
        self.cur = None
        first = [profile]

        def body():
            self.cur = Sym(eng, self)
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                if self.done_paths < 3 and profile:
                    import sys
                    sys.setprofile(self._prof)
                    try:
                        self.fn(self.cur, **self.cfg)
                    finally:
                        sys.setprofile(None)
                else:
                    self.fn(self.cur, **self.cfg)

        try:
            self.exhausted = eng.run(body, self._on_path)
        except core.BudgetOut:
            self.exhausted = False
        if self.violations:
            self.exhausted = False
        return self

    def _prof(self, frame, ev, arg):
        if ev == 'call':
            c = frame.f_code
            if c.co_filename.startswith(load.SRC):
                self.funcs.add('%s:%s' % (
                    c.co_filename[len(load.SRC) + 1:],
                    getattr(c, 'co_qualname', c.co_name)))

    def _on_path(self, eng, out, exc):
        self.done_paths += 1
        if out == 'violated':
            return len(self.violations) >= 3
        try:
            # a model is only needed to replay a finished path
            r, m = eng._check(timeout=None if out in (
                'exception', 'unsupported') else 2500)
        except core.BudgetOut:
            return True
        if r == z3.unsat:
            if out != 'cut':
                eng.stats.paths -= 1
                eng.stats.cut += 1
            return False
        if out == 'exception':
            return self._on_exc(exc, eng, r, m)
        if out == 'unsupported':
            k = str(exc) or type(exc).__name__
            tb = traceback.extract_tb(exc.__traceback__)
            fr = [t for t in tb if t.filename.startswith(load.SRC)]
            where = '%s:%d' % (fr[-1].filename[len(load.SRC) + 1:],
                               fr[-1].lineno) if fr else ''
            key = '%s @%s' % (k[:120], where)
            self.unsupported[key] = self.unsupported.get(key, 0) + 1
            self.unsup_exc = exc
            if r == z3.sat and self.unsupported[key] <= 8:
                self.concolic += 1
                self._probe(eng.env_of(m))
            return len(self.violations) >= 3
        # finished path: validate against the real code
        if r != z3.sat:
            return False
        n = self.done_paths
        if n <= self.validate or n % 25 == 0:
            env = eng.env_of(m)
            self.replayed += 1
            st, w, f = self.concrete(env)
            if st == 'fail':
                if not self.is_known(f.label):
                    self._robust(env, f)
            elif st == 'ok':
                if getattr(self.cur, 'abstract', False):
                    pass                 # unknowns the replay cannot follow
                elif self._same(w, env):
                    self.validated += 1
                else:
                    self.mismatch.append(self._why)
                if len(self.samples) < 4:
                    self.samples.append(dict(
                        inputs={k: str(v) for k, v in
                                list(_env(env).items())[:12]},
                        observed=[(l, _s(v)) for l, v in w.obs[:4]]))
            elif not (st == 'rejected' and
                      getattr(self.cur, 'abstract', False)):
                self.mismatch.append('%s %r' % (st, f))
        return len(self.violations) >= 3

    def _probe(self, env):
        """Concrete runs of a path the encoder could not finish: the
        solver's inputs, then neighbours of them."""
        r = random.Random(self.seed * 104729 + self.concolic)
        for i in range(7):
            if i:
                e2 = {k: (float(v) + r.gauss(0, .2 * (1 + i % 3)))
                      if isinstance(v, core.Fraction) else v
                      for k, v in env.items()}
                st, w, f = self.concrete(e2, rnd=r)
            else:
                e2 = env
                st, w, f = self.concrete(env)
            if st == 'fail' and not self.is_known(f.label) or st == 'exc':
                self._robust(dict(w.used) if i else env, f)
                return
            if time.time() > self.deadline:
                return

    def _robust(self, env, f):
        """A concrete failure the solver did not predict: believed only when
        it survives small perturbations (so it is not rounding at a
        boundary)."""
        n = 0
        lab = f.label if isinstance(f, Failed) else 'exception'
        for i in range(4):
            st, w, g = self.concrete(env, jitter=random.Random(i))
            if st == 'fail' and isinstance(f, Failed) and g.label == lab:
                n += 1
            elif st == 'exc' and not isinstance(f, Failed) and \
                    type(g) is type(f):
                n += 1
        if n == 4:
            st, w, g = self.concrete(env)
            if not isinstance(f, Failed):
                g = Failed('exception',
                           'unexpected %s: %s' % (type(f).__name__, f))
            if self.is_known(g.label):
                self.known_hit.setdefault(g.label, _env(env))
            else:
                self.record(g.label, w.used, g)
        else:
            self.mismatch.append('fragile failure %s' % lab)

    def _on_exc(self, exc, eng, r, m):
        if r != z3.sat:
            self.unsupported['exception, path undecided'] = 1
            return False
        env = eng.env_of(m)
        st, w, f = self.concrete(env)
        if st == 'exc' and type(f) is type(exc) or st == 'fail' and \
                not self.is_known(f.label):
            g = f if st == 'fail' else Failed(
                'exception', 'unexpected %s: %s' % (type(f).__name__, f))
            self.exc_tb = ''.join(traceback.format_exception(f if isinstance(
                f, Exception) else exc))
            if self.is_known(g.label):
                self.known_hit.setdefault(g.label, _env(env))
            else:
                self.record(g.label, w.used, g)
        else:
            tb = traceback.extract_tb(exc.__traceback__)
            fr = tb[-1]
            key = 'engine exception %s: %s @%s:%d' % (
                type(exc).__name__, str(exc)[:80], fr.filename, fr.lineno)
            self.unsupported[key] = self.unsupported.get(key, 0) + 1
            self.unsup_exc = exc
            if st == 'exc':
                self._robust(env, f)
        return len(self.violations) >= 3

    def _same(self, w, env):
        a, b = self.cur.obs, w.obs
        if len(a) != len(b):
            self._why = 'observation count %d %d' % (len(a), len(b))
            return False
        fe = {k: (float(v) if isinstance(v, core.Fraction) else v)
              for k, v in env.items()}
        # sqrt atoms are solver variables defined by their argument
        for es, t in self.eng.sqrt_atoms.values():
            v = feval(es, fe)
            fe[t.decl().name()] = math.sqrt(v) if v >= 0 else math.nan
        cache = {}
        for (la, va), (lb, vb) in zip(a, b):
            if la != lb:
                self._why = 'label %s %s' % (la, lb)
                return False
            fa, fb = _flat(va), _flat(vb)
            if len(fa) != len(fb):
                self._why = 'size of %s' % la
                return False
            for x, y in zip(fa, fb):
                if is_sym(x):
                    x = feval(x.e, fe, cache)
                if isinstance(x, core.Fraction):
                    x = float(x)
                if not _close(x, y, 1e-5):
                    self._why = '%s: symbolic %r concrete %r' % (la, x, y)
                    return False
        return True


def _ours(ex):
    """Raised by the machinery rather than by the code under test."""
    if isinstance(ex, (ImportError, SyntaxError)):
        return True
    tb = traceback.extract_tb(ex.__traceback__)
    return bool(tb) and tb[-1].filename.startswith(_HERE)


_HERE = __import__('os').path.dirname(__import__('os').path.dirname(
    __import__('os').path.abspath(__file__))) + '/'


def _env(env):
    out = {}
    for k, v in env.items():
        if isinstance(v, core.Fraction):
            v = float(v)
        elif isinstance(v, np.generic):
            v = v.item()
        out[k] = v
    return out

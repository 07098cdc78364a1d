"""Load the real pyuoi sources, fresh, with the environment replaced.

Symbolic mode: the source is parsed and calls to a few builtins are redirected
to symbolic-aware versions; `numpy` becomes a proxy creating SymArrays.
Concrete mode (replay): the source is executed as it is, with real numpy and
only the environment stubs in place.
"""
import ast
import builtins
import importlib
import numbers
import os
import sys
import types

import numpy as np

from . import core
from .core import (SymBase, SymBool, SymInt, SymNum, SymReal, Unsupported,
                   is_sym, ite, sym_trunc)

SRC = os.environ.get('VX_SRC', '/repo/src')

_REDIR = ('int', 'float', 'isinstance', 'min', 'max', 'type', 'sum', 'any',
          'all', 'round', 'str', 'repr', 'len', 'complex', 'divmod', 'print')


# --------------------------------------------------------------------------
# redirected builtins

def v_int(x=0, *a):
    if isinstance(x, SymBase):
        if isinstance(x, SymInt):
            return x
        return sym_trunc(x)
    from .arr import SymArray
    if isinstance(x, SymArray) and x.size == 1:
        return v_int(x._one())
    if isinstance(x, core.Fraction):
        return int(x)
    return int(x, *a)


def v_float(x=0., *a):
    if isinstance(x, SymBase):
        if isinstance(x, SymReal) and x.dtype.kind == 'f':
            return x
        if isinstance(x, SymReal):
            return type(x).__mro__[1](x.e)
        return SymReal(core.lift_real(x))
    from .arr import SymArray
    if isinstance(x, SymArray) and x.size == 1:
        return v_float(x._one())
    return float(x, *a)


def _classes(c):
    if isinstance(c, tuple):
        out = ()
        for i in c:
            out += _classes(i)
        return out
    return (c,)


_REALC = (float, np.floating, np.float64, numbers.Number, numbers.Real,
          numbers.Complex, np.generic, np.number, np.inexact, object)
_INTC = (int, np.integer, np.int64, numbers.Number, numbers.Integral,
         numbers.Real, numbers.Complex, numbers.Rational, np.generic,
         np.number, np.signedinteger, object)
_BOOLC = (bool, int, np.bool_, numbers.Number, numbers.Integral,
          numbers.Real, np.generic, object)


def v_isinstance(x, c):
    if isinstance(x, SymBase):
        cs = _classes(c)
        py = getattr(x, 'pytype', None)
        allow = {SymReal: _REALC, SymInt: _INTC, SymBool: _BOOLC}.get(
            type(x), _INTC if x.dtype.kind == 'i' else _REALC)
        return any(k in allow or k is type(x) for k in cs)
    if isinstance(x, core.Fraction):
        return any(k in _REALC for k in _classes(c))
    cs = tuple(k for k in _classes(c) if isinstance(k, type) or
               hasattr(type(k), '__instancecheck__'))
    return isinstance(x, cs)


def v_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return float if x.dtype.kind == 'f' else int
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        from .arr import SymArray
        if isinstance(x, SymArray):
            return np.ndarray
        return type(x)
    return type(*a)


def _mm(sym, real):
    def f(*a, key=None, **kw):
        if key is not None or 'default' in kw:
            if key is not None:
                kw['key'] = key
            return real(*a, **kw)
        lst = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(v, SymBase) for v in lst):
            return real(lst) if lst else real(lst, **kw)
        r = lst[0]
        for v in lst[1:]:
            r = sym(r, v)
        return r
    return f


def v_any(it):
    r = False
    for v in it:
        if isinstance(v, SymBool):
            r = v if r is False else (r | v)
        elif v:
            return True
    return r


def v_all(it):
    r = True
    for v in it:
        if isinstance(v, SymBool):
            r = v if r is True else (r & v)
        elif not v:
            return False
    return r


def v_round(x, n=None):
    if isinstance(x, SymBase):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def v_str(x='', *a):
    if isinstance(x, SymBase):
        return '<sym>'
    return str(x, *a)


def v_fmt(f, args):
    """'...' % args without forking on symbolic arguments."""
    def fix(v):
        if isinstance(v, SymBase):
            return 0
        return v
    if isinstance(args, tuple):
        args = tuple(fix(a) for a in args)
    elif isinstance(args, dict):
        args = {k: fix(v) for k, v in args.items()}
    else:
        args = fix(args)
    return f % args


def v_print(*a, **k):
    return None


REDIR = {'int': v_int, 'float': v_float, 'isinstance': v_isinstance,
         'type': v_type, 'any': v_any, 'all': v_all, 'round': v_round,
         'str': v_str, 'print': v_print,
         'min': _mm(core.sym_min, builtins.min),
         'max': _mm(core.sym_max, builtins.max)}


class _Rewrite(ast.NodeTransformer):
    def __init__(self, skip):
        self.skip = skip

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in REDIR and \
                n.func.id not in self.skip:
            n.func = ast.copy_location(
                ast.Name('__vx_' + n.func.id + '__', ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == 'map' and n.args \
                and isinstance(n.args[0], ast.Name) and \
                n.args[0].id in REDIR:
            n.args[0] = ast.copy_location(
                ast.Name('__vx_' + n.args[0].id + '__', ast.Load()), n.args[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (
                isinstance(n.left, ast.Constant) and
                isinstance(n.left.value, str) or
                isinstance(n.left, ast.JoinedStr)):
            return ast.copy_location(ast.Call(
                ast.Name('__vx_fmt__', ast.Load()), [n.left, n.right], []), n)
        return n


_CODE = {}


def compile_source(src, path, symbolic):
    tree = ast.parse(src, path)
    if symbolic:
        bound = {t.id for t in ast.walk(tree) if isinstance(t, ast.Name)
                 and isinstance(t.ctx, ast.Store)}
        bound |= {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)}
        bound |= {d.name for d in ast.walk(tree) if isinstance(
            d, (ast.FunctionDef, ast.ClassDef))}
        tree = _Rewrite(bound).visit(tree)
        ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


def code_for(path, symbolic):
    key = (path, symbolic)
    if key not in _CODE:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        _CODE[key] = compile_source(src, path, symbolic)
    return _CODE[key]


# --------------------------------------------------------------------------

class ModuleProxy(types.ModuleType):
    """Stands for a real external module; attributes may be overridden."""

    def __init__(self, loader, real):
        super().__init__(real.__name__)
        self.__dict__['_l'] = loader
        self.__dict__['_r'] = real

    def __getattr__(self, name):
        return self._l.external(self._r, name)

    def __dir__(self):
        return dir(self._r)


class Loader:
    def __init__(self, symbolic, overrides=None, absent=()):
        self.symbolic = symbolic
        self.ov = {}                     # id(real object) -> replacement
        self.keep = []
        self.absent = set(absent)        # modules whose import fails
        self.mods = {}
        self.proxies = {}
        self.modstub = {}                # module name -> object
        self.native = None               # stands for the native minimizer
        for real, rep in (overrides or []):
            self.override(real, rep)
        b = dict(vars(builtins))
        b['__import__'] = self._import
        if symbolic:
            for k, v in REDIR.items():
                b['__vx_' + k + '__'] = v
            b['__vx_fmt__'] = v_fmt
        self.builtins = b

    def override(self, real, rep):
        self.keep.append(real)
        self.ov[id(real)] = rep

    # -- external modules --------------------------------------------------
    def proxy(self, real):
        p = self.proxies.get(real.__name__)
        if p is None:
            p = ModuleProxy(self, real)
            self.proxies[real.__name__] = p
        return p

    def external(self, mod, name):
        key = mod.__name__ + '.' + name
        if key in self.modstub:
            return self.modstub[key]
        try:
            v = getattr(mod, name)
        except AttributeError:
            try:
                v = importlib.import_module(key)
            except ImportError:
                raise AttributeError('module %r has no attribute %r'
                                     % (mod.__name__, name))
        if id(v) in self.ov:
            return self.ov[id(v)]
        if isinstance(v, types.ModuleType):
            return self.module_obj(v)
        if self.symbolic:
            from . import npx
            return npx.external(self, mod, name, v)
        return v

    def module_obj(self, real):
        n = real.__name__
        if n in self.modstub:
            return self.modstub[n]
        if n in ('warnings', 'logging', 'abc', 'sys', 'os', 'numbers',
                 'builtins', 'types', 'time', 'typing', '__future__', 're',
                 'collections', 'contextlib', 'copy', 'json'):
            return real
        return self.proxy(real)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            basep = '.'.join(parts[:len(parts) - (level - 1)])
            full = basep + ('.' + name if name else '')
        else:
            full = name
        if full == 'pyuoi' or full.startswith('pyuoi.'):
            m = self.mod(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.mod(full + '.' + f))
                        except ImportError:
                            pass
                return m
            if level:
                return m
            return self.mod('pyuoi')
        top = full.split('.')[0]
        if top in self.absent or full in self.absent:
            raise ImportError('No module named %r' % full)
        if full in self.modstub:
            if fromlist or '.' not in full:
                return self.modstub[full]
        real = importlib.import_module(full)
        if fromlist:
            return self.module_obj(real)
        return self.module_obj(sys.modules[top])

    # -- pyuoi modules -----------------------------------------------------
    def path_of(self, full):
        p = os.path.join(SRC, *full.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def mod(self, full):
        if full in self.mods:
            return self.mods[full]
        if full in self.modstub:
            return self.modstub[full]
        path, ispkg = self.path_of(full)
        if path is None:
            if full.endswith('._lowlevel'):
                m = self._lowlevel(full)
                self.mods[full] = m
                return m
            raise ImportError('No module named %r' % full)
        parent = full.rpartition('.')[0]
        if parent:
            self.mod(parent)                 # as Python does
            if full in self.mods:
                return self.mods[full]
        m = types.ModuleType(full)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = full if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        exec(code_for(path, self.symbolic), m.__dict__)
        if parent:
            pm = self.mod(parent)
            setattr(pm, full.rpartition('.')[2], m)
        return m

    def _lowlevel(self, full):
        if self.native is not None:
            return self.native.module(self)
        m = types.ModuleType(full)

        class LBFGSError(Exception):
            pass

        class AllZeroLBFGSError(Exception):
            pass

        class LBFGS(object):
            def minimize(self, f, x0, progress=None, args=()):
                raise Unsupported('native minimizer')
        m.LBFGS, m.LBFGSError = LBFGS, LBFGSError
        m.AllZeroLBFGSError = AllZeroLBFGSError
        return m

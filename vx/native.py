"""The native library under the Cython wrapper, replaced by a script.

Symbolic runs execute the wrapper translated by pyx.py; concrete runs compile
the real wrapper against a small C library whose `lbfgs` calls the same
script."""
import atexit
import ctypes
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from . import load, pyx
from .core import Unsupported

FIELDS = (('m', 'i'), ('epsilon', 'd'), ('past', 'i'), ('delta', 'd'),
          ('max_iterations', 'i'), ('linesearch', 'i'),
          ('max_linesearch', 'i'), ('min_step', 'd'), ('max_step', 'd'),
          ('ftol', 'd'), ('wolfe', 'd'), ('gtol', 'd'), ('xtol', 'd'),
          ('orthantwise_c', 'd'), ('orthantwise_start', 'i'),
          ('orthantwise_end', 'i'))
GARBAGE = -77777.


def sentinel(k):
    i = [f for f, _ in FIELDS].index(k)
    return 77700 + i if FIELDS[i][1] == 'i' else 7770.5 + i


def lib_dir():
    d = os.path.join(os.path.dirname(load.SRC), 'liblbfgs')
    return d if os.path.isdir(d) else '/repo/liblbfgs'


def pyx_path():
    return os.path.join(load.SRC, 'pyuoi', 'lbfgs', '_lowlevel.pyx')


_SCR = {}


def scratch():
    """A directory for build products, removed when the process that made it
    ends (forked workers share their parent's)."""
    if 'd' not in _SCR:
        d = tempfile.mkdtemp(prefix='vxbuild')
        _SCR['d'] = d
        pid = os.getpid()

        def gone():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(gone)
    return _SCR['d']


def codes():
    """The enum constants of lbfgs.h."""
    with open(os.path.join(lib_dir(), 'lbfgs.h'), encoding='utf-8') as f:
        s = f.read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    out = {}
    for body in re.findall(r'enum\s*\w*\s*\{(.*?)\}', s, re.S):
        v = -1
        for it in body.split(','):
            it = it.strip()
            if not it:
                continue
            n, eq, val = it.partition('=')
            v = int(eval(val, {'__builtins__': {}}, dict(out))) if eq \
                else v + 1
            out[n.strip()] = v
    return out


# -- symbolic side -----------------------------------------------------------

class SymBuf:
    def __init__(self, p):
        self.p = p

    def get(self, n):
        return [self.p[i] for i in range(n)]

    def set(self, vals):
        for i, v in enumerate(vals):
            self.p[i] = v


class SymCall:
    def __init__(self, nat, n, x, fx, ev, pr, data, params):
        self.nat, self.n, self.ev, self.pr, self.data = nat, n, ev, pr, data
        self.x = SymBuf(x)
        self.fx = fx
        self.p = {k: getattr(params, k) for k, _ in FIELDS}

    def buf(self):
        return SymBuf(pyx.Ptr(self.n))

    def eval(self, x, g, step):
        return self.ev(self.data, x.p, g.p, self.n, step)

    def progress(self, x, g, fx, xnorm, gnorm, step, k, ls):
        return self.pr(self.data, x.p, g.p, fx, xnorm, gnorm, step, self.n,
                       k, ls)


class SymNative:
    def __init__(self):
        self.script = None
        self.calls = 0
        self.mallocs = self.frees = self.bad = self.swallowed = 0
        self.fail_malloc = False

    sentinel = staticmethod(sentinel)

    def unraisable(self):
        self.swallowed += 1

    def module(self, loader):
        return pyx.make(pyx_path(), self, loader)

    def lbfgs_malloc(self, n):
        n = pyx.c_int(n)
        self.mallocs += 1
        if self.fail_malloc:
            return None
        return pyx.Ptr(n, True)

    def lbfgs_free(self, p):
        if p is None:
            return
        self.frees += 1
        if p.freed or not p.heap:
            self.bad += 1
        p.a[:] = GARBAGE
        p.freed = True

    def lbfgs_parameter_init(self, p):
        pass                             # sentinels already

    def lbfgs(self, n, x, fx, ev, pr, data, params):
        if not isinstance(params, pyx.Struct) or not isinstance(x, pyx.Ptr):
            raise Unsupported('arguments of the native call')
        self.calls += 1
        return self.script(SymCall(self, pyx.c_int(n), x, fx, ev, pr, data,
                                   params))

    def done(self):
        pass


# -- concrete side -----------------------------------------------------------

FAKE = r'''
#include <stdlib.h>
#include <string.h>
#include "lbfgs.h"
#define API __attribute__((visibility("default")))
typedef int (*drv_t)(int, lbfgsfloatval_t*, lbfgsfloatval_t*, void*, void*,
                     void*, void*);
static drv_t drv;
API int vx_mallocs, vx_frees, vx_bad, vx_fail;
static struct { void *p; int n; } live[64];
API void vx_driver(drv_t d) { drv = d; }
API void vx_reset(void) { vx_mallocs = vx_frees = vx_bad = vx_fail = 0; }
lbfgsfloatval_t *lbfgs_malloc(int n)
{
    int i, k;
    ++vx_mallocs;
    if (vx_fail || n < 0) return NULL;
    lbfgsfloatval_t *p = malloc((n + 1) * sizeof(*p));
    for (i = 0; i < n + 1; ++i) p[i] = -77777.;
    for (k = 0; k < 64; ++k) if (!live[k].p) {
        live[k].p = p; live[k].n = n; break; }
    return p;
}
void lbfgs_free(lbfgsfloatval_t *p)
{
    int i, k;
    if (!p) return;
    ++vx_frees;
    for (k = 0; k < 64; ++k) if (live[k].p == p) break;
    if (k == 64) { ++vx_bad; return; }
    if (p[live[k].n] != -77777.) ++vx_bad;
    for (i = 0; i < live[k].n; ++i) p[i] = -77777.;
    live[k].p = NULL;
    free(p);
}
void lbfgs_parameter_init(lbfgs_parameter_t *p)
{
%(init)s
}
API double vx_get(lbfgs_parameter_t *p, int i)
{
    switch (i) {
%(get)s
    }
    return 0;
}
int lbfgs(int n, lbfgsfloatval_t *x, lbfgsfloatval_t *fx,
          lbfgs_evaluate_t ev, lbfgs_progress_t pr, void *inst,
          lbfgs_parameter_t *p)
{
    return drv(n, x, fx, (void *)ev, (void *)pr, inst, p);
}
'''


def build():
    """Compile the wrapper; returns the shared object (once per content)."""
    d = scratch()
    src = pyx_path()
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    so = os.path.join(d, h, '_lowlevel.so')
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        b = os.path.join(d, h)
        os.makedirs(b, exist_ok=True)
        shutil.copy(src, os.path.join(b, '_lowlevel.pyx'))
        with open(os.path.join(b, 'fake.c'), 'w') as f:
            f.write(FAKE % dict(
                init='\n'.join('    p->%s = %r;' % (k, sentinel(k))
                               for k, _ in FIELDS),
                get='\n'.join('    case %d: return p->%s;' % (i, k)
                              for i, (k, _) in enumerate(FIELDS))))
        env = dict(os.environ, PYTHONPATH='')
        subprocess.run([sys.executable, '-m', 'cython', '-3',
                        '_lowlevel.pyx'], cwd=b, check=True, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(['gcc', '-O0', '-w', '-shared', '-fPIC',
                        '-I', sysconfig.get_paths()['include'],
                        '-I', np.get_include(), '-I', lib_dir(),
                        '_lowlevel.c', 'fake.c', '-o', so + '.tmp'], cwd=b,
                       check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        os.replace(so + '.tmp', so)
    return so


_MOD = {}
DP = ctypes.POINTER(ctypes.c_double)
DRV = ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.c_int, DP, DP, ctypes.c_void_p,
                        ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
EVAL = ctypes.PYFUNCTYPE(ctypes.c_double, ctypes.c_void_p, DP, DP,
                         ctypes.c_int, ctypes.c_double)
PROG = ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.c_void_p, DP, DP,
                         *[ctypes.c_double] * 4, *[ctypes.c_int] * 3)


def real_module():
    so = build()
    if so not in _MOD:
        ld = importlib.machinery.ExtensionFileLoader('_lowlevel', so)
        spec = importlib.util.spec_from_file_location('_lowlevel', so,
                                                      loader=ld)
        m = importlib.util.module_from_spec(spec)
        ld.exec_module(m)
        lib = ctypes.PyDLL(so)
        lib.vx_driver.argtypes = [DRV]
        lib.vx_driver.restype = None
        lib.vx_get.argtypes = [ctypes.c_void_p, ctypes.c_int]
        lib.vx_get.restype = ctypes.c_double
        _MOD[so] = (m, lib)
    return _MOD[so]


class ConcBuf:
    def __init__(self, p, keep=None):
        self.p, self.keep = p, keep

    def get(self, n):
        return [self.p[i] for i in range(n)]

    def set(self, vals):
        for i, v in enumerate(vals):
            self.p[i] = float(v)


class ConcCall:
    def __init__(self, lib, n, x, fx, ev, pr, inst, p):
        self.n = n
        self.x = ConcBuf(x)
        self.fx = fx if fx else None
        self.ev = EVAL(ev)
        self.pr = PROG(pr)
        self.inst = inst
        self.p = {}
        for i, (k, t) in enumerate(FIELDS):
            v = lib.vx_get(p, i)
            self.p[k] = int(v) if t == 'i' else v

    def buf(self):
        a = (ctypes.c_double * max(self.n, 1))(*[GARBAGE] * self.n)
        return ConcBuf(ctypes.cast(a, DP), a)

    def eval(self, x, g, step):
        return self.ev(self.inst, x.p, g.p, self.n, float(step))

    def progress(self, x, g, fx, xnorm, gnorm, step, k, ls):
        return self.pr(self.inst, x.p, g.p, float(fx), float(xnorm),
                       float(gnorm), float(step), self.n, int(k), int(ls))


class ConcNative:
    def __init__(self):
        self.script = None
        self.calls = 0
        self.err = None
        self.lib = None

    def module(self, loader):
        m, self.lib = real_module()
        self.lib.vx_reset()
        self.drv = DRV(self._drive)
        self.lib.vx_driver(self.drv)
        return m

    def _drive(self, n, x, fx, ev, pr, inst, p):
        self.calls += 1
        try:
            return int(self.script(ConcCall(self.lib, n, x, fx, ev, pr, inst,
                                            p)))
        except BaseException as ex:
            self.err = ex
            return 0

    def _int(self, n):
        return ctypes.c_int.in_dll(self.lib, n)

    mallocs = property(lambda s: s._int('vx_mallocs').value)
    frees = property(lambda s: s._int('vx_frees').value)
    bad = property(lambda s: s._int('vx_bad').value)

    @property
    def fail_malloc(self):
        return bool(self._int('vx_fail').value)

    @fail_malloc.setter
    def fail_malloc(self, v):
        self._int('vx_fail').value = int(v)

    def done(self):
        if self.err is not None:
            raise self.err


def make(w):
    return SymNative() if w.sym else ConcNative()

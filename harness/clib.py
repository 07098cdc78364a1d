"""The native minimizer as a traced function.

Symbolic runs interpret the LLVM IR clang makes of lbfgs.c; concrete runs call
the same file compiled by gcc with guard pages around every block, in a child
process."""
import ctypes
import os
import pickle
import re
import signal
import subprocess
import fcntl
import hashlib

import numpy as np

from vx import core, llvm, native
from vx.core import Control, PathEnd, Unsupported
from vx.world import Rejected

FIELDS = native.FIELDS
KIND = dict(FIELDS)
DEFAULT = dict(m=6, epsilon=1e-5, past=0, delta=1e-5, max_iterations=0,
               linesearch=0, max_linesearch=40, min_step=1e-20,
               max_step=1e20, ftol=1e-4, wolfe=.9, gtol=.9, xtol=1e-16,
               orthantwise_c=0., orthantwise_start=0, orthantwise_end=-1)
SRC = 'lbfgs.c'

PRE = r'''
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
static struct { void *p, *base; size_t len; int live; } vx_b[4096];
static int vx_n, vx_bad, vx_fail = -1, vx_side, vx_k;
static void *vx_alloc(size_t n)
{
    size_t pg = 4096, body = (n + pg - 1) / pg * pg;
    char *b;
    if (n > ((size_t)1 << 32) || vx_n >= 4096) return NULL;
    b = mmap(NULL, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS,
             -1, 0);
    if (b == MAP_FAILED) return NULL;
    if (body) mprotect(b + pg, body, PROT_READ | PROT_WRITE);
    memset(b + pg, 0x55, body);
    vx_b[vx_n].base = b;
    vx_b[vx_n].len = body + 2 * pg;
    vx_b[vx_n].p = b + pg + (vx_side ? 0 : body - n);
    vx_b[vx_n].live = 1;
    return vx_b[vx_n++].p;
}
static void *vx_malloc(size_t n)
{
    if (vx_k++ == vx_fail) return NULL;
    return vx_alloc(n);
}
static void *vx_calloc(size_t a, size_t b)
{
    void *p = vx_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static void vx_free(void *p)
{
    int i;
    if (!p) return;
    for (i = 0; i < vx_n; ++i)
        if (vx_b[i].p == p && vx_b[i].live) {
            vx_b[i].live = 0;
            mprotect(vx_b[i].base, vx_b[i].len, PROT_NONE);
            return;
        }
    ++vx_bad;
}
#define malloc vx_malloc
#define calloc vx_calloc
#define free vx_free
'''
POST = r'''
#undef malloc
#undef calloc
#undef free
#define API __attribute__((visibility("default")))
API void vx_set(lbfgs_parameter_t *p, int i, double v)
{
    switch (i) {
%s
    }
}
API void *vx_params(void) { static lbfgs_parameter_t p[2]; return p; }
API double *vx_x(int n) { return vx_alloc(n * sizeof(double)); }
API void vx_mode(int side, int fail) { vx_side = side; vx_fail = fail; vx_k = 0; }
API int vx_leaks(int from) { int i, c = 0;
    for (i = from; i < vx_n; ++i) c += vx_b[i].live; return c; }
API int vx_count(void) { return vx_n; }
API int vx_mallocs(void) { return vx_k; }
API int vx_badfree(void) { return vx_bad; }
''' % '\n'.join('    case %d: p->%s = v; return;' % (i, k)
                for i, (k, _) in enumerate(FIELDS))


def _digest():
    h = hashlib.sha1()
    d = native.lib_dir()
    for f in sorted(os.listdir(d)):
        if f.endswith(('.c', '.h')):
            h.update(f.encode())
            with open(os.path.join(d, f), 'rb') as g:
                h.update(g.read())
    return h.hexdigest()[:12]


_IR = {}


def build():
    """(shared object, IR file), made once per content."""
    d = native.scratch()
    b = os.path.join(d, 'c' + _digest())
    with open(os.path.join(d, 'lockc'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so, ir = os.path.join(b, 'l.so'), os.path.join(b, 'l.ll')
        if os.path.exists(ir):
            return so, ir
        os.makedirs(b, exist_ok=True)
        src = os.path.join(native.lib_dir(), SRC)
        with open(os.path.join(b, 'all.c'), 'w') as f:
            f.write('%s\n#include "%s"\n%s' % (PRE, src, POST))
        subprocess.run(['gcc', '-O1', '-g', '-w', '-shared', '-fPIC',
                        '-ffp-contract=off', '-I', native.lib_dir(),
                        os.path.join(b, 'all.c'), '-o', so, '-lm'],
                       check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        llvm.compile_ir(src, native.lib_dir(), ir + '.t')
        os.replace(ir + '.t', ir)
    return so, ir


def module():
    so, ir = build()
    if ir not in _IR:
        with open(ir) as f:
            _IR[ir] = llvm.Module(f.read())
    return _IR[ir]


def layout(mod):
    """Offsets of the parameter fields, in the order of the header."""
    with open(os.path.join(native.lib_dir(), 'lbfgs.h'),
              encoding='utf-8') as f:
        s = f.read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    body = re.search(r'typedef\s+struct\s*\w*\s*\{([^}]*)\}\s*'
                     r'lbfgs_parameter_t\s*;', s).group(1)
    names = []
    for decl in body.split(';'):
        decl = decl.strip()
        if decl:
            _, _, ns = decl.partition(' ')
            names += [x.strip() for x in ns.split(',')]
    t = '%struct.lbfgs_parameter_t'
    if sorted(names) != sorted(KIND) or len(mod.fields(t)) != len(names):
        raise Unsupported('layout of the parameters')
    out = {}
    for i, k in enumerate(names):
        if mod.fields(t)[i] != {'i': 'i32', 'd': 'double'}[KIND[k]]:
            raise Unsupported('layout of the parameters')
        out[k] = mod.offset(t, i)
    return out, mod.size(t)


class Trace:
    def __init__(self):
        self.evals = []          # (x, step, n)
        self.progs = []          # (x, g, fx, xnorm, gnorm, step, n, k, ls)
        self.ret = None
        self.x = None
        self.fx = None
        self.leaks = 0
        self.mallocs = 0
        self.crash = None
        self.inst = True         # instance pointers came back unchanged


def minimize(w, x0, evals, progs=None, n=None, fail_at=None, cut=None,
             ptr_fx=True, params=None, null_params=False, **over):
    """Run lbfgs(); `evals` are the (f, gradient) pairs the objective
    returns, in turn, `progs` the values of the progress callback (None: no
    progress callback).  More calls than that are outside the bounds."""
    p = dict(DEFAULT, **over)
    n = len(x0) if n is None else n
    return (_sym if w.sym else _conc)(w, n, x0, evals, progs, p, fail_at,
                                      cut, ptr_fx, null_params)


def _sym(w, n, x0, evals, progs, p, fail_at, cut, ptr_fx, null_params):
    mod = module()
    off, size = layout(mod)
    T = Trace()
    M = llvm.Machine(mod, w.e, {}, cut=cut)
    M.fail_at = fail_at
    P = llvm.Obj('the parameters', size, 'caller')
    for k, t in FIELDS:
        P.store(off[k], 8 if t == 'd' else 4,
                np.float64(p[k]) if t == 'd' and not core.is_sym(p[k])
                else p[k])
    X = llvm.Obj('x', 8 * len(x0), 'caller')
    for i, v in enumerate(x0):
        X.store(8 * i, 8, v if core.is_sym(v) else np.float64(v))
    FX = llvm.Obj('fx', 8, 'caller')
    inst = (llvm.Obj('instance', 0, 'caller'), 0)
    N = len(x0)

    def vec(q):
        o, f = M.deref(q, 'callback read')
        return [M.typed(o.load(f + 8 * i, 8), 'double') for i in range(N)]

    def ev(ins, x, g, nn, step):
        if len(T.evals) >= len(evals):
            raise PathEnd()
        T.inst = T.inst and ins is inst
        f, gr = evals[len(T.evals)]
        T.evals.append((vec(x), step, nn))
        o, b = M.deref(g, 'callback write')
        for i, v in enumerate(gr[:M.ival(nn)]):
            o.store(b + 8 * i, 8, v if core.is_sym(v) else np.float64(v))
        return f if core.is_sym(f) else np.float64(f)

    def pr(ins, x, g, fx, xn, gn, step, nn, k, ls):
        if len(T.progs) >= len(progs):
            raise PathEnd()
        T.inst = T.inst and ins is inst
        r = progs[len(T.progs)]
        T.progs.append((vec(x), vec(g), fx, xn, gn, step, nn, k, ls))
        return r
    try:
        T.ret = M.call('lbfgs', [n, (X, 0), (FX, 0) if ptr_fx else None, ev,
                                 None if progs is None else pr, inst,
                                 None if null_params else (P, 0)])
    except llvm.MemErr as ex:
        T.crash = str(ex)
    T.leaks = M.leaks()
    T.mallocs = M.mallocs
    if T.crash is None:
        T.x = [M.typed(X.load(8 * i, 8), 'double') for i in range(N)]
        if ptr_fx and 0 in FX.cells:
            T.fx = FX.cells[0][1]
    if M.ncut:
        w.abstract = True
    for f in M.entered:
        w.r.funcs.add('liblbfgs/lbfgs.c:' + f)
    w.native_steps = getattr(w, 'native_steps', 0) + 400000 - M.steps
    return T


DP = ctypes.POINTER(ctypes.c_double)
EV = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p, DP, DP, ctypes.c_int,
                      ctypes.c_double)
PR = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, DP, DP,
                      *[ctypes.c_double] * 4, *[ctypes.c_int] * 3)
_LIB = {}


def _conc(w, n, x0, evals, progs, p, fail_at, cut, ptr_fx, null_params):
    so, _ = build()
    if so not in _LIB:
        L = ctypes.CDLL(so)
        L.vx_params.restype = ctypes.c_void_p
        L.vx_x.restype = DP
        L.vx_set.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_double]
        L.lbfgs.argtypes = [ctypes.c_int, DP, DP, EV, PR, ctypes.c_void_p,
                            ctypes.c_void_p]
        _LIB[so] = L
    L = _LIB[so]
    res = None
    for side in (0, 1):
        r = _child(L, side, int(n), x0, evals, progs, p, fail_at, ptr_fx,
                   null_params)
        if r == 'over':
            raise Rejected()
        if res is None or r.crash is not None:
            res = r
        if res.crash is not None:
            break
    return res


def _child(L, side, n, x0, evals, progs, p, fail_at, ptr_fx, null_params):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            for s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
                      signal.SIGABRT):
                signal.signal(s, signal.SIG_DFL)
            import faulthandler
            import resource
            faulthandler.disable()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(10)

            def out(v):
                with os.fdopen(wr, 'wb') as f:
                    f.write(pickle.dumps(v))
                os._exit(0)
            _call(L, side, n, x0, evals, progs, p, fail_at, ptr_fx,
                  null_params, out)
        finally:
            os._exit(77)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        s = f.read()
    _, st = os.waitpid(pid, 0)
    if not s:
        T = Trace()
        T.crash = 'the native code died (status %d)' % st
        return T
    return pickle.loads(s)


def _call(L, side, n, x0, evals, progs, p, fail_at, ptr_fx, null_params,
          out):
    T = Trace()
    N = len(x0)
    L.vx_mode(side, -1)
    x = L.vx_x(N)
    for i, v in enumerate(x0):
        x[i] = float(v)
    fx = L.vx_x(1)
    token = 0x1234
    P = L.vx_params()
    for i, (k, t) in enumerate(FIELDS):
        L.vx_set(P, i, float(p[k]))

    def ev(ins, xx, g, nn, step):
        try:
            if len(T.evals) >= len(evals):
                out('over')
            T.inst = T.inst and ins == token
            f, gr = evals[len(T.evals)]
            T.evals.append(([xx[i] for i in range(N)], step, nn))
            for i, v in enumerate(gr[:nn]):
                g[i] = float(v)
            return float(f)
        except BaseException:
            os._exit(78)

    def pr(ins, xx, g, f, xn, gn, step, nn, k, ls):
        try:
            if len(T.progs) >= len(progs):
                out('over')
            T.inst = T.inst and ins == token
            r = progs[len(T.progs)]
            T.progs.append(([xx[i] for i in range(N)],
                            [g[i] for i in range(N)], f, xn, gn, step, nn,
                            k, ls))
            return int(r)
        except BaseException:
            os._exit(78)
    e, q = EV(ev), (PR(pr) if progs is not None else PR(0))
    c0 = L.vx_count()
    L.vx_mode(side, -1 if fail_at is None else fail_at)
    T.ret = L.lbfgs(n, x, fx if ptr_fx else None, e, q, token,
                    None if null_params else P)
    T.leaks = L.vx_leaks(c0)
    T.mallocs = L.vx_mallocs()
    if L.vx_badfree():
        T.crash = 'bad free'
    T.x = [x[i] for i in range(N)]
    if ptr_fx:
        T.fx = fx[0]
    out(T)



def point(w, name, n):
    return [w.real('%s%d' % (name, i)) for i in range(n)]


def script(w, n, J, lo=None, hi=None):
    """J objective values with their gradients."""
    return [(w.real('f%d' % j, lo, hi),
             [w.real('g%d_%d' % (j, i), lo, hi) for i in range(n)])
            for j in range(J)]

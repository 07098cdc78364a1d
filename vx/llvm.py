"""A symbolic interpreter for the LLVM IR clang makes of a C file.

Integers are integers or SymInts, doubles are floats or SymReals (exact reals,
nan and inf stay concrete), pointers are (object, byte offset).  Every memory
access is checked: bounds, lifetime, initialisation."""
import math
import re
import struct
import subprocess

import numpy as np
import z3

from . import core
from .core import (PathEnd, SymBase, SymBool, SymInt, SymReal, Unsupported,
                   is_sym, lift_bool)


class MemErr(Exception):
    pass


class Stop(Exception):
    """The environment ends the run early."""


# -- module ------------------------------------------------------------------

def compile_ir(src, inc, out):
    clang = '/usr/lib/llvm-18/bin/clang'
    opt = '/usr/lib/llvm-18/bin/opt'
    import os
    if not os.path.exists(clang):
        clang, opt = 'clang', 'opt'
    subprocess.run([clang, '-O0', '-Xclang', '-disable-O0-optnone', '-S',
                    '-emit-llvm', '-w', '-fno-discard-value-names',
                    '-I', inc, src, '-o', out + '.0'], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run([opt, '-S', '-passes=mem2reg', out + '.0', '-o', out],
                   check=True, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)


PRIM = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8,
        'ptr': 8, 'float': 4}
_ATTR = re.compile(
    r'\b(noundef|nonnull|noalias|nocapture|readonly|writeonly|immarg|signext|'
    r'zeroext|returned|nofree|dereferenceable\(\d+\)|align \d+)\b')
_CASTS = ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'bitcast',
          'fpext', 'fptrunc')


def split(s):
    """Split on top-level commas."""
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Func:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.parse(text)

    def type_end(self, s):
        """(type, rest) of text starting with a type."""
        s = s.strip()
        if s[0] in '[{<':
            d = 0
            for i, c in enumerate(s):
                if c in '[{<':
                    d += 1
                elif c in ']}>':
                    d -= 1
                    if not d:
                        return s[:i + 1], s[i + 1:].strip()
        m = re.match(r'[%\w.]+', s)
        return m.group(0), s[m.end():].strip()

    def size(self, t):
        if t in PRIM:
            return PRIM[t]
        if t.startswith('['):
            n, el = re.match(r'\[(\d+) x (.*)\]$', t).groups()
            return int(n) * self.size(el)
        f = self.fields(t)
        if not f:
            return 0
        a = max(self.align(x) for x in f)
        o = self.offset(t, len(f) - 1) + self.size(f[-1])
        return (o + a - 1) // a * a

    def fields(self, t):
        if t.startswith('{'):
            return split(t[1:-1])
        if t not in self.structs:
            raise Unsupported('type %s' % t)
        return self.structs[t]

    def align(self, t):
        if t in PRIM:
            return PRIM[t]
        if t.startswith('['):
            return self.align(re.match(r'\[\d+ x (.*)\]$', t).group(1))
        return max([self.align(x) for x in self.fields(t)] or [1])

    def offset(self, t, i):
        o = 0
        for k, f in enumerate(self.fields(t)):
            a = self.align(f)
            o = (o + a - 1) // a * a
            if k == i:
                return o
            o += self.size(f)
        raise Unsupported('field')

    def parse(self, text):
        fn = blk = None
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if fn is None:
                m = re.match(r'(%[\w.]+) = type \{(.*)\}', l)
                if m:
                    self.structs[m.group(1)] = split(m.group(2))
                    continue
                m = re.match(r'@([\w.]+) = .*?(constant|global) (.*)$', l)
                if m:
                    t, rest = self.type_end(m.group(3))
                    self.globals[m.group(1)] = (t, rest)
                    continue
                if l.startswith('define'):
                    m = re.match(r'define.*?@([\w.]+)\((.*?)\)[^)]*\{', l)
                    ps = [p.split()[-1] for p in split(m.group(2))]
                    fn = Func(m.group(1), ps)
                    self.funcs[fn.name] = fn
                    blk = None
                continue
            if l.startswith('}'):
                fn = None
                continue
            s = l.split(' ; ')[0].split('; preds')[0].strip()
            s = re.sub(r', ![\w.]+ !\d+', '', s)
            if not s or s.startswith(';'):
                continue
            m = re.match(r'([\w.$-]+):$', s)
            if m:
                blk = m.group(1)
                fn.blocks[blk] = []
                fn.entry = fn.entry or blk
                continue
            if s.startswith('switch'):
                while not s.endswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if blk is None:
                blk = fn.entry = '%entry'
                fn.blocks[blk] = []
            fn.blocks[blk].append(self.instr(s))

    # -- instructions ------------------------------------------------------
    def instr(self, s):
        m = re.match(r'(%[\w.]+) = (.*)$', s)
        dst, b = (m.group(1), m.group(2)) if m else (None, s)
        op, _, r = b.partition(' ')
        if op in ('tail', 'musttail', 'notail'):
            op, _, r = r.partition(' ')
        if op == 'alloca':
            return ('alloca', dst, split(r)[0], s)
        if op == 'load':
            p = split(r)
            return ('load', dst, p[0].replace('volatile ', ''),
                    p[1].split()[-1])
        if op == 'store':
            p = split(r.replace('volatile ', ''))
            t, v = self.type_end(p[0])
            return ('store', t, v, p[1].split()[-1])
        if op == 'getelementptr':
            r = re.sub(r'^(inbounds |nuw |nusw )+', '', r)
            p = split(r)
            return ('gep', dst, p[0], p[1].split()[-1],
                    [q.split()[-1] for q in p[2:]])
        if op in ('fcmp', 'icmp'):
            r = re.sub(r'^((fast|nnan|ninf|nsz|contract|arcp|afn|reassoc|'
                       r'samesign) )+', '', r)
            pred, _, r = r.partition(' ')
            t, r = self.type_end(r)
            a, c = split(r)
            return (op, dst, pred, t, a, c)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub',
                  'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor',
                  'shl', 'ashr', 'lshr'):
            r = re.sub(r'^((nsw|nuw|exact|disjoint|fast|nnan|ninf|nsz|'
                       r'contract|arcp|afn|reassoc) )+', '', r)
            t, r = self.type_end(r)
            a, c = split(r)
            return ('bin', dst, op, t, a, c)
        if op == 'fneg':
            return ('fneg', dst, r.split()[-1])
        if op in _CASTS:
            m = re.match(r'(?:nneg |nuw |nsw )*(\w+) (\S+) to (\w+)', r)
            return ('cast', dst, op, m.group(1), m.group(2), m.group(3))
        if op == 'freeze':
            return ('copy', dst, r.split()[-1])
        if op == 'select':
            p = split(r)
            return ('select', dst, p[0].split()[-1], p[1].split()[-1],
                    p[2].split()[-1], self.type_end(p[1])[0])
        if op == 'phi':
            t, r = self.type_end(r)
            alts = [re.match(r'\[ (.*), %(\S+) \]', x).groups()
                    for x in split(r)]
            return ('phi', dst, {b: v for v, b in alts})
        if op == 'br':
            p = split(r)
            if len(p) == 1:
                return ('jmp', p[0].split()[-1][1:])
            return ('br', p[0].split()[-1], p[1].split()[-1][1:],
                    p[2].split()[-1][1:])
        if op == 'switch':
            m = re.match(r'(\w+) (\S+), label %(\S+) \[(.*)\]', r)
            alts = re.findall(r'\w+ (-?\d+), label %(\S+)', m.group(4))
            return ('switch', m.group(2), m.group(3),
                    [(int(v), b) for v, b in alts])
        if op == 'ret':
            t, v = self.type_end(r)
            return ('ret', None if t == 'void' else v)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'call':
            r = re.sub(r'#\d+$', '', r).strip()
            r = _ATTR.sub('', r)
            r = re.sub(r'^\s*((fast|nnan|ninf|nsz|contract|arcp|afn|reassoc|'
                       r'ccc|fastcc)\s+)+', '', r)
            t, r = self.type_end(r)
            if r.startswith('('):            # function type
                d = 0
                for k, c in enumerate(r):
                    d += c == '('
                    d -= c == ')'
                    if not d:
                        break
                r = r[k + 1:].strip()
            callee, _, args = r.partition('(')
            args = args.rsplit(')', 1)[0]
            return ('call', dst, t, callee.strip(),
                    [a.split()[-1] for a in split(args)])
        raise Unsupported('IR instruction %s' % op)


# -- memory ------------------------------------------------------------------

class Obj:
    def __init__(self, name, size, kind):
        self.name, self.size, self.kind = name, size, kind
        self.cells = {}
        self.zero = None
        self.alive = True

    def check(self, off, n, what):
        if not self.alive:
            raise MemErr('%s after the end of life of %s' % (what, self.name))
        if off < 0 or off + n > self.size:
            raise MemErr('%s out of bounds of %s' % (what, self.name))

    def load(self, off, n):
        self.check(off, n, 'read')
        c = self.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        for o, (k, _) in self.cells.items():
            if o < off + n and off < o + k:
                raise Unsupported('mixed-size memory access')
        if self.zero is not None and off + n <= self.zero:
            return 0
        raise MemErr('read of uninitialised %s' % self.name)

    def store(self, off, n, v):
        self.check(off, n, 'write')
        c = self.cells.get(off)
        if c is None or c[0] != n:
            for o in [o for o, (k, _) in self.cells.items()
                      if o < off + n and off < o + k]:
                if not (off <= o and o + self.cells[o][0] <= off + n):
                    raise Unsupported('mixed-size memory access')
                del self.cells[o]
        self.cells[off] = (n, v)


UNDEF = object()


class Machine:
    """Runs functions of a Module; `ext` maps external names to Python."""

    def __init__(self, mod, eng, ext, cut=None, steps=400000):
        self.mod, self.eng, self.ext = mod, eng, ext
        self.cut = cut
        self.sz = {}
        self.ncut = 0
        self.steps = steps
        self.fail_at = None
        self.mallocs = 0
        self.heap = []
        self.gl = {}
        self.entered = set()

    # values
    def ival(self, v):
        """A concrete integer (forks)."""
        if isinstance(v, SymBool):
            return int(bool(v))
        if isinstance(v, SymInt):
            return self.eng.concretize(v.e)
        if v is UNDEF:
            raise MemErr('use of an undefined value')
        return int(v)

    def const(self, s, t=None):
        if s in ('null', 'none'):
            return None
        if s == 'true':
            return 1
        if s == 'false':
            return 0
        if s in ('undef', 'poison'):
            return UNDEF
        if s == 'zeroinitializer':
            return 0
        if s.startswith('@'):
            return self.symbol(s[1:])
        if s.startswith('0x'):
            return np.float64(struct.unpack(
                '>d', bytes.fromhex(s[2:].zfill(16)))[0])
        if re.match(r'-?\d+$', s):
            return int(s)
        try:
            return np.float64(s)
        except ValueError:
            raise Unsupported('IR constant %s' % s[:40])

    def symbol(self, n):
        if n in self.mod.globals:
            if n not in self.gl:
                t, init = self.mod.globals[n]
                o = Obj('@' + n, self.mod.size(t), 'global')
                self.gl[n] = o
                self.init(o, 0, t, init)
            return (self.gl[n], 0)
        return '@' + n

    def init(self, o, off, t, s):
        s = s.strip()
        if s.startswith('zeroinitializer'):
            o.zero = o.size
            return
        if t.startswith('%') or t.startswith('{'):
            body = s[s.index('{') + 1:s.rindex('}')]
            for i, f in enumerate(split(body)):
                ft, fv = self.mod.type_end(f)
                self.init(o, off + self.mod.offset(t, i), ft, fv)
            return
        if t.startswith('['):
            if s.startswith('c"'):
                o.zero = o.size
                return
            et = re.match(r'\[\d+ x (.*)\]$', t).group(1)
            body = s[s.index('[') + 1:s.rindex(']')]
            for i, f in enumerate(split(body)):
                ft, fv = self.mod.type_end(f)
                self.init(o, off + i * self.mod.size(et), ft, fv)
            return
        v = self.const(split(s)[0])
        o.store(off, PRIM[t], self.typed(v, t))

    @staticmethod
    def typed(v, t):
        if t == 'double' and isinstance(v, int):
            return np.float64(v)
        return v

    def size_of(self, v):
        if not is_sym(v):
            return 0
        c = self.sz.get(v.e.get_id())
        return c[1] if c is not None else 1

    def dbl(self, v, *parts):
        """Result of a double operation; large terms become unknowns."""
        if isinstance(v, SymInt):
            v = SymReal(core.lift_real(v))
        if not is_sym(v):
            return np.float64(float(v)) if not isinstance(
                v, np.float64) else v
        if self.cut is None:
            return v
        n = 1 + sum(self.size_of(p) for p in parts)
        if self.cut == 0 and v.e.num_args():
            self.ncut += 1
            v = SymReal(z3.Real('cut!%d' % self.ncut))
            self.sz[v.e.get_id()] = (v.e, 1)
            return v
        self.sz[v.e.get_id()] = (v.e, n)
        return v

    def kept(self, o, v):
        """The value memory keeps: large terms become unknowns."""
        if self.cut and o.kind != 'stack' and isinstance(v, SymReal) and \
                self.size_of(v) > self.cut:
            self.ncut += 1
            v = SymReal(z3.Real('cut!%d' % self.ncut))
            self.sz[v.e.get_id()] = (v.e, 1)
        return v

    # pointers
    def deref(self, p, what):
        if p is None:
            raise MemErr('%s through NULL' % what)
        if p is UNDEF or not isinstance(p, tuple):
            raise MemErr('%s through a bad pointer' % what)
        return p

    def malloc(self, size):
        size = self.ival(size)
        k = self.mallocs
        self.mallocs += 1
        if self.fail_at is not None and k == self.fail_at or size < 0 or \
                size > 1 << 40:
            return None
        o = Obj('heap block %d' % k, size, 'heap')
        self.heap.append(o)
        return (o, 0)

    def free(self, p):
        if p is None:
            return
        o, off = self.deref(p, 'free')
        if o.kind != 'heap' or off != 0:
            raise MemErr('free of %s' % o.name)
        if not o.alive:
            raise MemErr('double free of %s' % o.name)
        o.alive = False

    def leaks(self):
        return sum(o.alive for o in self.heap)

    def memset(self, p, v, n):
        n, v = self.ival(n), self.ival(v)
        if n == 0:
            return p
        o, off = self.deref(p, 'write')
        o.check(off, n, 'write')
        if v != 0:
            raise Unsupported('memset with a value')
        for c in [c for c in o.cells if off <= c < off + n]:
            del o.cells[c]
        if off == 0:
            o.zero = max(o.zero or 0, n)
        else:
            raise Unsupported('memset in the middle')
        return p

    def memcpy(self, d, s, n):
        n = self.ival(n)
        if n == 0:
            return d
        do, df = self.deref(d, 'write')
        so, sf = self.deref(s, 'read')
        so.check(sf, n, 'read')
        do.check(df, n, 'write')
        if so.zero is not None:
            if df == 0:
                do.zero = max(do.zero or 0, n)
            else:
                for o in range(0, n, 8):
                    if sf + o not in so.cells:
                        do.store(df + o, 8, 0)
        for c, (k, v) in list(so.cells.items()):
            if sf <= c and c + k <= sf + n:
                do.store(df + c - sf, k, v)
        return d

    # execution
    def call(self, fn, args):
        if isinstance(fn, str):
            fn = fn.lstrip('@')
            if fn in self.mod.funcs:
                return self.run(self.mod.funcs[fn], args)
            return self.builtin(fn, args)
        if callable(fn):
            return fn(*args)
        if fn is None:
            raise MemErr('call through NULL')
        raise MemErr('call through a bad pointer')

    def builtin(self, fn, a):
        if fn in self.ext:
            return self.ext[fn](*a)
        if fn == 'malloc':
            return self.malloc(a[0])
        if fn == 'calloc':
            p = self.malloc(self.ival(a[0]) * self.ival(a[1]))
            if p is not None:
                p[0].zero = p[0].size
            return p
        if fn == 'free':
            return self.free(a[0])
        if fn.startswith('llvm.memset') or fn == 'memset':
            return self.memset(*a[:3])
        if fn.startswith(('llvm.memcpy', 'llvm.memmove')) or \
                fn in ('memcpy', 'memmove'):
            return self.memcpy(*a[:3])
        if fn.startswith('llvm.fabs') or fn == 'fabs':
            v = a[0]
            return self.dbl(abs(v), v)
        if fn == 'sqrt' or fn.startswith('llvm.sqrt'):
            if self.cut == 0 and is_sym(a[0]):
                self.ncut += 1
                return SymReal(z3.Real('cut!%d' % self.ncut))
            v = core.sym_sqrt(a[0])
            if is_sym(v):
                self.sz[v.e.get_id()] = (v.e, 1)
            return v
        if fn.startswith(('llvm.fmuladd', 'llvm.fma')) or fn == 'fma':
            return self.fbin('fadd', self.fbin('fmul', a[0], a[1]), a[2])
        if fn.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
            return None
        raise Unsupported('external function %s' % fn)

    def run(self, f, args):
        self.entered.add(f.name)
        env = dict(zip(f.params, args))
        if len(args) != len(f.params):
            raise Unsupported('argument count')
        local = []
        get = self.get
        blk, prev = f.entry, None
        while True:
            ins = f.blocks[blk]
            i = 0
            vals = []
            while ins[i][0] == 'phi':
                vals.append((ins[i][1], get(env, ins[i][2][prev])))
                i += 1
            for d, v in vals:
                env[d] = v
            nxt = None
            for k in range(i, len(ins)):
                I = ins[k]
                op = I[0]
                self.steps -= 1
                if self.steps < 0:
                    raise Unsupported('too many instructions')
                if op == 'load':
                    o, off = self.deref(get(env, I[3]), 'read')
                    env[I[1]] = self.typed(o.load(off, PRIM[I[2]]), I[2])
                    if I[2] == 'ptr' and env[I[1]] == 0 and \
                            not isinstance(env[I[1]], tuple):
                        env[I[1]] = None
                elif op == 'store':
                    o, off = self.deref(get(env, I[3]), 'write')
                    v = get(env, I[2])
                    if v is UNDEF:
                        o.check(off, PRIM[I[1]], 'write')
                        o.cells.pop(off, None)
                        if o.zero is not None:
                            raise Unsupported('undefined value stored')
                    else:
                        o.store(off, PRIM[I[1]],
                                self.kept(o, self.typed(v, I[1])))
                elif op == 'gep':
                    env[I[1]] = self.gep(I[2], get(env, I[3]),
                                         [get(env, q) for q in I[4]])
                elif op == 'bin':
                    a, b = get(env, I[4]), get(env, I[5])
                    if I[3] == 'double':
                        env[I[1]] = self.fbin(I[2], a, b)
                    else:
                        env[I[1]] = self.ibin(I[2], I[3], a, b)
                elif op == 'fcmp':
                    env[I[1]] = self.fcmp(I[2], get(env, I[4]),
                                          get(env, I[5]))
                elif op == 'icmp':
                    env[I[1]] = self.icmp(I[2], I[3], get(env, I[4]),
                                          get(env, I[5]))
                elif op == 'br':
                    c = get(env, I[1])
                    if c is UNDEF:
                        raise MemErr('branch on an undefined value')
                    nxt = I[2] if bool(c) else I[3]
                elif op == 'jmp':
                    nxt = I[1]
                elif op == 'call':
                    fn = I[3]
                    fn = get(env, fn)
                    r = self.call(fn, [get(env, q) for q in I[4]])
                    if I[1] is not None:
                        env[I[1]] = self.typed(r, I[2])
                elif op == 'cast':
                    env[I[1]] = self.cast(I[2], I[3], get(env, I[4]), I[5])
                elif op == 'fneg':
                    v = get(env, I[2])
                    self.defd(v)
                    env[I[1]] = self.dbl(-v, v)
                elif op == 'alloca':
                    o = Obj('%s in %s' % (I[1], f.name),
                            self.mod.size(I[2]), 'stack')
                    local.append(o)
                    env[I[1]] = (o, 0)
                elif op == 'select':
                    c = get(env, I[2])
                    a, b = get(env, I[3]), get(env, I[4])
                    if I[5] == 'double' and is_sym(c) and not (
                            core.special(a) or core.special(b)):
                        env[I[1]] = core.ite(c, a, b)
                    else:
                        env[I[1]] = a if bool(c) else b
                elif op == 'copy':
                    env[I[1]] = get(env, I[2])
                elif op == 'switch':
                    v = get(env, I[1])
                    nxt = I[2]
                    for val, b in I[3]:
                        if bool(v == val):
                            nxt = b
                            break
                elif op == 'ret':
                    for o in local:
                        o.alive = False
                    return None if I[1] is None else get(env, I[1])
                elif op == 'unreachable':
                    raise MemErr('undefined behaviour')
                else:
                    raise Unsupported('IR %s' % op)
            prev, blk = blk, nxt

    def get(self, env, s):
        if s[0] == '%':
            return env[s]
        return self.const(s)

    def gep(self, t, p, idx):
        o, off = self.deref(p, 'address')
        off += self.ival(idx[0]) * self.mod.size(t)
        for i in idx[1:]:
            if t.startswith('['):
                t = re.match(r'\[\d+ x (.*)\]$', t).group(1)
                off += self.ival(i) * self.mod.size(t)
            else:
                off += self.mod.offset(t, i)
                t = self.mod.fields(t)[i]
        return (o, off)

    def defd(self, *vs):
        for v in vs:
            if v is UNDEF:
                raise MemErr('use of an undefined value')

    def fbin(self, op, a, b):
        self.defd(a, b)
        with np.errstate(all='ignore'):
            a = np.float64(a) if not is_sym(a) else a
            b = np.float64(b) if not is_sym(b) else b
            if op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                if self.cut == 0 and is_sym(b):
                    self.ncut += 1
                    return SymReal(z3.Real('cut!%d' % self.ncut))
                r = a / b
            else:
                raise Unsupported(op)
        return self.dbl(r, a, b)

    def ibin(self, op, t, a, b):
        self.defd(a, b)
        bits = int(t[1:])
        if op in ('and', 'or', 'xor') and bits == 1:
            if is_sym(a) or is_sym(b):
                a = a if is_sym(a) else bool(a)
                b = b if is_sym(b) else bool(b)
                return {'and': lambda: a & b, 'or': lambda: a | b,
                        'xor': lambda: a ^ b}[op]() if is_sym(a) else \
                    {'and': lambda: b & a, 'or': lambda: b | a,
                     'xor': lambda: b ^ a}[op]()
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            return r if is_sym(r) else wrap(r, bits)
        a, b = self.ival(a), self.ival(b)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if b == 0:
                raise MemErr('integer division by zero')
            if op[0] == 'u':
                a, b = a % (1 << bits), b % (1 << bits)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return wrap(q if op[1:] == 'div' else a - q * b, bits)
        if op == 'and':
            return wrap(a & b, bits)
        if op == 'or':
            return wrap(a | b, bits)
        if op == 'xor':
            return wrap(a ^ b, bits)
        if op == 'shl':
            return wrap(a << b, bits)
        if op == 'ashr':
            return a >> b
        if op == 'lshr':
            return wrap((a % (1 << bits)) >> b, bits)
        raise Unsupported(op)

    def fcmp(self, p, a, b):
        self.defd(a, b)
        for v in (a, b):
            if core.special(v) and math.isnan(v):
                return 1 if p[0] == 'u' or p == 'true' else 0
        if p in ('ord', 'uno'):
            return 1 if p == 'ord' else 0
        if p in ('true', 'false'):
            return int(p == 'true')
        k = p[1:]
        a = a if is_sym(a) else np.float64(a)
        b = b if is_sym(b) else np.float64(b)
        r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
             'ge': lambda: a >= b, 'eq': lambda: a == b,
             'ne': lambda: a != b}[k]()
        return r if is_sym(r) else int(bool(r))

    def icmp(self, p, t, a, b):
        self.defd(a, b)
        if t == 'ptr':
            e = (a is b) or (isinstance(a, tuple) and isinstance(b, tuple)
                             and a[0] is b[0] and a[1] == b[1]) or (
                                 isinstance(a, str) and a == b)
            if p == 'eq':
                return int(e)
            if p == 'ne':
                return int(not e)
            raise Unsupported('pointer order')
        if p[0] == 'u':
            bits = int(t[1:])
            a, b = (self.ival(x) % (1 << bits) for x in (a, b))
            p = 's' + p[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b,
             'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
        return r if is_sym(r) else int(bool(r))

    def cast(self, op, t0, v, t1):
        self.defd(v)
        if op == 'bitcast':
            return v
        if op in ('sext', 'zext'):
            if isinstance(v, SymBool):
                v = core.ite(v, 1, 0)
                return v if op == 'zext' else -v
            if t0 == 'i1':
                return int(v) if op == 'zext' else -int(v)
            if op == 'zext' and not is_sym(v):
                return v % (1 << int(t0[1:]))
            return v
        if op == 'trunc':
            return v if is_sym(v) else wrap(v, int(t1[1:]))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, SymBase):
                return SymReal(core.lift_real(v))
            return np.float64(v)
        raise Unsupported('cast %s' % op)


def wrap(v, bits):
    if bits == 1:
        return v & 1
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

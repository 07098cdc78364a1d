"""Read the Cython wrapper: the .pyx source is parsed with Cython's own parser
and turned into Python source that runs on the engine.  C types become
conversions (as Cython's generated code does), pointers become Ptr objects and
the native library is whatever `native` the harness supplies."""
import functools
import os

import numpy as np

from . import core, load
from .core import SymBase, SymBool, SymInt, SymReal, Unsupported, is_sym


class Emit:
    def __init__(self, tree):
        self.out = []
        self.structs = {}                # name -> {field: ctype}
        self.tdefs = {}                  # typedef name -> kind
        self.externs = set()
        self.types = [{}]                # typed locals, per scope
        self.cclass = []
        self.tree = tree

    # -- C types -----------------------------------------------------------
    def kind(self, base, decl=None):
        """'i' int, 'd' double, 'o' object, 'p' pointer/array, 's' struct."""
        t = type(decl).__name__
        if decl is not None and t in ('CPtrDeclaratorNode',
                                      'CArrayDeclaratorNode',
                                      'CFuncDeclaratorNode'):
            return 'p'
        n = getattr(base, 'name', None)
        if n is None:
            return 'o'
        if n in ('int', 'npy_intp', 'long', 'Py_ssize_t', 'size_t', 'short',
                 'npy_int64'):
            return 'i'
        if n in ('double',):
            return 'd'
        if n == 'bint':
            return 'i'
        if n in ('object', 'tuple', 'list', 'dict', 'str'):
            return 'o'
        if n in self.tdefs:
            return self.tdefs[n]
        if n in self.structs:
            return 's'
        if n == 'void':
            return 'v'
        if n == 'ndarray':
            return 'o'
        raise Unsupported('C type %s' % n)

    @staticmethod
    def dname(d):
        while type(d).__name__ != 'CNameDeclaratorNode':
            d = d.base
        return d.name

    def conv(self, kind, src):
        if kind == 'i':
            return '__c_int__(%s)' % src
        if kind == 'd':
            return '__c_double__(%s)' % src
        return src

    # -- statements --------------------------------------------------------
    def line(self, ind, s):
        self.out.append('    ' * ind + s)

    def block(self, body, ind):
        n = len(self.out)
        if body is not None:
            self.st(body, ind)
        if len(self.out) == n:
            self.line(ind, 'pass')

    def st(self, n, ind):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('pyx statement %s' % type(n).__name__)
        m(n, ind)

    def s_StatListNode(self, n, ind):
        for s in n.stats:
            self.st(s, ind)

    def s_CImportStatNode(self, n, ind):
        if n.module_name not in ('numpy', 'cython'):
            raise Unsupported('cimport %s' % n.module_name)

    def s_FromCImportStatNode(self, n, ind):
        raise Unsupported('from cimport')

    def s_CTypeDefNode(self, n, ind):
        b = n.base_type
        try:
            k = self.kind(b, n.declarator)
        except Unsupported:
            k = 'p'
        self.tdefs[self.dname(n.declarator)] = k

    def s_CEnumDefNode(self, n, ind):
        if n.name:
            self.tdefs[n.name] = 'i'
        prev = '-1'
        for it in n.items:
            if it.value is not None:
                v = self.ex(it.value)
            else:
                v = '(%s) + 1' % prev
            if not n.in_pxd if hasattr(n, 'in_pxd') else True:
                self.line(ind, '%s = %s' % (it.name, v))
            prev = it.name

    def s_CDefExternNode(self, n, ind):
        self.st_extern(n.body)

    def st_extern(self, n):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                self.st_extern(s)
        elif t == 'CTypeDefNode':
            self.s_CTypeDefNode(n, 0)
        elif t == 'CStructOrUnionDefNode':
            self.s_CStructOrUnionDefNode(n, 0)
        elif t == 'CEnumDefNode':
            self.s_CEnumDefNode(n, 0)
        elif t == 'CVarDefNode':
            for d in n.declarators:
                self.externs.add(self.dname(d))
        elif t == 'PassStatNode':
            pass
        else:
            raise Unsupported('extern %s' % t)

    def s_CStructOrUnionDefNode(self, n, ind):
        f = {}
        for a in n.attributes:
            for d in a.declarators:
                f[self.dname(d)] = self.kind(a.base_type, d)
        self.structs[n.name] = f
        self.line(ind, '__struct__(%r, %r)' % (n.name, f))

    def s_CVarDefNode(self, n, ind):
        for d in n.declarators:
            t = type(d).__name__
            name = self.dname(d)
            if self.cclass and self.types[-1] is self.cclass[-1]:
                b = getattr(n.base_type, 'name', None)
                self.cclass[-1][name] = b if b in self.structs else \
                    self.kind(n.base_type, d)
                continue
            k = self.kind(n.base_type, d)
            if t == 'CArrayDeclaratorNode':
                self.line(ind, '%s = __c_array__(%s, %r)' % (
                    name, self.ex(d.dimension), self.kind(n.base_type)))
                continue
            if t == 'CFuncDeclaratorNode':
                continue
            if k == 's':
                self.line(ind, '%s = __new_struct__(%r)' % (
                    name, n.base_type.name))
                continue
            if k in 'id':
                self.types[-1][name] = k
            dd = d
            while type(dd).__name__ != 'CNameDeclaratorNode':
                dd = dd.base
            if dd.default is not None:
                self.line(ind, '%s = %s' % (name, self.conv(
                    k, self.ex(dd.default))))

    def params(self, args, conv):
        out = []
        for a in args:
            b, d = a.base_type, a.declarator
            name = self.dname(d)
            if name == '':
                name, k = b.name, 'o'
            elif b.name is None:
                k = 'o'
            else:
                k = self.kind(b, d)
            s = name
            if a.default is not None:
                s += '=' + self.ex(a.default)
            if getattr(a, 'kw_only', False):
                raise Unsupported('keyword-only argument')
            out.append(s)
            if k in 'id':
                self.types[-1][name] = k
                conv.append((name, k))
        return out

    def s_CFuncDefNode(self, n, ind):
        d = n.declarator
        k = None
        while type(d).__name__ == 'CPtrDeclaratorNode':
            d, k = d.base, 'p'
        k = k or self.kind(n.base_type)
        name = self.dname(d)
        self.types.append({})
        self.ret = k
        conv = []
        args = self.params(d.args, conv)
        noexc = d.exception_value is None and not d.exception_check
        self.line(ind, '@__c_func__(%r, %r)' % (k, noexc))
        self.line(ind, 'def %s(%s):' % (name, ', '.join(args)))
        for a, kk in conv:
            self.line(ind + 1, '%s = %s' % (a, self.conv(kk, a)))
        self.block(n.body, ind + 1)
        self.types.pop()
        self.ret = None

    def s_DefNode(self, n, ind):
        self.types.append({})
        save, self.ret = getattr(self, 'ret', None), None
        conv = []
        args = self.params(n.args, conv)
        if n.star_arg is not None:
            args.append('*' + n.star_arg.name)
        if n.starstar_arg is not None:
            args.append('**' + n.starstar_arg.name)
        dec = getattr(n, 'decorators', None) or []
        for x in dec:
            self.line(ind, '@' + self.ex(x.decorator))
        self.line(ind, 'def %s(%s):' % (n.name, ', '.join(args)))
        for a, kk in conv:
            self.line(ind + 1, '%s = %s' % (a, self.conv(kk, a)))
        self.block(n.body, ind + 1)
        self.types.pop()
        self.ret = save

    def s_CClassDefNode(self, n, ind):
        if n.bases is not None and n.bases.args and not (
                len(n.bases.args) == 1 and
                getattr(n.bases.args[0], 'name', '') == 'object'):
            raise Unsupported('base of a cdef class')
        self.line(ind, 'class %s(object):' % n.class_name)
        attrs = {}
        self.types.append(attrs)
        self.cclass.append(attrs)
        at = len(self.out)
        self.block(n.body, ind + 1)
        self.cclass.pop()
        self.types.pop()
        self.out.insert(at, '    ' * (ind + 1) +
                        '__new__, __setattr__ = __c_class__(%r)' % attrs)

    def s_PropertyNode(self, n, ind):
        body = n.body.stats if type(n.body).__name__ == 'StatListNode' \
            else [n.body]
        got = {}
        for d in body:
            if type(d).__name__ != 'DefNode':
                raise Unsupported('property body')
            old = d.name
            if old not in ('__get__', '__set__'):
                raise Unsupported('property %s' % old)
            d.name = '__%s_%s' % (old.strip('_'), n.name) + '__'
            self.st(d, ind)
            got[old] = d.name
            d.name = old
        self.line(ind, '%s = property(%s, %s)' % (
            n.name, got.get('__get__'), got.get('__set__')))

    def s_Py3ClassNode(self, n, ind):
        raise Unsupported('class')

    def s_PyClassDefNode(self, n, ind):
        b = n.bases if getattr(n, 'bases', None) is not None else None
        bases = [self.ex(a) for a in b.args] if b is not None else []
        self.line(ind, 'class %s(%s):' % (n.name, ', '.join(bases)))
        self.types.append({})
        self.block(n.body, ind + 1)
        self.types.pop()

    def s_SingleAssignmentNode(self, n, ind):
        r = n.rhs
        t = type(r).__name__
        if t == 'ImportNode':
            mod = r.module_name.value
            if r.get_top_level_module if hasattr(
                    r, 'get_top_level_module') else False:
                self.line(ind, 'import %s' % mod)
            self.line(ind, 'import %s%s' % (
                mod, '' if n.lhs.name == mod else ' as ' + n.lhs.name))
            return
        if t in ('Py3ClassNode', 'ClassCellInjectorNode'):
            return
        self.assign(n.lhs, self.ex(r), ind)

    def assign(self, lhs, src, ind):
        if type(lhs).__name__ == 'NameNode':
            for sc in reversed(self.types):
                if lhs.name in sc and sc not in self.cclass:
                    src = self.conv(sc[lhs.name], src)
                    break
        self.line(ind, '%s = %s' % (self.ex(lhs), src))

    def s_CascadedAssignmentNode(self, n, ind):
        self.line(ind, '__t__ = %s' % self.ex(n.rhs))
        for l in n.lhs_list:
            self.assign(l, '__t__', ind)

    def s_ParallelAssignmentNode(self, n, ind):
        for i, s in enumerate(n.stats):
            self.line(ind, '__t%d__ = %s' % (i, self.ex(s.rhs)))
        for i, s in enumerate(n.stats):
            self.assign(s.lhs, '__t%d__' % i, ind)

    def s_InPlaceAssignmentNode(self, n, ind):
        self.assign(n.lhs, '(%s %s %s)' % (
            self.ex(n.lhs), n.operator, self.ex(n.rhs)), ind)

    def s_FromImportStatNode(self, n, ind):
        mod = n.module.module_name.value
        lev = n.module.level or 0
        self.line(ind, 'from %s%s import %s' % (
            '.' * max(lev, 0), mod, ', '.join(
                '%s as %s' % (a, t.name) for a, t in n.items)))

    def s_ExprStatNode(self, n, ind):
        self.line(ind, self.ex(n.expr))

    def s_PassStatNode(self, n, ind):
        self.line(ind, 'pass')

    def s_BreakStatNode(self, n, ind):
        self.line(ind, 'break')

    def s_ContinueStatNode(self, n, ind):
        self.line(ind, 'continue')

    def s_GlobalNode(self, n, ind):
        self.line(ind, 'global ' + ', '.join(n.names))

    def s_DelStatNode(self, n, ind):
        self.line(ind, 'del ' + ', '.join(self.ex(a) for a in n.args))

    def s_AssertStatNode(self, n, ind):
        c = self.ex(n.condition)
        if getattr(n, 'value', None) is not None:
            c += ', ' + self.ex(n.value)
        self.line(ind, 'assert ' + c)

    def s_ReturnStatNode(self, n, ind):
        if n.value is None:
            self.line(ind, 'return')
            return
        self.line(ind, 'return ' + self.conv(getattr(self, 'ret', None),
                                             self.ex(n.value)))

    def s_RaiseStatNode(self, n, ind):
        s = 'raise'
        if n.exc_type is not None:
            s += ' ' + self.ex(n.exc_type)
            if n.exc_value is not None:
                s += '(%s)' % self.ex(n.exc_value)
            if n.cause is not None:
                s += ' from ' + self.ex(n.cause)
        self.line(ind, s)

    def s_ReraiseStatNode(self, n, ind):
        self.line(ind, 'raise')

    def s_IfStatNode(self, n, ind):
        for i, c in enumerate(n.if_clauses):
            self.line(ind, '%s %s:' % ('elif' if i else 'if',
                                       self.ex(c.condition)))
            self.block(c.body, ind + 1)
        if n.else_clause is not None:
            self.line(ind, 'else:')
            self.block(n.else_clause, ind + 1)

    def s_ForInStatNode(self, n, ind):
        it = n.iterator
        it = it.sequence if hasattr(it, 'sequence') else it
        self.line(ind, 'for %s in %s:' % (self.ex(n.target), self.ex(it)))
        self.block(n.body, ind + 1)
        if n.else_clause is not None:
            self.line(ind, 'else:')
            self.block(n.else_clause, ind + 1)

    def s_WhileStatNode(self, n, ind):
        self.line(ind, 'while %s:' % self.ex(n.condition))
        self.block(n.body, ind + 1)
        if n.else_clause is not None:
            self.line(ind, 'else:')
            self.block(n.else_clause, ind + 1)

    def s_TryExceptStatNode(self, n, ind):
        self.line(ind, 'try:')
        self.block(n.body, ind + 1)
        for c in n.except_clauses:
            s = 'except'
            if c.pattern is not None:
                p = c.pattern
                if isinstance(p, list):
                    p = '(%s,)' % ', '.join(self.ex(x) for x in p)
                else:
                    p = self.ex(p)
                s += ' ' + p
                if c.target is not None:
                    s += ' as ' + self.ex(c.target)
            else:
                s += ' BaseException'
            self.line(ind, s + ':')
            self.line(ind + 1, '__not_control__()')
            self.block(c.body, ind + 1)
        if n.else_clause is not None:
            self.line(ind, 'else:')
            self.block(n.else_clause, ind + 1)

    def s_TryFinallyStatNode(self, n, ind):
        self.line(ind, 'try:')
        self.block(n.body, ind + 1)
        self.line(ind, 'finally:')
        self.block(n.finally_clause, ind + 1)

    def s_GILStatNode(self, n, ind):
        self.block(n.body, ind)

    def s_WithStatNode(self, n, ind):
        raise Unsupported('with statement')

    # -- expressions -------------------------------------------------------
    def ex(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'operand1') and hasattr(n, 'operand2') and \
                    hasattr(n, 'operator'):
                return '(%s %s %s)' % (self.ex(n.operand1), n.operator,
                                       self.ex(n.operand2))
            raise Unsupported('pyx expression %s' % type(n).__name__)
        return m(n)

    def e_NameNode(self, n):
        if n.name in self.externs:
            return '__native__.%s' % n.name
        return {'xrange': 'range'}.get(n.name, n.name)

    def e_IntNode(self, n):
        return str(n.value)

    def e_FloatNode(self, n):
        return str(n.value)

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value, 'latin1'))

    def e_NoneNode(self, n):
        return 'None'

    def e_NullNode(self, n):
        return 'None'

    def e_EllipsisNode(self, n):
        return '...'

    def e_AttributeNode(self, n):
        if type(n.obj).__name__ == 'NameNode' and n.obj.name == 'np' and (
                n.attribute.startswith(('PyArray_', 'NPY_')) or
                n.attribute == 'import_array'):
            return '__np_c__.%s' % n.attribute
        return '%s.%s' % (self.ex(n.obj), n.attribute)

    def e_SimpleCallNode(self, n):
        return '%s(%s)' % (self.ex(n.function),
                           ', '.join(self.ex(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        p = n.positional_args
        s = '*' + self.ex(p)
        if n.keyword_args is not None:
            s += ', **' + self.ex(n.keyword_args)
        return '%s(%s)' % (self.ex(n.function), s)

    def e_AsTupleNode(self, n):
        return 'tuple(%s)' % self.ex(n.arg)

    def e_TupleNode(self, n):
        return '(%s)' % ''.join(self.ex(a) + ', ' for a in n.args)

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.ex(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.ex(i.key),
                                              self.ex(i.value))
                                  for i in n.key_value_pairs)

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.ex(a) for a in n.args)

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.ex(n.base), self.ex(n.index))

    def e_SliceIndexNode(self, n):
        return '%s[%s:%s]' % (self.ex(n.base),
                              self.ex(n.start) if n.start else '',
                              self.ex(n.stop) if n.stop else '')

    def e_SliceNode(self, n):
        f = [x if x is None or type(x).__name__ == 'NoneNode' else
             self.ex(x) for x in (n.start, n.stop, n.step)]
        f = ['' if not isinstance(x, str) else x for x in f]
        return 'slice(%s)' % ', '.join(x or 'None' for x in f)

    def e_TypecastNode(self, n):
        d = n.declarator
        src = self.ex(n.operand)
        k = self.kind(n.base_type, d)
        if k == 'i':
            return '__c_cast_int__(%s)' % src
        return self.conv(k, src) if k == 'd' else src

    def e_AmpersandNode(self, n):
        return self.ex(n.operand)

    def e_NotNode(self, n):
        return '(not %s)' % self.ex(n.operand)

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.ex(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.ex(n.operand)

    def e_PrimaryCmpNode(self, n):
        s = '%s %s %s' % (self.ex(n.operand1),
                          n.operator.replace('_', ' '),
                          self.ex(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (c.operator.replace('_', ' '),
                             self.ex(c.operand2))
            c = c.cascade
        return '(%s)' % s

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.ex(n.true_val),
                                       self.ex(n.condition or n.test),
                                       self.ex(n.false_val))

    def e_JoinedStrNode(self, n):
        return '"".join((%s))' % ''.join(
            'str(%s), ' % self.ex(v) for v in n.values)

    def e_FormattedValueNode(self, n):
        return 'str(%s)' % self.ex(n.value)

    def e_LambdaNode(self, n):
        conv = []
        self.types.append({})
        a = self.params(n.args, conv)
        self.types.pop()
        if conv:
            raise Unsupported('typed lambda')
        return '(lambda %s: %s)' % (', '.join(a), self.ex(n.result_expr))

    def module(self):
        self.st(self.tree.body, 0)
        return '\n'.join(self.out) + '\n'


_SRC = {}


def translate(path):
    if path not in _SRC:
        from Cython.Compiler.TreeFragment import parse_from_strings
        with open(path, encoding='utf-8') as f:
            src = f.read()
        _SRC[path] = Emit(parse_from_strings('_lowlevel', src)).module()
    return _SRC[path]


# -- what the emitted source calls ------------------------------------------

def c_double(v):
    from .arr import SymArray
    if isinstance(v, SymArray):
        if v.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        v = v._one()
    if isinstance(v, SymReal) and v.dtype.kind == 'f':
        return v
    if isinstance(v, SymBase):
        return SymReal(core.lift_real(v))
    if isinstance(v, core.Fraction):
        return v
    if isinstance(v, (str, bytes)) or v is None:
        raise TypeError('must be real number, not %s' % type(v).__name__)
    if isinstance(v, complex):
        raise TypeError('must be real number, not complex')
    return float(v)


def c_int(v):
    from .arr import SymArray
    if isinstance(v, SymArray):
        if v.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        v = v._one()
    if isinstance(v, SymReal) and v.dtype.kind == 'f':
        raise TypeError('expected int, got float')
    if isinstance(v, SymBool):
        return v._int() if hasattr(v, '_int') else core.ite(v, 1, 0)
    if isinstance(v, SymBase):
        return v
    if isinstance(v, (float, core.Fraction, str, bytes)) or v is None:
        raise TypeError('an integer is required')
    v = v.__index__() if hasattr(v, '__index__') else v.__int__()
    if not -2 ** 31 <= v < 2 ** 31:
        if -2 ** 63 <= v < 2 ** 63:
            raise Unsupported('integer beyond a C int')
        raise OverflowError('value too large to convert to int')
    return v


def c_cast_int(v):
    return c_int(v)


class Ptr:
    """A native buffer of n doubles."""

    def __init__(self, n, heap=False):
        from .arr import SymArray
        self.n = n
        a = np.empty((n,), dtype=object)
        a[:] = [-77777.0] * n            # nobody initialised it
        self.a = SymArray.of(a, float)
        self.freed = 0
        self.heap = heap

    def __getitem__(self, i):
        if not 0 <= i < self.n or self.freed:
            raise Unsupported('native read out of bounds')
        return self.a[i]

    def __setitem__(self, i, v):
        v = c_double(v)
        if not 0 <= i < self.n or self.freed:
            raise Unsupported('native write out of bounds')
        self.a[i] = v


class CArray(list):
    def __init__(self, n, kind):
        super().__init__([0] * n)
        self.kind = kind

    def __setitem__(self, i, v):
        super().__setitem__(i, c_int(v) if self.kind == 'i' else
                            c_double(v) if self.kind == 'd' else v)


class NpC:
    NPY_DOUBLE = 12

    @staticmethod
    def import_array():
        return None

    @staticmethod
    def PyArray_SimpleNewFromData(nd, shape, typ, ptr):
        if nd != 1 or typ != NpC.NPY_DOUBLE or not isinstance(ptr, Ptr):
            raise Unsupported('array over native memory')
        if ptr.freed or shape[0] > ptr.n:
            raise Unsupported('array beyond native memory')
        return ptr.a[:shape[0]]


class Struct:
    pass


def make(path, native, loader):
    """The module, executed in a fresh namespace."""
    import ast
    import types
    structs = {}

    def struct(name, fields):
        class S(Struct):
            _fields = fields

            def __init__(self):
                for k in fields:
                    object.__setattr__(self, k, native.sentinel(k))

            def __setattr__(self, k, v):
                if k not in fields:
                    raise AttributeError(k)
                t = fields[k]
                object.__setattr__(self, k, c_int(v) if t == 'i' else
                                   c_double(v) if t == 'd' else v)
        structs[name] = S

    def c_class(attrs):
        def new(cls, *a, **k):
            o = object.__new__(cls)
            d = {}
            for n, t in attrs.items():
                d[n] = structs[t]() if t in structs else \
                    {'i': 0, 'd': 0., 'o': None, 'p': None}[t]
            o.__dict__.update(d)
            return o

        def setattr_(self, k, v):
            if k in attrs:
                t = attrs[k]
                self.__dict__[k] = c_int(v) if t == 'i' else \
                    c_double(v) if t == 'd' else v
            elif isinstance(getattr(type(self), k, None), property):
                object.__setattr__(self, k, v)
            else:
                raise AttributeError(k)
        return new, setattr_

    def c_func(kind, noexc):
        def deco(f):
            @functools.wraps(f)
            def g(*a):
                try:
                    r = f(*a)
                except Exception:
                    if not noexc:
                        raise
                    native.unraisable()
                    return 0. if kind == 'd' else 0
                if r is None and kind in ('i', 'd'):
                    return 0. if kind == 'd' else 0
                return r
            return g
        return deco

    def not_control():
        import sys
        ex = sys.exc_info()[1]
        if isinstance(ex, core.Control):
            raise ex

    src = translate(path)
    m = types.ModuleType('pyuoi.lbfgs._lowlevel')
    m.__file__ = path
    m.__package__ = 'pyuoi.lbfgs'
    m.__dict__['__builtins__'] = loader.builtins
    m.__dict__.update(
        __c_int__=c_int, __c_double__=c_double, __c_cast_int__=c_cast_int,
        __c_array__=CArray, __np_c__=NpC, __native__=native,
        __struct__=struct, __new_struct__=lambda n: structs[n](),
        __c_class__=c_class, __c_func__=c_func, __not_control__=not_control)
    key = (path, 'pyx')
    if key not in load._CODE:
        load._CODE[key] = load.compile_source(src, path, True)
    exec(load._CODE[key], m.__dict__)
    return m

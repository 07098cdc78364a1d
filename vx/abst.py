"""Linear abstraction of nonlinear queries.

Every monomial of the canonical form of a nonlinear term becomes a fresh
real; products of non-negative things are non-negative.  Unsatisfiable
abstractions are unsatisfiable queries; nothing follows from satisfiable
ones."""
import z3

from . import alg

ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL,
         z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL)
CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b,
       z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GT: lambda a, b: a > b,
       z3.Z3_OP_EQ: lambda a, b: a == b,
       z3.Z3_OP_DISTINCT: lambda a, b: a != b}


class No(Exception):
    pass


class Abstraction:
    def __init__(self, atoms, nonneg, limit=400):
        self.at = atoms
        self.nonneg = nonneg            # z3 id -> term
        self.vars = {}
        self.facts = []
        self.memo = {}
        self.ites = {}
        self.limit = limit

    def has_ite(self, e):
        k = e.get_id()
        if k not in self.ites:
            self.ites[k] = (z3.is_app(e) and (
                e.decl().kind() == z3.Z3_OP_ITE or
                any(self.has_ite(c) for c in e.children()
                    if z3.is_arith(c))), e)
        return self.ites[k][0]

    def mono(self, m, den):
        k = (m, tuple(sorted((f, n) for f, n in den.items())))
        if not m and not den:
            return None
        if k not in self.vars:
            if len(self.vars) > self.limit:
                raise No()
            v = z3.Real('abs!%d' % len(self.vars))
            self.vars[k] = v
            if self.sure(m) and all(self.sure(mm) and c > 0
                                    for f in den for mm, c in f):
                self.facts.append(v >= 0)
        return self.vars[k]

    def sure(self, m):
        """Is the monomial non-negative?"""
        return all(p % 2 == 0 or i in self.at.sq or
                   self.at.terms[i].get_id() in self.nonneg for i, p in m)

    def leaf(self, e):
        try:
            p, d = alg.desq(alg.rat(e, self.at), self.at)
        except alg.Big:
            raise No()
        out = []
        for m, c in p.items():
            q, dd = alg.reduce({m: c}, d)
            (m2, c2), = q.items()
            v = self.mono(m2, dd)
            k = z3.Q(c2.numerator, c2.denominator)
            out.append(k if v is None else k * v)
        return z3.Sum(out) if out else z3.RealVal(0)

    def num(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        kind = e.decl().kind()
        if not self.has_ite(e):
            r = self.leaf(e)
        elif kind == z3.Z3_OP_ITE:
            r = z3.If(self.cond(e.arg(0)), self.num(e.arg(1)),
                      self.num(e.arg(2)))
        elif kind == z3.Z3_OP_ADD:
            r = z3.Sum([self.num(c) for c in e.children()])
        elif kind == z3.Z3_OP_SUB:
            r = self.num(e.arg(0))
            for c in e.children()[1:]:
                r = r - self.num(c)
        elif kind == z3.Z3_OP_UMINUS:
            r = -self.num(e.arg(0))
        elif kind == z3.Z3_OP_TO_REAL:
            r = self.num(e.arg(0))
        elif kind == z3.Z3_OP_MUL:
            cs, rest = [], []
            for c in e.children():
                (cs if z3.is_rational_value(c) or z3.is_int_value(c)
                 else rest).append(c)
            if len(rest) != 1:
                raise No()
            r = self.num(rest[0])
            for c in cs:
                r = r * c
        elif kind == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
            r = self.num(e.arg(0)) / e.arg(1)
        else:
            raise No()
        self.memo[k] = (r, e)
        return r

    def cond(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_AND:
            return z3.And([self.cond(c) for c in ch])
        if kind == z3.Z3_OP_OR:
            return z3.Or([self.cond(c) for c in ch])
        if kind == z3.Z3_OP_NOT:
            return z3.Not(self.cond(ch[0]))
        if kind == z3.Z3_OP_ITE:
            return z3.If(*[self.cond(c) for c in ch])
        if kind == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.cond(ch[0]), self.cond(ch[1]))
        if kind in CMP and len(ch) == 2:
            if z3.is_arith(ch[0]):
                return CMP[kind](self.num(ch[0]), self.num(ch[1]))
            if z3.is_bool(ch[0]) and kind == z3.Z3_OP_EQ:
                return self.cond(ch[0]) == self.cond(ch[1])
        if z3.is_bool(e) and not ch:
            return e
        raise No()


def refuted(neg, pc, atoms, nonneg, timeout):
    """Is neg impossible under pc, already in the abstraction?"""
    A = Abstraction(atoms, nonneg)
    try:
        goal = A.cond(neg)
    except No:
        return False
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(goal)
    for c in pc:
        try:
            s.add(A.cond(c))
        except No:
            pass
    for f in A.facts:
        s.add(f)
    return s.check() == z3.unsat

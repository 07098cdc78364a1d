"""Rational functions over z3 terms in canonical form: a dictionary of
monomials over a factored denominator.  Decides most equalities of closed
formulas without a query, and gives logarithms a canonical argument."""
from fractions import Fraction

import z3

LIMIT = 6000


class Big(Exception):
    pass


class Atoms:
    def __init__(self):
        self.ids = {}
        self.terms = []
        self.memo = {}
        self.sq = {}          # atom -> what it is the square root of

    def of(self, t):
        k = t.get_id()
        if k not in self.ids:
            self.ids[k] = len(self.terms)
            self.terms.append(t)
        return self.ids[k]


ONE = ()


def p_mul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise Big()
    if len(b) == 1 and ONE in b:
        c = b[ONE]
        return {m: k * c for m, k in a.items()} if c != 1 else a
    if len(a) == 1 and ONE in a:
        return p_mul(b, a)
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    if len(out) > LIMIT:
        raise Big()
    return out


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, p in b:
        d[i] = d.get(i, 0) + p
    return tuple(sorted(d.items()))


def p_add(a, b):
    out = dict(a)
    for m, c in b.items():
        k = out.get(m, 0) + c
        if k:
            out[m] = k
        else:
            out.pop(m, None)
    if len(out) > LIMIT:
        raise Big()
    return out


def content(p):
    """Greatest common monomial."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(g):
            k = min(g[i], d.get(i, 0))
            if k:
                g[i] = k
            else:
                del g[i]
        if not g:
            break
    return tuple(sorted(g.items()))


def m_div(m, g):
    d = dict(m)
    for i, p in g:
        d[i] -= p
        if not d[i]:
            del d[i]
    return tuple(sorted(d.items()))


def p_div_m(p, g):
    return {m_div(m, g): c for m, c in p.items()} if g else p


def key(p):
    """(normalised polynomial key, leading coefficient)"""
    lead = p[max(p)]
    return tuple(sorted((m, c / lead) for m, c in p.items())), lead


def reduce(p, d):
    """Cancel common factors of polynomial p and denominator d."""
    if not p:
        return {}, {}
    d = dict(d)
    g = []
    for i, k in content(p):
        f = ((((i, 1),), Fraction(1)),)
        n = min(k, d.get(f, 0))
        if n:
            g.append((i, n))
            d[f] -= n
            if not d[f]:
                del d[f]
    p = p_div_m(p, tuple(g))
    if d and len(p) > 1:
        kk, lead = key(p)
        if kk in d:
            d[kk] -= 1
            if not d[kk]:
                del d[kk]
            p = {ONE: lead}
    return p, d


def d_poly(d):
    out = {ONE: Fraction(1)}
    for f, k in d.items():
        for _ in range(k):
            out = p_mul(out, dict(f))
    return out


def r_add(a, b):
    (p, d), (q, e) = a, b
    if not p:
        return b
    if not q:
        return a
    if d == e:
        return reduce(p_add(p, q), d)
    lcm = dict(d)
    for f, k in e.items():
        lcm[f] = max(lcm.get(f, 0), k)
    md = {f: k - d.get(f, 0) for f, k in lcm.items() if k > d.get(f, 0)}
    me = {f: k - e.get(f, 0) for f, k in lcm.items() if k > e.get(f, 0)}
    return reduce(p_add(p_mul(p, d_poly(md)), p_mul(q, d_poly(me))), lcm)


def r_mul(a, b):
    (p, d), (q, e) = a, b
    if not p or not q:
        return {}, {}
    f = dict(d)
    for k, n in e.items():
        f[k] = f.get(k, 0) + n
    # cancel before multiplying out
    p, f = reduce(p, f)
    q, f = reduce(q, f)
    return reduce(p_mul(p, q), f)


def r_inv(a):
    p, d = a
    if not p:
        raise Big()
    g = content(p)
    q = p_div_m(p, g)
    den = {}
    for i, k in g:
        den[((((i, 1),), Fraction(1)),)] = k
    if len(q) == 1 and ONE in q:
        lead = q[ONE]
    else:
        kk, lead = key(q)
        den[kk] = den.get(kk, 0) + 1
    return reduce({m: c / lead for m, c in d_poly(d).items()}, den)


def rat(e, at):
    """(polynomial, denominator factors) of a real or integer z3 term."""
    memo = at.memo
    stack = [e]
    while stack:
        t = stack[-1]
        k = t.get_id()
        if k in memo:
            stack.pop()
            continue
        kind = t.decl().kind()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            c = t.as_fraction() if z3.is_rational_value(t) else \
                Fraction(t.as_long())
            memo[k] = (({ONE: c} if c else {}, {}), t)
            stack.pop()
            continue
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                    z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) or \
                kind == z3.Z3_OP_TO_REAL:
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            v = [memo[c.get_id()][0] for c in ch]
            r = v[0]
            if kind == z3.Z3_OP_ADD:
                for x in v[1:]:
                    r = r_add(r, x)
            elif kind == z3.Z3_OP_SUB:
                for x in v[1:]:
                    r = r_add(r, ({m: -c for m, c in x[0].items()}, x[1]))
            elif kind == z3.Z3_OP_UMINUS:
                r = ({m: -c for m, c in r[0].items()}, r[1])
            elif kind == z3.Z3_OP_MUL:
                for x in v[1:]:
                    r = r_mul(r, x)
            elif kind == z3.Z3_OP_DIV:
                if not v[1][0]:
                    r = ({((at.of(t), 1),): Fraction(1)}, {})
                else:
                    r = r_mul(r, r_inv(v[1]))
            memo[k] = (r, t)
            stack.pop()
            continue
        memo[k] = (({((at.of(t), 1),): Fraction(1)}, {}), t)
        stack.pop()
    return memo[e.get_id()][0]


def term(p, at):
    """z3 term of a polynomial."""
    if not p:
        return z3.RealVal(0)
    out = []
    for m, c in sorted(p.items()):
        fs = []
        for i, k in m:
            t = at.terms[i]
            if z3.is_int(t):
                t = z3.ToReal(t)
            fs += [t] * k
        if c != 1 or not fs:
            fs = [z3.Q(c.numerator, c.denominator)] + fs
        out.append(z3.Product(fs) if len(fs) > 1 else fs[0])
    return z3.Sum(out) if len(out) > 1 else out[0]


def desq(r, at):
    """Replace even powers of square roots by what they are roots of."""
    if not at.sq:
        return r
    p, d = r
    if not any(i in at.sq and k > 1 for m in p for i, k in m) and \
            not any(len(f) == 1 and f[0][0] and f[0][0][0][0] in at.sq and
                    n > 1 for f, n in d.items()):
        return r
    out = ({}, {})
    for m, c in p.items():
        rest, t = [], ({ONE: c}, {})
        for i, k in m:
            if i in at.sq and k > 1:
                for _ in range(k // 2):
                    t = r_mul(t, at.sq[i])
                k %= 2
            if k:
                rest.append((i, k))
        out = r_add(out, r_mul(t, ({tuple(rest): Fraction(1)}, {})))
    keep = {}
    for f, n in d.items():
        if len(f) == 1 and f[0][0] and f[0][0][0][0] in at.sq and n > 1:
            for _ in range(n // 2):
                out = r_mul(out, r_inv(at.sq[f[0][0][0][0]]))
            n %= 2
        if n:
            keep[f] = n
    return desq(r_mul(out, ({ONE: Fraction(1)}, keep)), at)

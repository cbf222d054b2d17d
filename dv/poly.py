"""Back end for polynomial identities: normal forms over the rationals,
modulo sin^2 + cos^2 = 1 for every angle and sqrt(x)^2 = x where x >= 0 is
known.  Only answers "proved" or "don't know"."""
from fractions import Fraction
import z3
from . import core

LIMIT = 4000


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t          # {((atom, exp), ...): Fraction}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


class Conv:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.atoms = {}
        self.rules = None

    def get_rules(self):
        """atom id -> polynomial replacing its square"""
        if self.rules is None:
            self.rules = {}
            one = {(): Fraction(1)}
            for v, s, c in self.ctx.cache.get("angles", []):
                if core.is_z3(s) and core.is_z3(c) and z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.rules[s.get_id()] = padd(one, pmul(self.conv(c), self.conv(c)), -1)
            for k, v in list(self.ctx.cache.items()):
                if isinstance(k, tuple) and k[0] == "sqrtdef":
                    s, z = v
                    if s.get_id() in self.rules:
                        continue
                    if self.nonneg(z):
                        self.rules[s.get_id()] = self.conv(z)
        return self.rules

    def nonneg(self, z):
        s = self.ctx.solver
        s.push()
        s.set("timeout", 300)
        try:
            s.add(z < 0)
            return s.check() == z3.unsat
        finally:
            s.pop()
            s.set("timeout", 1500)

    def conv(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][0]
        r = self._conv(t)
        self.memo[k] = (r, t)
        return r

    def _conv(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            q = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): q} if q != 0 else {}
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, self.conv(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = padd(r, self.conv(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return padd({}, self.conv(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = pmul(r, self.conv(c))
            return r
        if d == z3.Z3_OP_DIV and z3.is_rational_value(z3.simplify(ch[1])):
            q = z3.simplify(ch[1]).as_fraction()
            if q != 0:
                return pmul(self.conv(ch[0]), {(): 1 / q})
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = ch[1].as_fraction()
            if e.denominator == 1 and 0 <= e <= 8:
                r = {(): Fraction(1)}
                for _ in range(int(e)):
                    r = pmul(r, self.conv(ch[0]))
                return r
        self.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}

    def reduce(self, p, steps=400):
        rules = self.get_rules()
        for _ in range(steps):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in rules:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if hit is None:
                return p
            m, a, e = hit
            c = p[m]
            rest = tuple((x, y) if x != a else (x, y - 2) for x, y in m)
            rest = tuple((x, y) for x, y in rest if y)
            q = pmul({rest: c}, rules[a])
            p = dict(p)
            del p[m]
            p = padd(p, q)
            if len(p) > LIMIT:
                raise TooBig
        raise TooBig


def identity(ctx, goal):
    """is the goal an identity?"""
    cv = Conv(ctx)

    def prove(g):
        if isinstance(g, bool):
            return g
        if z3.is_true(g):
            return True
        if z3.is_and(g):
            return all(prove(c) for c in g.children())
        if z3.is_or(g):
            return any(prove(c) for c in g.children())
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            try:
                p = padd(cv.conv(g.arg(0)), cv.conv(g.arg(1)), -1)
                return not p or not cv.reduce(p)
            except TooBig:
                return False
        return False
    return prove(goal)


class Monomials(Conv):
    """arithmetic in polynomial normal form where every monomial of degree
    two or more is an opaque term: products keep the path condition linear,
    and polynomial identities are linear identities.  The definition of a
    monomial is unfolded only where a proof needs it (Ctx.defs)."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.rules = {}
        self.known = {}
        self.keep = []
        self.quot = {}

    def rule(self, atom, p):
        """atom * atom is the polynomial p"""
        if core.is_z3(atom) and z3.is_const(atom):
            self.rules[atom.get_id()] = p
            self.keep.append(atom)

    def _conv(self, t):
        if t.decl().eq(vals.MUL):
            return pmul(self.conv(t.arg(0)), self.conv(t.arg(1)))
        return super()._conv(t)

    def atom(self, i):
        return self.atoms[i]

    def term(self, p):
        out = []
        for m in sorted(p):
            c = p[m]
            t = None
            if m:
                t = self.mono(m)
            if t is None:
                out.append(z3.RealVal(c))
            elif c == 1:
                out.append(t)
            else:
                out.append(z3.RealVal(c) * t)
        r = z3.RealVal(0) if not out else out[0] if len(out) == 1 else z3.Sum(out)
        self.memo[r.get_id()] = (p, r)
        return r

    def mono(self, m):
        if m in self.known:
            return self.known[m]
        fs = [self.atoms[a] for a, e in m for _ in range(e)]
        if len(fs) == 1:
            t = fs[0]
        else:
            t = fs[0]
            for f in fs[1:]:
                t = vals.MUL(t, f)
            self.ctx.defs.append((t, t == z3.Product(fs)))
            if all(e % 2 == 0 for _, e in m):
                self.ctx.fact(t >= 0)
        self.known[m] = t
        self.memo[t.get_id()] = ({m: Fraction(1)}, t)
        return t

    def product(self, a, b):
        p, q = self.conv(a), self.conv(b)
        try:
            r = self.reduce(pmul(p, q))
        except TooBig:
            raise core.Unsupported("polynomial too large")
        t = self.term(r)
        if p == q and len(p) > 1:
            self.ctx.fact(t >= 0)
        return t

    def quotient(self, a, b):
        a = a if core.is_z3(a) else z3.RealVal(a)
        p, q = self.conv(a), self.conv(b)
        if len(q) == 1 and () in q:
            return self.term(pmul(p, {(): 1 / q[()]}))
        k = tuple(sorted(p.items())), tuple(sorted(q.items()))
        if k not in self.quot:
            x = self.ctx.fresh_real("quotient")
            self.quot[k] = x
            self.ctx.fact(z3.Implies(b != 0, self.product(x, b) == a))
        return self.quot[k]

    def canon(self, v):
        return self.term(self.conv(v))


from . import vals

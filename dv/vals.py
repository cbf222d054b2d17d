"""Symbolic scalars: booleans, integers (mathematical) and floats (extended
reals with NaN; rounding is not modelled)."""
import math
from fractions import Fraction
import numpy as rnp
import z3
from . import core
from .core import (band, bor, bnot, bite, zb, is_z3, Unsupported, iz)


class RepoExc(BaseException):
    """Wraps an exception a shim raises on purpose (what numpy would raise)."""
    def __init__(self, inner):
        self.inner = inner


def flag(exc):
    """an exception the modelled library raises, not a failure of a shim"""
    exc._from_shim = True
    return exc


def raise_np(exc):
    exc._from_shim = True
    raise RepoExc(exc)


def rv(x):
    """python number -> z3 real value"""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f)


class F:
    """extended real: nan, pinf, ninf flags (mixed bools) and a real term.
    v may be a python Fraction/int or a z3 real."""
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=False, pinf=False, ninf=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    @property
    def fin(self):
        return bnot(bor(self.nan, self.pinf, self.ninf))

    @property
    def isinf(self):
        return bor(self.pinf, self.ninf)

    def const(self):
        return not is_z3(self.v) and all(isinstance(b, bool) for b in (self.nan, self.pinf, self.ninf))

    def simple(self):
        return self.pinf is False and self.ninf is False

    def z(self):
        return self.v if is_z3(self.v) else rv(self.v)


NAN = F(0, True)
PINF = F(0, False, True)
NINF = F(0, False, False, True)


def fconst(x):
    if isinstance(x, (int, bool, Fraction)):
        return F(Fraction(x))
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    return F(Fraction(x))


def vadd(a, b):
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    return (a if is_z3(a) else rv(a)) + (b if is_z3(b) else rv(b))


def vneg(a):
    return -a


def vmul(a, b):
    if not is_z3(a) and not is_z3(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_z3(x):
            if x == 0:
                return 0
            if x == 1:
                return y
            if x == -1:
                return -y
    if is_z3(a) and is_z3(b) and core.B is not None:
        if core.B.opts.get("monomials"):
            return monomials(core.B).product(a, b)
        if core.B.opts.get("opaque_products"):
            return opaque_product(a, b)
    return (a if is_z3(a) else rv(a)) * (b if is_z3(b) else rv(b))


def over_scale(a, b):
    """(a / s, b / s) for a positive factor s of both, declared by the
    specification (SymVC.scale); else None"""
    s = core.B.opts.get("scale") if core.B is not None else None
    if s is None:
        return None
    out = []
    for x in (a, b):
        if not is_z3(x) and x == 0:
            out.append(x)
        elif is_z3(x) and x.eq(s):
            out.append(1)
        elif is_z3(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and x.arg(0).eq(s):
            out.append(x.arg(1))
        else:
            return None
    return out if any(is_z3(x) for x in (a, b)) else None


MUL = z3.Function("product", z3.RealSort(), z3.RealSort(), z3.RealSort())


def opaque_product(a, b):
    """a product whose definition is only unfolded where a proof needs it
    (the path conditions then stay linear)"""
    a, b = z3.simplify(a), z3.simplify(b)
    for x, y in ((a, b), (b, a)):
        if z3.is_rational_value(x):
            return vmul(x.as_fraction(), y)
    known = core.B.cache.setdefault("products", {})
    k = a.get_id(), b.get_id()
    if k not in known:
        p = MUL(a, b)
        known[k] = p
        if (k[1], k[0]) in known:
            core.B.fact(p == known[k[1], k[0]])
        core.B.defs.append((p, p == a * b))
        if a.eq(b):
            core.B.fact(p >= 0)
    return known[k]


def vdiv(a, b):
    if not is_z3(b):
        return vmul(a, Fraction(1) / Fraction(b))
    if not is_z3(a) and a == 0:
        return 0
    r = over_scale(a, b)
    if r is not None:
        a, b = r
        if not is_z3(b):
            return vmul(a, Fraction(1) / Fraction(b))
    if core.B is not None and core.B.opts.get("monomials"):
        if z3.is_rational_value(b):
            return vmul(a, 1 / b.as_fraction())
        return monomials(core.B).quotient(a, b)
    return (a if is_z3(a) else rv(a)) / b


def monomials(ctx):
    from . import poly
    m = ctx.cache.get("monomials")
    if m is None:
        m = ctx.cache["monomials"] = poly.Monomials(ctx)
    return m


def vz(a):
    return a if is_z3(a) else rv(a)


def vlt(a, b):
    a, b = over_scale(a, b) or (a, b)
    if not is_z3(a) and not is_z3(b):
        return a < b
    return vz(a) < vz(b)


def vle(a, b):
    a, b = over_scale(a, b) or (a, b)
    if not is_z3(a) and not is_z3(b):
        return a <= b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return vz(a) <= vz(b)


def veq(a, b):
    a, b = over_scale(a, b) or (a, b)
    if not is_z3(a) and not is_z3(b):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return vz(a) == vz(b)


def vite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not is_z3(a) and not is_z3(b):
        if a == b:
            return a
    elif is_z3(a) and is_z3(b) and a.eq(b):
        return a
    r = over_scale(a, b)
    if r is not None:
        return core.B.opts["scale"] * z3.If(c, vz(r[0]), vz(r[1]))
    return z3.If(c, vz(a), vz(b))


def fite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    # the value of a NaN is irrelevant
    if b.nan is True:
        v = a.v
    elif a.nan is True:
        v = b.v
    else:
        v = vite(c, a.v, b.v)
    return F(v, bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))


def fneg(a):
    return F(vneg(a.v), a.nan, a.ninf, a.pinf)


def fadd(a, b):
    if a.simple() and b.simple():
        return F(vadd(a.v, b.v), bor(a.nan, b.nan))
    nan = bor(a.nan, b.nan, band(a.pinf, b.ninf), band(a.ninf, b.pinf))
    return F(vadd(a.v, b.v), nan,
             band(bnot(nan), bor(a.pinf, b.pinf)), band(bnot(nan), bor(a.ninf, b.ninf)))


def fsub(a, b):
    return fadd(a, fneg(b))


def fpos(a):
    """a > 0 incl. infinity (not nan)"""
    return band(bnot(a.nan), bor(a.pinf, band(bnot(a.ninf), vlt(0, a.v))))


def fnegv(a):
    return band(bnot(a.nan), bor(a.ninf, band(bnot(a.pinf), vlt(a.v, 0))))


def fzero(a):
    return band(a.fin, veq(a.v, 0))


def fmul(a, b):
    if a.simple() and b.simple():
        return F(vmul(a.v, b.v), bor(a.nan, b.nan))
    nan = bor(a.nan, b.nan, band(a.isinf, fzero(b)), band(b.isinf, fzero(a)))
    inf = band(bnot(nan), bor(a.isinf, b.isinf))
    same = bor(band(fpos(a), fpos(b)), band(fnegv(a), fnegv(b)))
    return F(vmul(a.v, b.v), nan, band(inf, same), band(inf, bnot(same)))


def fdiv(a, b):
    """numpy division: x/0 is an infinity of undetermined sign (signed zeros
    are not modelled), 0/0 is NaN."""
    if not is_z3(b.v) and b.v != 0 and a.simple() and b.simple():
        return F(vdiv(a.v, b.v), bor(a.nan, b.nan))
    bz = fzero(b)
    if bz is False or (is_z3(bz) and core.B is not None and core.must(bnot(bz))):
        bz = False
    nan = bor(a.nan, b.nan, band(a.isinf, b.isinf), band(fzero(a), bz))
    inf = band(bnot(nan), bor(a.isinf, bz))
    if inf is False:
        pinf = ninf = False
    else:
        same = bor(band(fpos(a), fpos(b)), band(fnegv(a), fnegv(b)))
        if bz is not False:
            zs = core.B.fresh_bool("zsign")
            same = bite(bz, zs, same)
        pinf, ninf = band(inf, same), band(inf, bnot(same))
    if b.isinf is False:
        v = vdiv(a.v, b.v) if not (not is_z3(b.v) and b.v == 0) else 0
    else:
        v = vite(b.isinf, 0, vdiv(a.v, b.v) if not (not is_z3(b.v) and b.v == 0) else 0)
    return F(v, nan, pinf, ninf)


def fabs(a):
    if not is_z3(a.v):
        v = abs(a.v)
    else:
        v = z3.If(a.v >= 0, a.v, -a.v)
    return F(v, a.nan, a.isinf, False)


def flt(a, b):
    if a.simple() and b.simple():
        return band(bnot(a.nan), bnot(b.nan), vlt(a.v, b.v))
    return band(bnot(a.nan), bnot(b.nan),
                bor(band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf)),
                    band(a.fin, b.fin, vlt(a.v, b.v))))


def fle(a, b):
    if a.simple() and b.simple():
        return band(bnot(a.nan), bnot(b.nan), vle(a.v, b.v))
    return band(bnot(a.nan), bnot(b.nan),
                bor(a.ninf, b.pinf, band(a.fin, b.fin, vle(a.v, b.v))))


def feq(a, b):
    if a.simple() and b.simple():
        return band(bnot(a.nan), bnot(b.nan), veq(a.v, b.v))
    return band(bnot(a.nan), bnot(b.nan),
                bor(band(a.pinf, b.pinf), band(a.ninf, b.ninf),
                    band(a.fin, b.fin, veq(a.v, b.v))))


def fsame(a, b):
    """identical values, NaN identified with NaN"""
    return bor(band(a.nan, b.nan), feq(a, b))


# --- scalar proxies ---------------------------------------------------------
PYT = (int, float, bool)


class SymBool:
    __slots__ = ("z", "tag")
    __array_ufunc__ = None

    def __init__(self, z, tag=bool):
        self.z = z
        self.tag = tag

    def __bool__(self):
        return core.B.branch(self.z)

    def __and__(self, o):
        return self._bin(o, band)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, bor)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)))

    __rxor__ = __xor__

    def _bin(self, o, f):
        if isinstance(o, (SymBool, bool, rnp.bool_)):
            tag = rnp.bool_ if rnp.bool_ in (self.tag, tag_of(o)) else bool
            return mkbool(f(self.z, bz(o)), tag)
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return self._unsup()

    def _unsup(self):
        raise Unsupported("bitwise operation on a boolean and a non boolean")

    def __invert__(self):
        if self.tag is bool:
            raise Unsupported("~ on a python bool")
        return mkbool(bnot(self.z), self.tag)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, rnp.bool_)):
            return mkbool(biff(self.z, bz(o)), bool)
        if o is None or isinstance(o, str):
            return False
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(bnot(bz(r))) if not hasattr(r, "_is_symarray") else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def _num(self):
        return SymInt(z3.If(zb(self.z), z3.IntVal(1), z3.IntVal(0)), int if self.tag is bool else rnp.int64)

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        return core.B.token(("fmt", spec, "b", bkey(self.z)))

    def __str__(self):
        return self.__format__("")

    __repr__ = __str__

    @property
    def dtype(self):
        return rnp.dtype("bool")

    def astype(self, t):
        from . import npshim
        return npshim.cast_scalar(self, t)

    def any(self):
        return self

    all = any

    def item(self):
        return mkbool(self.z, bool)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a symbolic boolean")


def bkey(z):
    return z if isinstance(z, bool) else z.get_id()


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv",
            "lt", "le", "gt", "ge", "neg", "abs", "pow", "rpow", "floordiv", "mod"):
    def _mk(op):
        name = f"__{op}__"

        def f(self, *a):
            m = getattr(self._num(), name)
            return m(*a)
        return f
    setattr(SymBool, f"__{_op}__", _mk(_op))


def bz(o):
    if isinstance(o, SymBool):
        return o.z
    if isinstance(o, (bool, rnp.bool_)):
        return bool(o)
    raise Unsupported(f"boolean expected, got {type(o).__name__}")


def mkbool(z, tag=bool):
    if isinstance(z, bool):
        return z if tag is bool else rnp.bool_(z)
    if z3.is_true(z):
        return True if tag is bool else rnp.bool_(True)
    if z3.is_false(z):
        return False if tag is bool else rnp.bool_(False)
    return SymBool(z, tag)


class SymNum:
    """Base of SymInt and SymFloat."""
    __slots__ = ()
    __array_ufunc__ = None

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    # arithmetic
    def __add__(self, o): return nbin("add", self, o)
    def __radd__(self, o): return nbin("add", o, self)
    def __sub__(self, o): return nbin("sub", self, o)
    def __rsub__(self, o): return nbin("sub", o, self)
    def __mul__(self, o): return nbin("mul", self, o)
    def __rmul__(self, o): return nbin("mul", o, self)
    def __truediv__(self, o): return nbin("div", self, o)
    def __rtruediv__(self, o): return nbin("div", o, self)
    def __floordiv__(self, o): return nbin("floordiv", self, o)
    def __rfloordiv__(self, o): return nbin("floordiv", o, self)
    def __mod__(self, o): return nbin("mod", self, o)
    def __rmod__(self, o): return nbin("mod", o, self)
    def __pow__(self, o): return nbin("pow", self, o)
    def __rpow__(self, o): return nbin("pow", o, self)
    def __neg__(self): return nneg(self)
    def __pos__(self): return self
    def __abs__(self): return nabs(self)

    def __lt__(self, o): return ncmp("lt", self, o)
    def __le__(self, o): return ncmp("le", self, o)
    def __gt__(self, o): return ncmp("gt", self, o)
    def __ge__(self, o): return ncmp("ge", self, o)
    def __eq__(self, o): return ncmp("eq", self, o)
    def __ne__(self, o): return ncmp("ne", self, o)

    def __bool__(self):
        return bool(self != 0)

    def __format__(self, spec):
        k = ("fmt", spec, self.kind, self.key())
        if spec.endswith("f"):
            t = core.B.token(k, "{}.0000")
        else:
            t = core.B.token(k)
        core.B.cache[("tokval", t)] = self
        return t

    def __str__(self):
        return self.__format__("")

    __repr__ = __str__

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def item(self):
        return retag(self, float if self.kind == "f" else int)

    def astype(self, t):
        from . import npshim
        return npshim.cast_scalar(self, t)

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a symbolic number")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic number")


class SymInt(SymNum):
    __slots__ = ("z", "tag", "flat")
    kind = "i"

    def __init__(self, z, tag=int, flat=None):
        self.z = z
        self.tag = tag
        self.flat = flat

    def key(self):
        return self.z.get_id()

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    @property
    def dtype(self):
        return rnp.dtype("int64")

    def __and__(self, o):
        raise Unsupported("bit operation on a symbolic integer")

    __or__ = __rand__ = __ror__ = __xor__ = __lshift__ = __rshift__ = __and__


class SymFloat(SymNum):
    __slots__ = ("f", "tag")
    kind = "f"

    def __init__(self, f, tag=float):
        self.f = f
        self.tag = tag

    def key(self):
        f = self.f
        return tuple(bkey(x) if (isinstance(x, bool) or is_z3(x)) else ("c", x)
                     for x in (f.v, f.nan, f.pinf, f.ninf))

    def __int__(self):
        raise Unsupported("int() of a symbolic float")

    def __float__(self):
        raise Unsupported("C level float() of a symbolic float")

    @property
    def dtype(self):
        return rnp.dtype("float64")

    def is_integer(self):
        raise Unsupported("is_integer")


def concretize(x, limit=40):
    """Fork over the feasible integer values of x."""
    z = core.isimp(x.z)
    if isinstance(z, int):
        return z
    b = core.B
    for k in range(limit):
        pos = len(b.trace)
        if pos < len(b.prefix):
            # replay: the prefix stores the value itself
            v = b.prefix[pos]
            b.trace.append((v, None))
            b.fact(z == v)
            return v
        vals = []
        b.solver.push()
        try:
            while len(vals) <= limit:
                r = b.check_sat()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Unsupported("cannot enumerate a symbolic integer")
                v = b.solver.model().eval(z, model_completion=True).as_long()
                vals.append(v)
                b.solver.add(z != v)
        finally:
            b.solver.pop()
        if not vals:
            raise core.Abort("infeasible")
        if len(vals) > limit:
            raise Unsupported("unbounded symbolic integer used where a concrete one is needed")
        vals.sort()
        v = b.decide(vals)
        b.fact(z == v)
        return v


def isnum(x):
    return isinstance(x, (SymNum, int, float, rnp.integer, rnp.floating)) and not isinstance(x, (bool, rnp.bool_)) \
        or isinstance(x, (bool, rnp.bool_, SymBool))


def tag_of(x):
    if isinstance(x, (SymNum, SymBool)):
        return x.tag
    return type(x)


def kind_of(x):
    if isinstance(x, SymNum):
        return x.kind
    if isinstance(x, (SymBool, bool, rnp.bool_)):
        return "b"
    if isinstance(x, (int, rnp.integer)):
        return "i"
    if isinstance(x, (float, rnp.floating, Fraction)):
        return "f"
    return None


def to_int(x):
    """-> python int or z3 Int"""
    if isinstance(x, SymInt):
        return core.isimp(x.z)
    if isinstance(x, SymBool):
        return z3.If(zb(x.z), z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, rnp.bool_)):
        return int(x)
    if isinstance(x, (int, rnp.integer)):
        return int(x)
    raise Unsupported(f"integer expected, got {type(x).__name__}")


def to_f(x):
    """-> F"""
    if isinstance(x, SymFloat):
        return x.f
    if isinstance(x, SymInt):
        return F(z3.ToReal(x.z))
    if isinstance(x, SymBool):
        return F(z3.If(zb(x.z), z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (bool, rnp.bool_, int, rnp.integer)):
        return F(Fraction(int(x)))
    if isinstance(x, Fraction):
        return F(x)
    if isinstance(x, (float, rnp.floating)):
        return fconst(x)
    raise Unsupported(f"number expected, got {type(x).__name__}")


def is_np(tag):
    return isinstance(tag, type) and issubclass(tag, rnp.generic)


def mkint(z, tag=int):
    if isinstance(z, int):
        return z if tag is int else (tag(z) if is_np(tag) else z)
    z = core.isimp(z)
    if isinstance(z, int):
        return mkint(z, tag)
    return SymInt(z, tag)


def mkfloat(f, tag=float):
    """constant extended reals exactly representable become native floats"""
    if f.const():
        if f.nan:
            x = float("nan")
        elif f.pinf:
            x = float("inf")
        elif f.ninf:
            x = float("-inf")
        else:
            x = float(f.v)
            if Fraction(x) != f.v:
                return SymFloat(f, tag)
        return x if tag is float else rnp.float64(x)
    return SymFloat(f, tag)


def retag(x, tag):
    if isinstance(x, SymInt):
        return SymInt(x.z, tag, x.flat)
    if isinstance(x, SymFloat):
        return SymFloat(x.f, tag)
    if isinstance(x, SymBool):
        return SymBool(x.z, tag)
    return tag(x)


def res_tag(kind, *xs):
    np_ = any(is_np(tag_of(x)) for x in xs)
    if kind == "f":
        return rnp.float64 if np_ else float
    if kind == "i":
        return rnp.int64 if np_ else int
    return rnp.bool_ if np_ else bool


def native(x):
    return not isinstance(x, (SymNum, SymBool))


def nneg(x):
    if isinstance(x, SymInt):
        return mkint(-x.z, x.tag)
    return mkfloat(fneg(x.f), x.tag)


def nabs(x):
    if isinstance(x, SymInt):
        return mkint(z3.If(x.z >= 0, x.z, -x.z), x.tag)
    return mkfloat(fabs(x.f), x.tag)


def nbin(op, a, b):
    if not isnum(a) or not isnum(b):
        return NotImplemented
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return NotImplemented
    if "f" in (ka, kb) or op == "div":
        tag = res_tag("f", a, b)
        fa, fb = to_f(a), to_f(b)
        if op == "add":
            return mkfloat(fadd(fa, fb), tag)
        if op == "sub":
            return mkfloat(fsub(fa, fb), tag)
        if op == "mul":
            return mkfloat(fmul(fa, fb), tag)
        if op == "div":
            if not is_np(tag):
                if core.branch(fzero(fb)):
                    raise ZeroDivisionError("division by zero")
            return mkfloat(fdiv(fa, fb), tag)
        if op == "pow":
            return fpow(a, b, tag)
        if op in ("floordiv", "mod"):
            if not (fa.simple() and fb.simple()):
                raise Unsupported("float mod/floordiv with infinities")
            if core.branch(veq(fb.v, 0)):
                if not is_np(tag):
                    raise ZeroDivisionError("division by zero")
                raise Unsupported("numpy float mod by zero")
            q = core.B.fresh_int("q")
            qq = vdiv(fa.v, fb.v)
            core.B.fact(z3.And(z3.ToReal(q) <= vz(qq), vz(qq) < z3.ToReal(q) + 1))
            if op == "floordiv":
                return mkfloat(F(z3.ToReal(q), bor(fa.nan, fb.nan)), tag)
            return mkfloat(F(vadd(fa.v, vneg(vmul(z3.ToReal(q), fb.v))), bor(fa.nan, fb.nan)), tag)
        raise Unsupported(op)
    tag = res_tag("i", a, b)
    x, y = to_int(a), to_int(b)
    if op == "add":
        return mkint(core.iadd(x, y), tag)
    if op == "sub":
        return mkint(core.isub(x, y), tag)
    if op == "mul":
        return mkint(core.imul(x, y), tag)
    if op in ("floordiv", "mod"):
        if core.branch(core.ieq(y, 0)):
            if not is_np(tag):
                raise ZeroDivisionError("integer division or modulo by zero")
            raise Unsupported("numpy integer division by zero")
        # z3 div/mod are floor for positive divisors
        if not core.branch(core.ilt(0, y)):
            x, y = core.isub(0, x), core.isub(0, y)
            if op == "mod":
                r = core.iz(x) % core.iz(y)
                return mkint(-r, tag)
            return mkint(core.iz(x) / core.iz(y), tag)
        if op == "floordiv":
            return mkint(core.iz(x) / core.iz(y), tag)
        return mkint(core.iz(x) % core.iz(y), tag)
    if op == "pow":
        if isinstance(y, int) and 0 <= y <= 8:
            r = 1
            for _ in range(y):
                r = core.imul(r, x)
            return mkint(r, tag)
        if isinstance(y, int) and y < 0 and not is_np(tag):
            return 1 / (mkint(x, tag) ** (-y))
        raise Unsupported("symbolic integer power")
    raise Unsupported(op)


def fpow(a, b, tag):
    if isinstance(b, (SymNum, SymBool)):
        raise Unsupported("power with a symbolic exponent")
    e = float(b)
    fa = to_f(a)
    if e == int(e) and 0 <= e <= 8:
        r = F(Fraction(1))
        if e == 0:
            return mkfloat(r, tag)
        r = fa
        for _ in range(int(e) - 1):
            r = fmul(r, fa)
        return mkfloat(r, tag)
    if e == 0.5:
        from . import npshim
        return retag(npshim.u_sqrt(mkfloat(fa, rnp.float64)), tag)
    if e == int(e) and -8 <= e < 0:
        r = fa
        for _ in range(int(-e) - 1):
            r = fmul(r, fa)
        if not is_np(tag):
            if core.branch(fzero(r)):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return mkfloat(fdiv(F(Fraction(1)), r), tag)
    raise Unsupported(f"power {e}")


def ncmp(op, a, b):
    if b is None or isinstance(b, (str, tuple, list, dict)) or isinstance(b, type):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if not isnum(b):
        if hasattr(b, "_is_symarray"):
            return NotImplemented
        return NotImplemented
    tag = rnp.bool_ if (is_np(tag_of(a)) or is_np(tag_of(b))) else bool
    ka, kb = kind_of(a), kind_of(b)
    if "f" in (ka, kb):
        fa, fb = to_f(a), to_f(b)
        z = {"lt": lambda: flt(fa, fb), "le": lambda: fle(fa, fb),
             "gt": lambda: flt(fb, fa), "ge": lambda: fle(fb, fa),
             "eq": lambda: feq(fa, fb), "ne": lambda: bnot(feq(fa, fb))}[op]()
        return mkbool(z, tag)
    x, y = to_int(a), to_int(b)
    if isinstance(x, int) and isinstance(y, int):
        z = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
    elif op == "eq":
        z = core.ieq(x, y)
    elif op == "ne":
        z = bnot(core.ieq(x, y))
    else:
        x, y = iz(x), iz(y)
        z = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
    return mkbool(z, tag)


def elem_ite(c, a, b):
    """if-then-else over scalar values."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        # objects: fork
        return a if core.branch(c) else b
    if ka == "b" and kb == "b":
        return mkbool(bite(c, bz(a), bz(b)), rnp.bool_)
    if "f" in (ka, kb):
        return mkfloat(fite(c, to_f(a), to_f(b)), rnp.float64)
    return mkint(core.iite(c, to_int(a), to_int(b)), rnp.int64)

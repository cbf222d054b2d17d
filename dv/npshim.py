"""Semantics of the numpy functions the repository uses, over symbolic
scalars and arrays.  Whatever is missing raises Unsupported."""
import functools, types, math, builtins
from fractions import Fraction
import numpy as rnp
import z3
from . import core, vals, arr
from .core import (Unsupported, Engine, band, bor, bnot, bite, ile, ilt, ieq, iadd, isub,
                   imul, iz, is_z3, isimp, iite, zb)
from .vals import (F, flt, fle, feq, SymNum, SymInt, SymFloat, SymBool, mkint, mkbool, mkfloat, elem_ite,
                   to_int, to_f, raise_np, RepoExc, isnum, kind_of, bz, native, is_np, tag_of)
from .arr import SymArray, MaskSel, Fn, fresh_index, wrap, pick

NP = types.ModuleType("numpy")


def guard(f):
    """internal failures of a shim are tool limits, not behaviour of the code"""
    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except Engine:
            raise
        except RepoExc as e:
            raise e.inner from None
        except (RecursionError, MemoryError):
            raise Unsupported("resource limit in a shim")
        except GuardPass:
            raise
        except Exception as e:
            if getattr(e, "_from_shim", False):
                raise
            import os, traceback
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
            raise Unsupported(f"{getattr(f, '__name__', 'shim')}: {type(e).__name__}: {e}")
    return g


class GuardPass(BaseException):
    pass


# --- dtypes -------------------------------------------------------------------
VTYPES = {}      # injected int/float/bool/str stand-ins -> real


def real_type(t):
    try:
        return VTYPES.get(t, t)
    except TypeError:
        return t


def mkdtype(t, default="float64"):
    if t is None:
        return rnp.dtype(default)
    t = real_type(t)
    if isinstance(t, type) and not issubclass(t, (rnp.generic, int, float, bool, complex, str)):
        return rnp.dtype(object)
    return rnp.dtype(t)


def cast_elem(v, dt):
    k = dt.kind
    if k == "O":
        return v
    if isinstance(v, SymArray):
        if v.ndim_ == 0:
            v = v.scalar()
        else:
            raise_np(ValueError("setting an array element with a sequence."))
    if k == "f":
        if v is None:
            return float("nan")
        if kind_of(v) is None:
            if isinstance(v, str):
                raise Unsupported("string to float")
            raise_np(TypeError(f"float() argument must be a string or a real number, not '{type(v).__name__}'"))
        if isinstance(v, SymFloat):
            return v
        return mkfloat(to_f(v))
    if k == "i":
        kk = kind_of(v)
        if kk is None:
            raise_np(TypeError("int() argument must be a string, a bytes-like object or a real number"))
        if kk in "ib":
            return mkint(to_int(v))
        f = to_f(v)
        if f.const() and f.nan is False and not f.pinf and not f.ninf:
            return int(f.v)
        if f.nan is not False or not f.simple():
            raise Unsupported("cast of NaN or infinity to an integer")
        z = vals.vz(f.v)
        return mkint(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
    if k == "b":
        if v is None:
            return False
        if kind_of(v) == "b":
            return mkbool(bz(v))
        if kind_of(v) == "i":
            return mkbool(bnot(ieq(to_int(v), 0)))
        f = to_f(v)
        return mkbool(bnot(vals.fzero(f)))
    if k == "U":
        return v
    raise Unsupported(f"dtype {dt}")


def cast_scalar(v, t):
    dt = mkdtype(t)
    return wrap(cast_elem(v, dt), dt)


# --- conversion -----------------------------------------------------------------
def is_arr(x):
    return isinstance(x, (SymArray, MaskSel))


def as_arr(x):
    if isinstance(x, (SymArray, MaskSel)):
        return x
    if isinstance(x, (list, tuple)):
        return f_array(x)
    if isinstance(x, range):
        return f_array(list(x))
    if isinstance(x, rnp.ndarray):
        return f_array(x.tolist()) if x.ndim else f_array(x.item())
    if hasattr(x, "_vlist_array"):
        return x._vlist_array()
    dt = arr.scalar_dtype(x) if isnum(x) else rnp.dtype(object)
    if isinstance(x, str):
        dt = rnp.dtype("U")
    return SymArray((), lambda idx: x, dt)


def _nest(x):
    """shape and flat list of a nested sequence"""
    if isinstance(x, (list, tuple)):
        subs = [_nest(y) for y in x]
        if not subs:
            return (0,), []
        shapes = [s for s, _ in subs]
        if any(len(s) != len(shapes[0]) for s in shapes):
            raise_np(ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape"))
        for s in shapes[1:]:
            for p, q in zip(s, shapes[0]):
                if not core.branch(ieq(p, q)):
                    raise_np(ValueError("inhomogeneous shape"))
        return (len(x),) + tuple(shapes[0]), [f for _, f in subs]
    if isinstance(x, SymArray):
        return x.shp, x
    if isinstance(x, MaskSel):
        raise Unsupported("array of a selection")
    return (), x


def f_array(obj, dtype=None, copy=True, ndmin=0, order=None):
    if hasattr(obj, "_vlist_array"):
        obj = obj._vlist_array()
    if isinstance(obj, range):
        obj = list(obj)
    if isinstance(obj, MaskSel):
        r = MaskSel(obj.mask, obj.fn, obj.dtype)
        return r if dtype is None else r.astype(dtype)
    if isinstance(obj, SymArray):
        r = obj.snapshot()
        if dtype is not None:
            r = m_astype(r, dtype)
        return r
    if isinstance(obj, (list, tuple)):
        shape, tree = _nest(list(obj))
        leaves = []

        def walk(t, d):
            if isinstance(t, SymArray):
                leaves.append(t.dtype)
            elif isinstance(t, list):
                for y in t:
                    walk(y, d + 1)
            elif isnum(t):
                leaves.append(arr.scalar_dtype(t))
            elif isinstance(t, str):
                leaves.append(rnp.dtype("U8"))
            else:
                leaves.append(rnp.dtype(object))
        walk(tree, 0)
        if dtype is not None:
            dt = mkdtype(dtype)
        elif not leaves:
            dt = rnp.dtype("float64")
        else:
            dt = leaves[0]
            for l in leaves[1:]:
                dt = rnp.dtype(object) if "O" in (dt.kind, l.kind) else rnp.result_type(dt, l)

        def freeze(t):
            if isinstance(t, SymArray):
                return t.snapshot()
            if isinstance(t, list):
                return [freeze(y) for y in t]
            return cast_elem(t, dt)
        tree = freeze(tree)

        def get(t, idx):
            if isinstance(t, SymArray):
                return cast_elem(t.at(tuple(idx)), dt)
            if not idx:
                return t
            i = idx[0]
            if isinstance(i, int):
                return get(t[i], idx[1:])
            i = isimp(i)
            if isinstance(i, int):
                return get(t[i], idx[1:])
            return pick([get(t[j], idx[1:]) for j in builtins.range(len(t))], i)
        return SymArray(shape, lambda idx: get(tree, list(idx)), dt)
    if isinstance(obj, (set, dict)) or callable(getattr(obj, "__next__", None)):
        raise Unsupported("np.array of an iterator")
    a = as_arr(obj)
    if dtype is not None:
        a = m_astype(a, dtype)
    return a


# --- broadcasting -----------------------------------------------------------------
def bdim(n, m):
    """broadcast two dims -> (result, n is stretched, m is stretched)"""
    if isinstance(n, int) and isinstance(m, int):
        if n == m:
            return n, False, False
        if n == 1:
            return m, True, False
        if m == 1:
            return n, False, True
        raise_np(ValueError("operands could not be broadcast together"))
    if is_z3(n) and is_z3(m) and n.eq(m):
        return n, False, False
    if isinstance(n, int) and n == 1:
        return m, True, False
    if isinstance(m, int) and m == 1:
        return n, False, True
    if core.branch(ieq(n, m)):
        return (n if isinstance(n, int) else m if isinstance(m, int) else n), False, False
    if core.branch(ieq(n, 1)):
        return m, True, False
    if core.branch(ieq(m, 1)):
        return n, False, True
    raise_np(ValueError("operands could not be broadcast together"))


def broadcast(arrays):
    """common shape and an index map per array"""
    nd = builtins.max([len(a.shp) for a in arrays] or [0])
    shp = [1] * nd
    padded = [(1,) * (nd - len(a.shp)) + a.shp for a in arrays]
    first = True
    for p in padded:
        for d in builtins.range(nd):
            if first:
                shp[d] = p[d]
            else:
                shp[d], _, _ = bdim(shp[d], p[d])
        first = False
    maps = []
    for a, p in zip(arrays, padded):
        flags = []
        for d in builtins.range(nd):
            n = p[d]
            s = shp[d]
            st = False
            if isinstance(n, int) and n == 1:
                st = True
            elif (is_z3(n) and is_z3(s) and n.eq(s)) or (isinstance(n, int) and isinstance(s, int) and n == s):
                st = False
            else:
                # decided equal or stretched on this path
                st = not core.must(ieq(n, s))
            flags.append(st)
        off = nd - len(a.shp)

        def mp(idx, flags=flags, off=off):
            return tuple(0 if flags[d] else idx[d] for d in builtins.range(off, len(idx)))
        maps.append(mp)
    return tuple(shp), maps


def broadcast_to_shape(arrays, shape):
    """maps from the target shape to each array"""
    maps = []
    for a in arrays:
        shp = list(a.shp)
        while len(shp) > len(shape) and isinstance(shp[0], int) and shp[0] == 1:
            shp = shp[1:]
        drop = len(a.shp) - len(shp)
        if len(shp) > len(shape):
            raise_np(ValueError("could not broadcast input array"))
        off = len(shape) - len(shp)
        flags = []
        for d, n in enumerate(shp):
            s = shape[off + d]
            if isinstance(n, int) and n == 1:
                flags.append(True)
            elif core.branch(ieq(n, s)):
                flags.append(False)
            elif core.branch(ieq(n, 1)):
                flags.append(True)
            else:
                raise_np(ValueError("could not broadcast input array"))

        def mp(idx, flags=flags, off=off, drop=drop):
            return (0,) * drop + tuple(0 if flags[d] else idx[off + d] for d in builtins.range(len(flags)))
        maps.append(mp)
    return shape, maps


def _obj_guard(*xs):
    pass


def ew(f, args, dtype):
    """elementwise application"""
    if any(isinstance(a, MaskSel) for a in args):
        if len(args) == 1:
            return args[0].map(f, dtype)
        a, b = args
        if isinstance(a, MaskSel):
            return a._bin(_s0(b), f, lambda x, y: dtype)
        return b._bin(_s0(a), lambda x, y: f(y, x), lambda x, y: dtype)
    arrays = [as_arr(a) for a in args]
    if all(a.ndim_ == 0 for a in arrays):
        return wrap(f(*[wrap(a.at(()), a.dtype) if isinstance(a, SymArray) else a for a in arrays]), rnp.dtype(dtype))
    shp, maps = broadcast(arrays)
    fs = [a.fnow() for a in arrays]
    return SymArray(shp, lambda idx: f(*[g(m(idx)) for g, m in zip(fs, maps)]), dtype)


def _s0(x):
    if isinstance(x, SymArray) and x.ndim_ == 0:
        return x.scalar()
    if isinstance(x, list):
        return f_array(x)
    return x


def dt_of(x):
    if isinstance(x, (SymArray, MaskSel)):
        return x.dtype
    if isinstance(x, (list, tuple)):
        return f_array(x).dtype
    if isnum(x):
        return arr.scalar_dtype(x)
    return rnp.dtype(object)


def res_dt(*xs):
    ds = [dt_of(x) for x in xs]
    # python scalars do not promote arrays
    strong = [d for d, x in zip(ds, xs) if is_arr(x) or isinstance(x, (list, tuple))]
    if any(d.kind == "O" for d in ds):
        return rnp.dtype(object)
    if strong:
        r = strong[0]
        for d in strong[1:]:
            r = rnp.result_type(r, d)
        order = "biufc"
        for d, x in zip(ds, xs):
            if not is_arr(x) and order.index(d.kind.replace("u", "i")) > order.index(r.kind.replace("u", "i")):
                r = rnp.result_type(r, d)
        return r
    r = ds[0]
    for d in ds[1:]:
        r = rnp.result_type(r, d)
    return r


# scalar kernels (numpy semantics) -----------------------------------------------
def npf(x):
    """operand as a numpy typed scalar so that division follows numpy"""
    if isinstance(x, (SymInt, SymFloat)):
        if not is_np(x.tag):
            return vals.retag(x, rnp.float64 if x.kind == "f" else rnp.int64)
        return x
    return x


def k_arith(op):
    def f(a, b):
        if kind_of(a) is None or kind_of(b) is None:
            import operator
            o = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
                 "pow": operator.pow, "mod": operator.mod, "floordiv": operator.floordiv}[op]
            return o(a, b)
        if op in ("add", "mul", "sub") and kind_of(a) == "b" and kind_of(b) == "b":
            if op == "add":
                return mkbool(bor(bz(a), bz(b)))
            if op == "mul":
                return mkbool(band(bz(a), bz(b)))
            raise_np(TypeError("numpy boolean subtract, the `-` operator, is not supported"))
        if kind_of(a) in "ib" and kind_of(b) in "ib" and op in ("add", "sub", "mul"):
            x, y = to_int(a), to_int(b)
            return mkint({"add": iadd, "sub": isub, "mul": imul}[op](x, y))
        if op in ("add", "sub", "mul", "div"):
            fa, fb = to_f(a), to_f(b)
            return mkfloat({"add": vals.fadd, "sub": vals.fsub, "mul": vals.fmul, "div": vals.fdiv}[op](fa, fb))
        if native(a) and native(b):
            a = SymInt(iz(to_int(a)), rnp.int64) if kind_of(a) in "ib" else SymFloat(to_f(a), rnp.float64)
        r = vals.nbin(op, npf(a), npf(b))
        return r
    return f


def k_cmp(op):
    def f(a, b):
        if kind_of(a) is None or kind_of(b) is None:
            import operator
            r = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
                 "eq": operator.eq, "ne": operator.ne}[op](a, b)
            return r
        if native(a) and native(b):
            if kind_of(a) in "ib" and kind_of(b) in "ib":
                a = SymInt(iz(to_int(a)), rnp.int64)
            else:
                a = SymFloat(to_f(a), rnp.float64)
        if isinstance(a, SymBool):
            a = a._num()
        if isinstance(b, SymBool):
            b = b._num()
        if isinstance(a, SymNum):
            r = vals.ncmp(op, a, b)
        else:
            r = vals.ncmp({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op), b, a)
        return r
    return f


def tobool_elem(x):
    return cast_elem(x, rnp.dtype(bool))


def k_logic(op):
    def f(a, b):
        if kind_of(a) == "i" or kind_of(b) == "i":
            raise Unsupported("bitwise operation on integers")
        if kind_of(a) != "b" or kind_of(b) != "b":
            raise_np(TypeError("ufunc 'bitwise' not supported for the input types"))
        x, y = bz(a), bz(b)
        return mkbool({"and": lambda: band(x, y), "or": lambda: bor(x, y),
                       "xor": lambda: bor(band(x, bnot(y)), band(bnot(x), y))}[op]())
    return f


def k_logical(op):
    def f(a, b):
        x, y = bz(tobool_elem(a)), bz(tobool_elem(b))
        return mkbool({"and": lambda: band(x, y), "or": lambda: bor(x, y),
                       "xor": lambda: bor(band(x, bnot(y)), band(bnot(x), y))}[op]())
    return f


def k_minmax(op, skipnan=False):
    def f(a, b):
        if kind_of(a) in "ib" and kind_of(b) in "ib":
            x, y = to_int(a), to_int(b)
            c = ile(x, y)
            return mkint(iite(c, x, y) if op == "min" else iite(c, y, x))
        fa, fb = to_f(a), to_f(b)
        c = vals.fle(fa, fb)
        r = vals.fite(c, fa, fb) if op == "min" else vals.fite(c, fb, fa)
        if skipnan:
            r = vals.fite(fa.nan, fb, vals.fite(fb.nan, fa, r))
        else:
            nan = bor(fa.nan, fb.nan)
            r = F(r.v, nan, band(bnot(nan), r.pinf), band(bnot(nan), r.ninf))
        return mkfloat(r)
    return f


class UFunc:
    def __init__(self, name, kernel, nin, dtype):
        self.__name__ = name
        self.kernel = kernel
        self.nin = nin
        self.dt = dtype

    def __call__(self, *args, **kw):
        return guard(self._call)(*args, **kw)

    def _call(self, *args, out=None, where=True, dtype=None, casting=None):
        if len(args) > self.nin:
            args, out = args[:self.nin], args[self.nin]
        args = [f_array(a) if isinstance(a, (list, tuple)) or hasattr(a, "_vlist_array") else a for a in args]
        for a in args:
            if not is_arr(a) and not isnum(a):
                if isinstance(a, (str, type(None), dict)):
                    raise_np(TypeError(f"ufunc '{self.__name__}' not supported for the input types"))
                if self.__name__ not in ("less", "greater", "less_equal", "greater_equal", "equal", "not_equal",
                                         "add", "subtract", "multiply"):
                    raise_np(TypeError(f"ufunc '{self.__name__}' not supported for the input types"))
        dt = self.dt(*args)
        r = ew(self.kernel, args, dt)
        if where is not True:
            w = as_arr(where)
            base = out if out is not None else None
            if base is None:
                raise Unsupported("ufunc where= without out=")
            if isinstance(base, tuple):
                base = base[0]
            shp, (mw, mr) = broadcast_to_shape([w, as_arr(r)], base.shp)
            wf, rf, bf = w.fnow(), as_arr(r).fnow(), base.fnow()
            base.write(lambda i: bz(wf(mw(i))), lambda i: cast_elem(rf(mr(i)), base.dtype))
            return base
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            arr.assign_view(full_view(out), r)
            return out
        if dtype is not None:
            return f_array(r, dtype=dtype) if is_arr(r) else cast_scalar(r, dtype)
        return r

    def reduce(self, a, axis=0, dtype=None, initial=None):
        return guard(self._reduce)(a, axis, initial)

    def _reduce(self, a, axis, initial):
        items = list(a) if isinstance(a, (list, tuple)) else None
        if items is None:
            a = as_arr(a)
            if axis != 0 or not isinstance(a.shp[0], int):
                if self.__name__ == "logical_or" and axis is None:
                    return f_any(a)
                if self.__name__ == "logical_and" and axis is None:
                    return f_all(a)
                raise Unsupported("ufunc.reduce over a symbolic axis")
            items = [a[i] for i in builtins.range(a.shp[0])]
        if initial is not None:
            items = [initial] + items
        if not items:
            if self.__name__ in ("logical_or",):
                return rnp.bool_(False)
            raise Unsupported("empty reduce")
        r = items[0]
        if len(items) == 1:
            # a new array, of the kind the function has
            logical = self.__name__.startswith("logical")
            return f_array(r, dtype=bool) if logical else f_array(r) if is_arr(r) else r
        for x in items[1:]:
            r = self._call(r, x)
        return r

    def outer(self, a, b):
        a, b = as_arr(a), as_arr(b)
        return self(a[(Ellipsis,) + (None,) * b.ndim_], b)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"ufunc attribute {n}")


def full_view(a):
    return a


def dt_f(*xs):
    r = res_dt(*xs)
    if r.kind == "O":
        return r
    return r if r.kind in "fc" else rnp.dtype("float64")


def dt_b(*xs):
    return rnp.dtype(bool)


U = {}


def reg(name, kernel, nin, dt, *aliases):
    u = UFunc(name, kernel, nin, dt)
    for n in (name,) + aliases:
        U[n] = u
        setattr(NP, n, u)
    return u


reg("add", k_arith("add"), 2, res_dt)
reg("subtract", k_arith("sub"), 2, res_dt)
reg("multiply", k_arith("mul"), 2, res_dt)
reg("divide", k_arith("div"), 2, dt_f, "true_divide")
reg("floor_divide", k_arith("floordiv"), 2, res_dt)
reg("mod", k_arith("mod"), 2, res_dt, "remainder")
reg("power", k_arith("pow"), 2, res_dt, "float_power")
for _n, _o in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"),
               ("equal", "eq"), ("not_equal", "ne")):
    reg(_n, k_cmp(_o), 2, dt_b)
reg("bitwise_and", k_logic("and"), 2, dt_b)
reg("bitwise_or", k_logic("or"), 2, dt_b)
reg("bitwise_xor", k_logic("xor"), 2, dt_b)
reg("logical_and", k_logical("and"), 2, dt_b)
reg("logical_or", k_logical("or"), 2, dt_b)
reg("logical_xor", k_logical("xor"), 2, dt_b)
reg("maximum", k_minmax("max"), 2, res_dt)
reg("minimum", k_minmax("min"), 2, res_dt)
reg("fmax", k_minmax("max", True), 2, res_dt)
reg("fmin", k_minmax("min", True), 2, res_dt)


def k_not(a):
    return mkbool(bnot(bz(tobool_elem(a))))


def k_invert(a):
    if kind_of(a) == "i":
        return mkint(isub(-1, to_int(a)))
    if kind_of(a) != "b":
        raise_np(TypeError("ufunc 'invert' not supported for the input types"))
    return mkbool(bnot(bz(a)))


reg("logical_not", k_not, 1, dt_b)
reg("invert", k_invert, 1, res_dt, "bitwise_not")
reg("negative", lambda a: mkint(isub(0, to_int(a))) if kind_of(a) in "ib" else mkfloat(vals.fneg(to_f(a))), 1, res_dt)
reg("positive", lambda a: a, 1, res_dt)


def k_abs(a):
    if kind_of(a) in "ib":
        x = to_int(a)
        return mkint(abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x))
    return mkfloat(vals.fabs(to_f(a)))


reg("absolute", k_abs, 1, res_dt, "abs", "fabs")
reg("isnan", lambda a: mkbool(to_f(a).nan), 1, dt_b)
reg("isinf", lambda a: mkbool(to_f(a).isinf), 1, dt_b)
reg("isfinite", lambda a: mkbool(to_f(a).fin), 1, dt_b)
reg("square", lambda a: k_arith("mul")(a, a), 1, res_dt)
reg("reciprocal", lambda a: k_arith("div")(1, a), 1, dt_f)


def k_sign(a):
    f = to_f(a)
    return mkfloat(F(vals.vite(vals.vlt(0, f.v), 1, vals.vite(vals.vlt(f.v, 0), -1, 0)), f.nan)) if f.simple() else _unsup("sign of inf")


def _unsup(m):
    raise Unsupported(m)


reg("sign", k_sign, 1, res_dt)


# --- transcendental ----------------------------------------------------------
def cached(key, make):
    c = core.B.cache
    if key not in c:
        c[key] = make()
    return c[key]


def vkey(v):
    return v.get_id() if is_z3(v) else ("c", Fraction(v))


def PI():
    def mk():
        p = z3.Real("pi")
        core.B.fact(z3.And(p > rv_("3.14159265358979"), p < rv_("3.14159265358980")))
        return p
    return cached("pi", mk)


def rv_(s):
    return z3.RealVal(s)


def isqrt_frac(q):
    q = Fraction(q)
    if q < 0:
        return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def s_sqrt(v, nonneg=False):
    """real square root of v >= 0 (unconstrained for v < 0)"""
    if not is_z3(v):
        r = isqrt_frac(v)
        if r is not None:
            return r
    v = z3.simplify(v) if is_z3(v) else v
    if is_z3(v) and z3.is_rational_value(v):
        r = isqrt_frac(v.as_fraction())
        if r is not None:
            return r

    def mk():
        s = core.B.fresh_real("sqrt")
        z = vals.vz(v)
        if nonneg and core.B.opts.get("monomials"):
            m = vals.monomials(core.B)
            core.B.fact(s >= 0)
            core.B.fact((s == 0) == (z == 0))
            m.rule(s, m.conv(z))
            core.B.defs.append((s, s * s == z))
        else:
            core.B.fact(z3.Implies(z >= 0, z3.And(s >= 0, vz(vals.vmul(s, s)) == z)))
        core.B.cache[("sqrtdef", s.get_id())] = (s, z)
        if core.B.opts.get("sqrt_order"):
            # the square root is increasing
            known = core.B.cache.setdefault("sqrts", [])
            for s2, z2 in known[-12:]:
                core.B.fact(z3.Implies(z3.And(z >= 0, z2 >= 0), z3.And((s <= s2) == (z <= z2), (s2 <= s) == (z2 <= z))))
            known.append((s, z))
        return s, v
    return cached(("sqrt", vkey(canon(v))), mk)[0]


def canon(v):
    """a term in polynomial normal form (equal polynomials get one symbol)"""
    if not is_z3(v):
        return v
    if core.B.opts.get("monomials"):
        return vals.monomials(core.B).canon(v)
    memo = core.B.cache.setdefault("canon", {})
    k = v.get_id()
    if k not in memo:
        memo[k] = (z3.simplify(v, som=True), v)
    return memo[k][0]


def u_sqrt(x):
    f = to_f(x)
    neg = bor(vals.vlt(f.v, 0))
    if f.isinf is False:
        nan = bor(f.nan, neg)
        if f.const() and (f.nan or neg):
            return mkfloat(vals.NAN)
        return mkfloat(F(s_sqrt(f.v), nan))
    nan = bor(f.nan, f.ninf, band(f.fin, neg))
    return mkfloat(F(s_sqrt(f.v), nan, f.pinf, False))


reg("sqrt", u_sqrt, 1, dt_f)


def u_hypot(a, b):
    fa, fb = to_f(a), to_f(b)
    if not (fa.simple() and fb.simple()):
        inf = bor(fa.isinf, fb.isinf)
    else:
        inf = False
    nan = band(bnot(inf), bor(fa.nan, fb.nan))
    v = s_sqrt(vals.vadd(vals.vmul(fa.v, fa.v), vals.vmul(fb.v, fb.v)), True)
    return mkfloat(F(v, nan, inf, False))


reg("hypot", u_hypot, 2, dt_f)


def MU(a, b):
    return vz(vals.vmul(a, b))


def unit(s, c):
    """s is a sine and c the cosine of the same angle"""
    B = core.B
    if B.opts.get("monomials"):
        m = vals.monomials(B)
        cc = m.conv(vals.vz(vals.vmul(c, c)))
        m.rule(s, poly_minus(cc))
        B.defs.append((s, s * s + c * c == 1))
        B.fact(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        B.fact(MU(c, c) <= 1)
        B.fact(z3.Or(c == 0, MU(c, c) > 0))
        B.fact(z3.Implies(z3.Or(c == 1, c == -1), s == 0))
        B.fact(z3.Implies(c == 0, z3.Or(s == 1, s == -1)))
    else:
        B.fact(s * s + c * c == 1)


def poly_minus(p):
    from . import poly
    return poly.padd({(): Fraction(1)}, p, -1)


def ite_condition(v):
    """a condition inside the term"""
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return x.arg(0)
        st.extend(x.children())
    return None


def angle_pair(v):
    """(sin, cos) of a real angle"""
    if not is_z3(v):
        if v == 0:
            return Fraction(0), Fraction(1)
        v = vals.rv(v)
    v = z3.simplify(v, som=True)
    if core.B.opts.get("monomials") and ite_condition(v) is None:
        v = z3.simplify(canon(v), som=True)
    if z3.is_rational_value(v) and v.as_fraction() == 0:
        return Fraction(0), Fraction(1)
    cache = core.B.cache
    key = ("angle", v.get_id())
    if key in cache:
        return cache[key][:2]
    pi = PI()
    angles = cache.setdefault("angles", [])
    res = None
    c = ite_condition(v)
    if c is not None:
        # by cases
        (s1, c1), (s0, c0) = [angle_pair(z3.simplify(z3.substitute(v, (c, z3.BoolVal(b))), som=True)) for b in (True, False)]
        cache[key] = (vals.vite(c, s1, s0), vals.vite(c, c1, c0), v)
        return cache[key][:2]
    # multiples of pi/2
    for k in (1, -1, 2, -2, 3, -3, 4):
        if z3.simplify(v - z3.Q(k, 2) * pi, som=True).eq(z3.RealVal(0)):
            res = [(0, 1), (1, 0), (0, -1), (-1, 0)][k % 4]
            res = (Fraction(res[0]), Fraction(res[1]))
            break
    if res is None:
        for u, su, cu in angles:
            d = z3.simplify(v - u, som=True)
            done = False
            for k in (1, -1, 2, -2):
                if z3.simplify(d - z3.Q(k, 2) * pi, som=True).eq(z3.RealVal(0)):
                    res = {1: (cu, -su), -1: (-cu, su), 2: (-su, -cu), -2: (-su, -cu)}[k]
                    done = True
                    break
            if done:
                break
            d = z3.simplify(v + u, som=True)
            if d.eq(z3.RealVal(0)):
                res = (-su, cu)
                break
            for k in (1, -1, 2, -2):
                if z3.simplify(d - z3.Q(k, 2) * pi, som=True).eq(z3.RealVal(0)):
                    # v = k pi/2 - u
                    res = {1: (cu, su), -1: (-cu, -su), 2: (su, -cu), -2: (su, -cu)}[k]
                    done = True
                    break
            if done:
                break
    if res is None:
        s, c = core.B.fresh_real("sin"), core.B.fresh_real("cos")
        unit(s, c)
        # sign facts for the first two quadrants
        core.B.fact(z3.Implies(z3.And(v > 0, v < pi), s > 0))
        core.B.fact(z3.Implies(z3.And(v > -pi / 2, v < pi / 2), c > 0))
        core.B.fact(z3.Implies(z3.And(v > pi / 2, v < 3 * pi / 2), c < 0))
        core.B.fact(z3.Implies(z3.And(v > -pi, v < 0), s < 0))
        core.B.fact(z3.Implies(v == 0, z3.And(s == 0, c == 1)))
        core.B.fact(z3.Implies(v == pi / 2, z3.And(s == 1, c == 0)))
        core.B.fact(z3.Implies(v == -pi / 2, z3.And(s == -1, c == 0)))
        core.B.fact(z3.Implies(z3.Or(v == pi, v == -pi), z3.And(s == 0, c == -1)))
        # double angles
        for u, su, cu in angles:
            if z3.simplify(v - 2 * u, som=True).eq(z3.RealVal(0)):
                core.B.fact(z3.And(s == 2 * MU(su, cu), c == MU(cu, cu) - MU(su, su)))
            elif z3.simplify(u - 2 * v, som=True).eq(z3.RealVal(0)):
                core.B.fact(z3.And(vz(su) == 2 * MU(s, c), vz(cu) == MU(c, c) - MU(s, s)))
        angles.append((v, s, c))
        res = (s, c)
    cache[key] = (res[0], res[1], v)
    core.B.abstract = True
    return res


vz = vals.vz


def u_sin(x):
    f = to_f(x)
    return mkfloat(F(angle_pair(f.v)[0], bor(f.nan, f.isinf)))


def u_cos(x):
    f = to_f(x)
    return mkfloat(F(angle_pair(f.v)[1], bor(f.nan, f.isinf)))


def u_tan(x):
    f = to_f(x)
    s, c = angle_pair(f.v)
    return mkfloat(vals.fdiv(F(s, bor(f.nan, f.isinf)), F(c)))


reg("sin", u_sin, 1, dt_f)
reg("cos", u_cos, 1, dt_f)
reg("tan", u_tan, 1, dt_f)


def s_atan2(y, x):
    y = z3.simplify(vz(y))
    x = z3.simplify(vz(x))

    def mk():
        th = core.B.fresh_real("atan2")
        s, c = core.B.fresh_real("sin"), core.B.fresh_real("cos")
        r = vz(s_sqrt(MU(x, x) + MU(y, y), True))
        pi = PI()
        fct = core.B.fact
        unit(s, c)
        fct(MU(r, c) == x)
        fct(MU(r, s) == y)
        fct(z3.Implies(z3.And(x == 0, y == 0), z3.And(c == 1, s == 0, th == 0)))
        fct(z3.And(th >= -pi, th <= pi))
        fct(z3.Implies(s > 0, z3.And(th > 0, th < pi)))
        fct(z3.Implies(s < 0, z3.And(th < 0, th > -pi)))
        fct(z3.Implies(z3.And(s == 0, c > 0), th == 0))
        fct(z3.Implies(z3.And(s == 0, c < 0), z3.Or(th == pi, th == -pi)))
        fct(z3.Implies(c > 0, z3.And(th > -pi / 2, th < pi / 2)))
        fct(z3.Implies(z3.And(c < 0, s > 0), th > pi / 2))
        fct(z3.Implies(z3.And(c < 0, s < 0), th < -pi / 2))
        fct(z3.Implies(z3.And(c == 0, s > 0), th == pi / 2))
        fct(z3.Implies(z3.And(c == 0, s < 0), th == -pi / 2))
        core.B.cache.setdefault("angles", []).append((th, s, c))
        core.B.cache[("angle", th.get_id())] = (s, c, th)
        core.B.abstract = True
        return th, y, x
    return cached(("atan2", vkey(canon(y)), vkey(canon(x))), mk)[0]


def u_atan2(y, x):
    fy, fx = to_f(y), to_f(x)
    if not (fy.simple() and fx.simple()):
        inf = bor(fy.isinf, fx.isinf)
        if not core.must(bnot(inf)):
            # an infinite argument: some angle
            th = core.B.fresh_real("atan2inf")
            core.B.fact(z3.And(th >= -PI(), th <= PI()))
            core.B.abstract = True
            v = vals.vite(inf, th, s_atan2(fy.v, fx.v))
            # tangent of an infinite slope with a finite abscissa
            s, c = core.B.fresh_real("sin"), core.B.fresh_real("cos")
            unit(s, c)
            core.B.fact(z3.Implies(zb(band(fy.isinf, fx.fin)), z3.And(c == 0)))
            core.B.fact(z3.Implies(zb(band(fy.pinf, fx.fin)), z3.And(s == 1, th == PI() / 2)))
            core.B.fact(z3.Implies(zb(band(fy.ninf, fx.fin)), z3.And(s == -1, th == -PI() / 2)))
            s0, c0 = angle_pair(s_atan2(fy.v, fx.v))
            sv = z3.simplify(v, som=True)
            core.B.cache[("angle", sv.get_id())] = (vals.vite(inf, s, s0), vals.vite(inf, c, c0), sv)
            return mkfloat(F(sv, bor(fy.nan, fx.nan)))
    return mkfloat(F(s_atan2(fy.v, fx.v), bor(fy.nan, fx.nan)))


reg("arctan2", u_atan2, 2, dt_f)
reg("arctan", lambda t: u_atan2(t, 1), 1, dt_f)


def s_acos(x):
    x = z3.simplify(vz(x))

    def mk():
        th = core.B.fresh_real("acos")
        s = core.B.fresh_real("sin")
        pi = PI()
        fct = core.B.fact
        ok = z3.And(x >= -1, x <= 1)
        fct(z3.Implies(ok, z3.And(th >= 0, th <= pi, s >= 0, MU(s, s) + MU(x, x) == 1)))
        fct(z3.Implies(ok, z3.And(z3.Implies(x > 0, th < pi / 2), z3.Implies(x < 0, th > pi / 2),
                                  z3.Implies(x == 0, th == pi / 2), z3.Implies(x == 1, th == 0),
                                  z3.Implies(x < 1, th > 0))))
        core.B.cache.setdefault("angles", []).append((th, s, x))
        core.B.cache[("angle", th.get_id())] = (s, x, th)
        core.B.abstract = True
        return th, x
    return cached(("acos", x.get_id()), mk)[0]


def u_acos(x):
    f = to_f(x)
    out = bor(f.nan, f.isinf, bnot(band(vals.vle(-1, f.v), vals.vle(f.v, 1))))
    return mkfloat(F(s_acos(f.v), out))


def u_asin(x):
    f = to_f(x)
    out = bor(f.nan, f.isinf, bnot(band(vals.vle(-1, f.v), vals.vle(f.v, 1))))
    return mkfloat(F(PI() / 2 - s_acos(f.v), out))


reg("arccos", u_acos, 1, dt_f)
reg("arcsin", u_asin, 1, dt_f)


def s_deg2rad(v):
    """v * pi / 180, distributed so that rad2deg is undone exactly"""
    if not is_z3(v):
        return v * Fraction(1, 180) * PI() if v != 0 else Fraction(0)
    inv = core.B.cache.get(("r2d", v.get_id()))
    if inv is not None:
        return inv[0]
    d = v.decl().kind()
    if z3.is_rational_value(v):
        q = v.as_fraction()
        return z3.RealVal(q / 180) * PI() if q != 0 else Fraction(0)
    if d == z3.Z3_OP_ADD:
        return functools.reduce(lambda a, b: a + b, [vz(s_deg2rad(c)) for c in v.children()])
    if d == z3.Z3_OP_SUB:
        return functools.reduce(lambda a, b: a - b, [vz(s_deg2rad(c)) for c in v.children()])
    if d == z3.Z3_OP_UMINUS:
        return -vz(s_deg2rad(v.arg(0)))
    if d == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), vz(s_deg2rad(v.arg(1))), vz(s_deg2rad(v.arg(2))))
    if d == z3.Z3_OP_MUL and v.num_args() == 2 and z3.is_rational_value(v.arg(0)):
        return v.arg(0) * vz(s_deg2rad(v.arg(1)))
    return MU(v, PI()) / 180


def u_deg2rad(x):
    f = to_f(x)
    return mkfloat(F(s_deg2rad(f.v), f.nan, f.pinf, f.ninf))


def s_rad2deg(v):
    if not is_z3(v):
        if v == 0:
            return Fraction(0)
        v = vals.rv(v)

    def mk():
        d = core.B.fresh_real("deg")
        core.B.fact(MU(d, PI()) == v * 180)
        core.B.cache[("r2d", d.get_id())] = (v, d)
        return d, v
    return cached(("rad2deg", v.get_id()), mk)[0]


def u_rad2deg(x):
    f = to_f(x)
    return mkfloat(F(s_rad2deg(f.v), f.nan, f.pinf, f.ninf))


reg("deg2rad", u_deg2rad, 1, dt_f, "radians")
reg("rad2deg", u_rad2deg, 1, dt_f, "degrees")


def k_floor(x):
    f = to_f(x)
    if not f.simple():
        raise Unsupported("floor of infinity")
    if f.const() and not f.nan:
        return mkfloat(F(Fraction(math.floor(f.v))))
    return mkfloat(F(z3.ToReal(z3.ToInt(vz(f.v))), f.nan))


reg("floor", k_floor, 1, dt_f)
reg("ceil", lambda x: mkfloat(vals.fneg(to_f(k_floor(mkfloat(vals.fneg(to_f(x))))))), 1, dt_f)


def k_rint(x):
    """nearest integer, ties to the even one"""
    f = to_f(x)
    if not f.simple():
        raise Unsupported("rounding of infinity")
    if f.const() and not f.nan:
        return mkfloat(F(Fraction(round(f.v))))
    v = vz(f.v)
    n = z3.ToInt(v + z3.RealVal("1/2"))
    tie = z3.And(z3.ToReal(n) == v + z3.RealVal("1/2"), n % 2 == 1)
    return mkfloat(F(z3.ToReal(z3.If(tie, n - 1, n)), f.nan))


def k_trunc(x):
    f = to_f(x)
    if not f.simple():
        raise Unsupported("truncation of infinity")
    v = vz(f.v)
    return mkfloat(F(z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))), f.nan))


reg("rint", k_rint, 1, dt_f)
reg("trunc", k_trunc, 1, dt_f, "fix")


def f_round(a, decimals=0, out=None):
    s = 10 ** abs(int(decimals))
    if isinstance(a, SymArray) and a.dtype.kind in "ib" or isinstance(a, SymInt):
        return a
    if decimals < 0:
        return U["multiply"](U["rint"](U["divide"](a, s)), s)
    return U["divide"](U["rint"](U["multiply"](a, s)), s)


for _n in ("exp", "log", "log10", "log2", "sinh", "cosh", "tanh", "exp2", "expm1", "log1p", "cbrt"):
    def _mk(n):
        def f(*a, **k):
            raise Unsupported(f"np.{n}")
        f.__name__ = n
        return f
    setattr(NP, _n, _mk(_n))


# --- operators on arrays -------------------------------------------------------
def _inplace(name):
    u = U[name]

    def f(self, o):
        if isinstance(self, MaskSel):
            return guard(u._call)(self, o)

        def g():
            r = u._call(self, o)
            if isinstance(r, SymArray) and r.dtype.kind == "f" and self.dtype.kind in "ib":
                raise_np(TypeError("Cannot cast ufunc output from float64 to int64"))
            if self.dtype.kind == "b" and r.dtype.kind == "i":
                raise_np(TypeError("Cannot cast ufunc output to bool"))
            if isinstance(r, SymArray):
                if len(r.shp) != len(self.shp):
                    raise_np(ValueError("non-broadcastable output operand"))
                for a, b in zip(r.shp, self.shp):
                    if not core.branch(ieq(a, b)):
                        raise_np(ValueError("non-broadcastable output operand"))
                rf = r.fnow()
                self.write(lambda i: True, lambda i: cast_elem(rf(i), self.dtype))
            else:
                arr.assign_view(self, r)
            return self
        return guard(g)()
    return f


def _mkops(cls):
    def binop(name, rev=False):
        u = U[name]

        def f(self, o):
            if o is None or isinstance(o, (str, dict)):
                if name == "equal":
                    return guard(lambda: SymArray(self.shp, lambda i: False, bool))()
                if name == "not_equal":
                    return guard(lambda: SymArray(self.shp, lambda i: True, bool))()
                return NotImplemented
            return u(o, self) if rev else u(self, o)
        return f
    for op, n in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"),
                  ("pow", "power"), ("mod", "mod"), ("floordiv", "floor_divide"),
                  ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")):
        setattr(cls, f"__{op}__", binop(n))
        setattr(cls, f"__r{op}__", binop(n, True))
        setattr(cls, f"__i{op}__", _inplace(n))
    for op, n in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"),
                  ("eq", "equal"), ("ne", "not_equal")):
        setattr(cls, f"__{op}__", binop(n))
    cls.__neg__ = lambda self: U["negative"](self)
    cls.__pos__ = lambda self: self.copy()
    cls.__abs__ = lambda self: U["absolute"](self)
    cls.__invert__ = lambda self: U["invert"](self)
    cls.__matmul__ = lambda self, o: guard(f_dot)(self, o)
    cls.__hash__ = None


_mkops(SymArray)
_mkops(MaskSel)
MaskSel.__hash__ = object.__hash__


# --- reductions -----------------------------------------------------------------
LIMIT = 9


def conc_indices(a):
    """all index tuples when the shape is concrete and small, else None"""
    n = 1
    for d in a.shp:
        if not isinstance(d, int):
            return None
        n *= d
    if n > LIMIT:
        return None
    import itertools
    return list(itertools.product(*[builtins.range(d) for d in a.shp]))


def any_b(a, pred):
    idx = conc_indices(a)
    if idx is not None:
        return bor(*[pred(a.at(i)) for i in idx])
    f = a.fnow()
    b = core.B.fresh_bool("any")
    w, g = fresh_index(a.shp, "w")
    core.B.record(w)
    core.B.fact(bor(bnot(b), band(g, pred(f(w)))))
    core.B.qfact(a.shp, lambda t: bor(b, bnot(pred(f(t)))), "any")
    return b


def all_b(a, pred):
    return bnot(any_b(a, lambda v: bnot(pred(v))))


def _axis_none(axis, a):
    if axis is None:
        return True
    if a.ndim_ == 1 and axis in (0, -1):
        return True
    return False


def f_any(a, axis=None, out=None, keepdims=False, where=True):
    a = as_arr(a)
    if isinstance(a, MaskSel):
        m = a.mask.fnow()
        full = SymArray(a.mask.shp, lambda i: mkbool(band(bz(m(i)), bz(tobool_elem(a.fn(i))))), bool)
        return mkbool(any_b(full, bz), rnp.bool_)
    if a.ndim_ == 0:
        return wrap(tobool_elem(a.at(())), rnp.dtype(bool))
    if not _axis_none(axis, a):
        return reduce_axis(a, axis, "any", keepdims)
    return mkbool(any_b(a, lambda v: bz(tobool_elem(v))), rnp.bool_)


def f_all(a, axis=None, out=None, keepdims=False, where=True):
    a = as_arr(a)
    if isinstance(a, MaskSel):
        m = a.mask.fnow()
        full = SymArray(a.mask.shp, lambda i: mkbool(bor(bnot(bz(m(i))), bz(tobool_elem(a.fn(i))))), bool)
        return mkbool(all_b(full, bz), rnp.bool_)
    if a.ndim_ == 0:
        return wrap(tobool_elem(a.at(())), rnp.dtype(bool))
    if not _axis_none(axis, a):
        return reduce_axis(a, axis, "all", keepdims)
    return mkbool(all_b(a, lambda v: bz(tobool_elem(v))), rnp.bool_)


def reduce_axis(a, axis, op, keepdims=False):
    if not isinstance(axis, int):
        raise Unsupported("axis")
    ax = axis if axis >= 0 else axis + a.ndim_
    n = a.shp[ax]
    if not isinstance(n, int) or n > LIMIT or n == 0:
        raise Unsupported(f"{op} over a symbolic axis")
    f = a.fnow()

    def g(idx):
        if keepdims:
            idx = idx[:ax] + idx[ax + 1:]
        items = [f(tuple(idx[:ax]) + (j,) + tuple(idx[ax:])) for j in builtins.range(n)]
        if op == "any":
            return mkbool(bor(*[bz(tobool_elem(x)) for x in items]))
        if op == "all":
            return mkbool(band(*[bz(tobool_elem(x)) for x in items]))
        if op == "sum":
            if a.dtype.kind == "b":
                items = [mkint(to_int(x)) for x in items]
            return functools.reduce(k_arith("add"), items)
        if op in ("min", "max"):
            return functools.reduce(k_minmax(op), items)
        if op in ("nanmin", "nanmax"):
            return functools.reduce(k_minmax(op[3:], True), items)
        raise Unsupported(op)
    shape = a.shp[:ax] + ((1,) if keepdims else ()) + a.shp[ax + 1:]
    dt = rnp.dtype(bool) if op in ("any", "all") else (rnp.dtype("int64") if a.dtype.kind == "b" else a.dtype)
    return SymArray(shape, g, dt)


def zsize(shp):
    r = 1
    for n in shp:
        r = imul(r, n)
    return r


def count_true(mask):
    idx = conc_indices(mask)
    if idx is not None:
        r = 0
        for i in idx:
            b = bz(mask.at(i))
            r = iadd(r, (1 if b else 0) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0)))
        return mkint(r, rnp.int64)
    f = mask.fnow()
    fid = id(mask.store.fn) if mask.vmap is None else None
    if fid is not None:
        c = core.B.cache.get(("count", fid))
        if c is not None:
            return mkint(c[0], rnp.int64)
    c = core.B.fresh_int("count")
    n = zsize(mask.shp)
    core.B.fact(z3.And(c >= 0, iz(c) <= iz(n)))
    # c == 0 <-> none; c == n <-> all
    ws = []
    for j in range(core.B.opts.get("count_witnesses", 1)):
        # c > j: there are (at least) j + 1 different ones
        w, g = fresh_index(mask.shp, "w")
        core.B.record(w)
        diff = [bnot(band(*[ieq(a, b) for a, b in zip(w, v)])) for v in ws]
        core.B.fact(z3.Implies(c > j, zb(band(g, bz(f(w)), *diff))))
        # c <= j: there are no others than the first j
        old = list(ws)
        core.B.qfact(mask.shp, lambda t, old=old, j=j: bor(bnot(bz(f(t))), c > j, *[band(*[ieq(a, b) for a, b in zip(t, v)]) for v in old]), f"count>{j}")
        ws.append(w)
    w2, g2 = fresh_index(mask.shp, "w")
    core.B.record(w2)
    core.B.fact(z3.Implies(c < iz(n), zb(band(g2, bnot(bz(f(w2)))))))
    core.B.qfact(mask.shp, lambda t: bor(bz(f(t)), c < iz(n)), "count<n")
    if fid is not None:
        core.B.cache[("count", fid)] = (c, mask.store.fn)
    return mkint(c, rnp.int64)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = as_arr(a)
    if isinstance(a, MaskSel):
        if a.dtype.kind == "b":
            m, fn = a.mask.fnow(), a.fn
            return count_true(SymArray(a.mask.shp, lambda i: mkbool(band(bz(m(i)), bz(fn(i)))), bool))
        raise Unsupported("sum of a selection")
    if not _axis_none(axis, a):
        return reduce_axis(a, axis, "sum", keepdims)
    if a.dtype.kind == "b":
        return count_true(a)
    idx = conc_indices(a)
    if idx is None:
        return sum_symbolic(a)
    r = 0 if a.dtype.kind == "i" else 0.0
    for i in idx:
        r = k_arith("add")(r, a.at(i))
    return wrap(r, a.dtype)


def sum_symbolic(a):
    """sum over a symbolic number of elements: an uninterpreted value with
    the facts that hold for constant arrays"""
    if a.ndim_ != 1:
        raise Unsupported("sum over a symbolic shape")
    f = a.fnow()
    i, g = fresh_index(a.shp, "si")
    v = f(i)
    if a.dtype.kind == "i":
        z = to_int(v)
        if isinstance(z, int) or not contains(z, i[0]):
            return mkint(imul(z, a.shp[0]), rnp.int64)
    raise Unsupported("sum over a symbolic shape")


def contains(term, sub):
    seen = set()
    st = [term]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(sub):
            return True
        st.extend(t.children())
    return False


def f_nansum(a, axis=None, **k):
    a = as_arr(a)
    f = a.fnow()
    return f_sum(SymArray(a.shp, lambda i: elem_ite(to_f(f(i)).nan, 0.0, f(i)), a.dtype), axis)


def f_prod(a, axis=None, dtype=None):
    a = as_arr(a)
    idx = conc_indices(a)
    if idx is None or not _axis_none(axis, a):
        raise Unsupported("prod over a symbolic shape")
    r = 1 if a.dtype.kind in "ib" else 1.0
    for i in idx:
        r = k_arith("mul")(r, a.at(i))
    return wrap(r, a.dtype if a.dtype.kind != "b" else rnp.dtype("int64"))


def extremum(a, op, nan, want_arg):
    """(value F, index tuple) of the (nan)min/(nan)max"""
    sgn = 1 if op == "min" else -1
    f = a.fnow()
    if a.dtype.kind == "O":
        raise Unsupported("extremum of an object array")
    n = zsize(a.shp)
    if core.branch(ieq(n, 0)):
        raise_np(ValueError("zero-size array to reduction operation which has no identity"))
    # the same contents once more
    known = core.B.__dict__.setdefault("extrema", {})
    key = (op, nan, id(f), arr.ikey(a.shp))
    if key in known:
        fw, w = known[key][:2]
        if nan and want_arg and not core.branch(bnot(fw.nan)):
            raise_np(ValueError("All-NaN slice encountered"))
        return fw, w
    fw, w = extremum_of(a, f, op, nan, want_arg)
    known[key] = (fw, w, f, a)
    return fw, w


def extremum_of(a, f, op, nan, want_arg):
    w, g = fresh_index(a.shp, "arg" + op)
    core.B.record(w)
    core.B.assume(g)
    fw = to_f(f(w))

    def better(x, y):           # x at least as good as y
        return vals.fle(x, y) if op == "min" else vals.fle(y, x)
    if nan:
        if want_arg and not core.branch(any_b(a, lambda v: bnot(to_f(v).nan))):
            raise_np(ValueError("All-NaN slice encountered"))
        # NaN exactly where all are NaN, otherwise as good as every number
        core.B.qfact(a.shp, lambda t: bor(to_f(f(t)).nan, band(bnot(fw.nan), better(fw, to_f(f(t))))), "nan" + op)
        first_occ(a, f, w, fw)
        return fw, w
    # NaN exactly where one is NaN, otherwise as good as every element
    core.B.qfact(a.shp, lambda t: bor(fw.nan, band(bnot(to_f(f(t)).nan), better(fw, to_f(f(t))))), op)
    first_occ(a, f, w, fw)
    return fw, w


def first_occ(a, f, w, fw):
    """argmin returns the first occurrence (row-major)"""
    def before(t, w):
        r = False
        for x, y in reversed(list(zip(t, w))):
            r = bor(ilt(x, y), band(ieq(x, y), r))
        return r
    core.B.qfact(a.shp, lambda t: bor(bnot(before(t, w)), bnot(vals.feq(to_f(f(t)), fw))), "first")


def unmask(a, op):
    return a


def mk_ext(op, nan):
    def f(a, axis=None, out=None, keepdims=False):
        a = as_arr(a)
        if isinstance(a, MaskSel):
            raise Unsupported("extremum of a selection")
        if not _axis_none(axis, a):
            return reduce_axis(a, axis, ("nan" if nan else "") + op, keepdims)
        if a.ndim_ == 0:
            return a.scalar()
        if not nan and a.dtype.kind == "i":
            idx = conc_indices(a)
            if idx:
                return wrap(functools.reduce(k_minmax(op), [a.at(i) for i in idx]), a.dtype)
        known = core.B.cache.get(("least", id(a.store), a.store.version)) if op == "min" and a.vmap is None else None
        v = known[0] if known else extremum(a, op, nan, False)[0]
        if a.dtype.kind == "i":
            return mkint(z3.ToInt(vz(v.v)), rnp.int64)
        return mkfloat(v, rnp.float64)
    return f


def mk_arg(op, nan):
    def f(a, axis=None, out=None):
        a = as_arr(a)
        if not _axis_none(axis, a) or isinstance(a, MaskSel):
            raise Unsupported("arg extremum over an axis")
        _, w = extremum(a, op, nan, True)
        if a.ndim_ == 1:
            r = w[0]
            return SymInt(r, rnp.int64, flat=(a.shp, w)) if is_z3(r) else r
        flat = 0
        for i, n in zip(w, a.shp):
            flat = iadd(imul(flat, n), i)
        if isinstance(flat, int):
            return flat
        return SymInt(flat, rnp.int64, flat=(a.shp, w))
    return f


def f_unravel_index(i, shape, order="C"):
    shp = [to_int(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    fl = getattr(i, "flat", None) if isinstance(i, SymInt) else None
    if fl is not None and len(fl[0]) == len(shp) and all(core.must(ieq(a, b)) for a, b in zip(fl[0], shp)):
        return tuple(mkint(x, rnp.int64) for x in fl[1])
    if is_arr(i):
        raise Unsupported("unravel_index of an array")
    if order != "C":
        raise Unsupported("unravel_index in another order")
    z = to_int(i)
    if core.branch(bor(ilt(z, 0), bnot(ilt(z, zsize(shp))))):
        raise_np(ValueError("index is out of bounds for array"))
    return tuple(mkint(x, rnp.int64) for x in split_index(z, shp))


def opaque_float(base):
    return mkfloat(F(core.B.fresh_real(base), core.B.fresh_bool(base + "nan")), rnp.float64)


def f_opaque(base):
    def f(*a, **k):
        core.B.abstract = True
        return opaque_float(base)
    return f


# --- construction -----------------------------------------------------------------
def mkshape(shape):
    if isinstance(shape, (list, tuple)):
        out = [to_int(_s0(n)) for n in shape]
    elif isinstance(shape, SymArray):
        out = [to_int(shape.at((i,))) for i in builtins.range(shape.shp[0])]
    else:
        if kind_of(shape) not in ("i",):
            raise_np(TypeError(f"'{type(shape).__name__}' object cannot be interpreted as an integer"))
        out = [to_int(shape)]
    for n in out:
        if not core.branch(ile(0, n)):
            raise_np(ValueError("negative dimensions are not allowed"))
    return tuple(out)


def const_array(shape, v, dt):
    return SymArray(shape, lambda idx: v, dt)


def zero_of(dt):
    return {"f": 0.0, "i": 0, "b": False, "O": 0}.get(dt.kind, 0)


def one_of(dt):
    return {"f": 1.0, "i": 1, "b": True, "O": 1}.get(dt.kind, 1)


def f_zeros(shape, dtype=None, order=None):
    dt = mkdtype(dtype)
    return const_array(mkshape(shape), zero_of(dt), dt)


def f_ones(shape, dtype=None, order=None):
    dt = mkdtype(dtype)
    return const_array(mkshape(shape), one_of(dt), dt)


def f_empty(shape, dtype=None, order=None):
    dt = mkdtype(dtype)
    shp = mkshape(shape)
    if dt.kind == "f":
        core.B.abstract = True
        u = z3.Function(core.B.name("empty"), *([z3.IntSort()] * len(shp)), z3.RealSort())
        return SymArray(shp, lambda idx: mkfloat(F(u(*[iz(i) for i in idx]))), dt)
    if dt.kind == "O":
        return const_array(shp, None, dt)
    return f_zeros(shape, dtype)


def f_full(shape, fill, dtype=None, order=None):
    shp = mkshape(shape)
    if isinstance(fill, SymArray) and fill.ndim_ > 0:
        raise Unsupported("full with an array")
    fill = _s0(fill)
    dt = mkdtype(dtype) if dtype is not None else dt_of(fill)
    v = cast_elem(fill, dt)
    return const_array(shp, v, dt)


def like(f):
    def g(a, *args, dtype=None, **k):
        a = as_arr(a)
        if isinstance(a, MaskSel):
            dt = mkdtype(dtype) if dtype is not None else a.dtype
            v = {"zeros": zero_of(dt), "ones": one_of(dt)}.get(f)
            if f == "full":
                v = cast_elem(args[0], dt)
            if v is None:
                raise Unsupported("empty_like")
            return MaskSel(a.mask, lambda i: v, dt)
        dt = mkdtype(dtype) if dtype is not None else a.dtype
        fn = {"zeros": f_zeros, "ones": f_ones, "empty": f_empty}.get(f)
        if f == "full":
            return f_full(tuple(mkint(n) for n in a.shp), args[0], dt)
        return fn(tuple(mkint(n) for n in a.shp), dt)
    return g


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep:
        raise Unsupported("linspace retstep")
    start, stop = _s0(start), _s0(stop)
    if is_arr(start) or is_arr(stop):
        raise Unsupported("linspace over arrays")
    n = to_int(num)
    if not core.branch(ile(0, n)):
        raise_np(ValueError("Number of samples must be non-negative."))
    a, b = to_f(start), to_f(stop)
    if not (a.simple() and b.simple()):
        if not core.must(band(a.fin, b.fin)):
            raise Unsupported("linspace with infinite ends")
    nan = bor(a.nan, b.nan)
    div = isub(n, 1) if endpoint else n
    if isinstance(div, int) and div <= 0:
        return SymArray((n,), lambda idx: mkfloat(F(a.v, nan)), "float64")
    d = vals.vadd(b.v, vals.vneg(a.v))
    if isinstance(div, int):
        step = vals.vdiv(d, Fraction(div))
    else:
        d = z3.simplify(vz(d))

        def mk():
            s = core.B.fresh_real("step")
            # a single value (div <= 0) has no step
            core.B.fact(z3.Implies(div > 0, s * z3.ToReal(iz(div)) == d))
            core.B.fact(z3.Implies(div > 0, z3.And(z3.Implies(d > 0, s > 0), z3.Implies(d < 0, s < 0), z3.Implies(d == 0, s == 0))))
            return s, d, div
        step = cached(("step", d.get_id(), div.get_id()), mk)[0]

    def f(idx):
        i = idx[0]
        if isinstance(i, int) and i == 0:
            return mkfloat(F(a.v, nan))
        if endpoint and ieq(i, div) is True:
            return mkfloat(F(vals.vite(core.ilt(0, div), b.v, a.v), nan))
        iv = Fraction(i) if isinstance(i, int) else z3.ToReal(i)
        t = vals.vmul(iv, step)
        if endpoint and is_z3(i) and not isinstance(div, int):
            # monotone instantiation helps the solver: i<=div
            dd = z3.If(d >= 0, z3.And(z3.Implies(z3.And(i >= 0, i <= div), z3.And(vz(t) >= 0, vz(t) <= d)),
                                      z3.Implies(i == div, vz(t) == d)),
                       z3.And(z3.Implies(z3.And(i >= 0, i <= div), z3.And(vz(t) <= 0, vz(t) >= d)),
                              z3.Implies(i == div, vz(t) == d)))
            core.B.fact(z3.Implies(div > 0, dd))
            core.B.fact(z3.Implies(i == 0, vz(t) == 0))
        return mkfloat(F(vals.vadd(a.v, t), nan))
    return SymArray((n,), f, "float64")


def f_arange(*a, dtype=None, **k):
    a = [_s0(x) for x in a]
    if any(kind_of(x) not in ("i",) for x in a):
        raise Unsupported("arange over floats")
    st, sp, step = 0, None, 1
    if len(a) == 1:
        sp = to_int(a[0])
    elif len(a) == 2:
        st, sp = to_int(a[0]), to_int(a[1])
    else:
        st, sp, step = [to_int(x) for x in a]
        if not isinstance(step, int) or step <= 0:
            raise Unsupported("arange step")
    n = isub(sp, st)
    if step != 1:
        n = isimp((iz(n) + step - 1) / step)
    if not core.branch(ile(0, n)):
        n = 0
    r = SymArray((n,), lambda idx: mkint(iadd(st, imul(step, idx[0]))), "int64")
    return r if dtype is None else m_astype(r, dtype)


def m_astype(a, t, copy=True, **k):
    dt = mkdtype(t)
    if isinstance(a, MaskSel):
        return a.astype(t)
    f = a.fnow()
    if dt.kind == "U" or a.dtype.kind == "U":
        raise Unsupported("string dtype cast")
    if copy is False and dt == a.dtype:
        return a
    return SymArray(a.shp, lambda idx: cast_elem(f(idx), dt), dt)


def f_copy(a, *x, **k):
    a = as_arr(a)
    return a.copy() if isinstance(a, MaskSel) else a.snapshot()


def norm_axis(axis, nd):
    axis = int(axis) if not isinstance(axis, SymNum) else vals.concretize(axis)
    if axis < -nd or axis >= nd:
        raise_np(ValueError(f"axis {axis} is out of bounds for array of dimension {nd}"))
    return axis % nd if nd else 0


def f_flip(a, axis=None):
    a = as_arr(a)
    axes = builtins.range(a.ndim_) if axis is None else (
        [norm_axis(x, a.ndim_) for x in axis] if isinstance(axis, (tuple, list)) else [norm_axis(axis, a.ndim_)])
    key = tuple(slice(None, None, -1) if d in axes else slice(None) for d in builtins.range(a.ndim_))
    return arr._getitem(a, key)


def f_concatenate(arrays, axis=0, out=None, dtype=None):
    if isinstance(arrays, SymArray):
        arrays = list(arrays)
    arrays = [as_arr(x) for x in arrays]
    if not arrays:
        raise_np(ValueError("need at least one array to concatenate"))
    if any(isinstance(a, MaskSel) for a in arrays):
        raise Unsupported("concatenate of a selection")
    if axis is None:
        arrays = [m_ravel(a) for a in arrays]
        axis = 0
    nd = arrays[0].ndim_
    if nd == 0:
        raise_np(ValueError("zero-dimensional arrays cannot be concatenated"))
    ax = norm_axis(axis, nd)
    for a in arrays[1:]:
        if a.ndim_ != nd:
            raise_np(ValueError("all the input array dimensions must match exactly"))
        for d in builtins.range(nd):
            if d != ax and not core.branch(ieq(a.shp[d], arrays[0].shp[d])):
                raise_np(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    dt = arrays[0].dtype
    for a in arrays[1:]:
        dt = rnp.dtype(object) if "O" in (dt.kind, a.dtype.kind) else rnp.result_type(dt, a.dtype)
    fs = [a.fnow() for a in arrays]
    offs = [0]
    for a in arrays:
        offs.append(iadd(offs[-1], a.shp[ax]))
    tot = offs[-1]

    def f(idx):
        i = idx[ax]

        def at(k):
            return cast_elem(fs[k](tuple(idx[:ax]) + (isub(i, offs[k]),) + tuple(idx[ax + 1:])), dt)
        return seg(0, at, i)

    def seg(k, at, i):
        if k == len(fs) - 1:
            return at(k)
        n = arrays[k].shp[ax]
        if isinstance(n, int) and n == 0:
            return seg(k + 1, at, i)
        c = ilt(i, offs[k + 1])
        if is_z3(c):
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if c is True:
            return at(k)
        if c is False:
            return seg(k + 1, at, i)
        last_empty = all(isinstance(a.shp[ax], int) and a.shp[ax] == 0 for a in arrays[k + 1:])
        if last_empty:
            return at(k)
        if dt.kind == "O":
            return at(k) if core.branch(c) else seg(k + 1, at, i)
        return elem_ite(c, at(k), seg(k + 1, at, i))
    shape = arrays[0].shp[:ax] + (tot,) + arrays[0].shp[ax + 1:]
    return SymArray(shape, f, dt)


def reshaped_view(a, shape, to, back, exact):
    """a in another shape; to: new index -> index of a, back: the reverse.
    Where numpy may copy (exact is False and a is itself a view) the result
    can only be used as long as it is the same as a copy."""
    ovm, oinv, store = a.vmap, a.inv, a.store
    version = store.version if ovm is not None and not exact else None

    def vm(idx):
        if version is not None and store.version != version:
            raise Unsupported("a reshaped view, or copy, of a changed array")
        b = to(idx)
        return ovm(b) if ovm else b

    def inv(bidx):
        if version is not None:
            raise Unsupported("write to a reshaped view, or copy")
        c = True
        if ovm:
            if oinv is None:
                raise Unsupported("write through this view")
            c, bidx = oinv(bidx)
            if c is False:
                return False, None
        return c, back(bidx)
    return SymArray(tuple(shape), None, a.dtype, store=store, vmap=vm, inv=inv)


def split_index(z, shape):
    out = []
    for n in reversed(shape):
        if isinstance(z, int) and isinstance(n, int):
            out.append(z % n)
            z = z // n
        else:
            out.append(isimp(iz(z) % iz(n)))
            z = isimp(iz(z) / iz(n))
    return tuple(reversed(out))


def join_index(idx, shape):
    z = 0
    for i, n in zip(idx, shape):
        z = iadd(imul(z, n), i)
    return z


def m_ravel(a, order="C"):
    if isinstance(a, MaskSel):
        return a
    nd = a.ndim_
    if order not in ("C", "K", "A") or order in ("K", "A") and a.vmap is not None:
        raise Unsupported("ravel in another order")
    if nd == 1:
        return a
    if nd == 0:
        return reshaped_view(a, (1,), lambda idx: (), lambda b: (0,), True)
    big = [d for d, n in enumerate(a.shp) if not (isinstance(n, int) and n == 1)]
    if len(big) <= 1:
        d0 = big[0] if big else 0
        return reshaped_view(a, (a.shp[d0],), lambda idx: tuple(idx[0] if d == d0 else 0 for d in builtins.range(nd)),
                             lambda b: (b[d0],), True)
    return reshaped_view(a, (zsize(a.shp),), lambda idx: split_index(idx[0], a.shp), lambda b: (join_index(b, a.shp),), False)


def m_flatten(a, order="C"):
    r = m_ravel(a)
    return r.snapshot() if isinstance(r, SymArray) else r


def m_reshape(a, *shape, order="C"):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    shape = [to_int(n) for n in shape]
    # drop / insert unit axes only
    src = [(d, n) for d, n in enumerate(a.shp) if not (isinstance(n, int) and n == 1)]
    if -1 in shape:
        known = [n for n in shape if not (isinstance(n, int) and n == -1)]
        t = zsize(known)
        tot = zsize(a.shp)
        if isinstance(t, int) and t == 1:
            v = tot
        elif isinstance(t, int) and isinstance(tot, int) and tot % t == 0:
            v = tot // t
        else:
            rest = list(src)
            for k in known:
                if isinstance(k, int) and k == 1:
                    continue
                for r in rest:
                    if core.must(ieq(r[1], k)):
                        rest.remove(r)
                        break
                else:
                    raise Unsupported("reshape")
            v = zsize([r[1] for r in rest])
        shape = [v if (isinstance(n, int) and n == -1) else n for n in shape]
    dst = [(d, n) for d, n in enumerate(shape) if not (isinstance(n, int) and n == 1)]
    if order != "C":
        raise Unsupported("reshape in another order")
    if len(src) == len(dst) and all(core.must(ieq(p[1], q[1])) for p, q in zip(src, dst)):
        nd = a.ndim_

        def to(idx):
            b = [0] * nd
            for (d, _), (e, _) in zip(src, dst):
                b[d] = idx[e]
            return tuple(b)

        def back(b):
            out = [0] * len(shape)
            for (d, _), (e, _) in zip(src, dst):
                out[e] = b[d]
            return tuple(out)
        return reshaped_view(a, shape, to, back, True)
    if all(isinstance(n, int) for n in a.shp) and all(isinstance(n, int) for n in shape):
        if zsize(a.shp) != zsize(shape):
            raise_np(ValueError("cannot reshape array"))
        return reshaped_view(a, shape, lambda idx: split_index(join_index(idx, shape), a.shp),
                             lambda b: split_index(join_index(b, a.shp), shape), False)
    if len(shape) == 1:
        if core.must(ieq(shape[0], zsize(a.shp))):
            return m_ravel(a)
    if core.must(ieq(zsize(shape), zsize(a.shp))):
        if a.ndim_ == 1:
            return reshaped_view(a, shape, lambda idx: (join_index(idx, shape),), lambda b: split_index(b[0], shape), False)
        return reshaped_view(a, shape, lambda idx: split_index(join_index(idx, shape), a.shp),
                             lambda b: split_index(join_index(b, a.shp), shape), False)
    raise Unsupported("reshape")


def m_transpose(a, *axes):
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
        axes = axes[0]
    nd = a.ndim_
    axes = list(axes) if axes else list(reversed(builtins.range(nd)))
    axes = [x % nd for x in axes]
    shp = tuple(a.shp[x] for x in axes)
    ovm, oinv = a.vmap, a.inv

    def vm(idx):
        b = [None] * nd
        for i, x in zip(idx, axes):
            b[x] = i
        return ovm(tuple(b)) if ovm else tuple(b)

    def inv(bidx):
        c = True
        if ovm:
            c, bidx = oinv(bidx)
            if c is False:
                return False, None
        return c, tuple(bidx[x] for x in axes)
    return SymArray(shp, None, a.dtype, store=a.store, vmap=vm, inv=inv)


def f_append(a, v, axis=None):
    a, v = as_arr(a), as_arr(v)
    if axis is None:
        return f_concatenate([m_ravel(a), m_ravel(v)], 0)
    return f_concatenate([a, v], axis)


def f_insert(a, i, v, axis=None):
    a = as_arr(a)
    if a.ndim_ != 1:
        raise Unsupported("insert into a multi-dimensional array")
    n = a.shp[0]
    if is_arr(i) or isinstance(i, (list, tuple, slice)):
        raise Unsupported("insert at several indices")
    v = as_arr(v)
    if v.ndim_ > 1 or (v.ndim_ == 1 and not core.branch(ieq(v.shp[0], 1))):
        raise Unsupported("insert several values")
    z = to_int(i)
    if not core.branch(band(ile(isub(0, n), z), ile(z, n))):
        raise_np(IndexError(f"index is out of bounds for axis 0"))
    if not core.branch(ile(0, z)):
        z = iadd(z, n)
    dt = a.dtype
    v0 = cast_elem(v.at(() if v.ndim_ == 0 else (0,)), dt)
    f = a.fnow()

    def g(idx):
        j = idx[0]
        for c, val in ((ieq(j, z), lambda: v0), (ilt(j, z), lambda: f((j,)))):
            c = simp_b(c)
            if c is True:
                return val()
            if c is False:
                continue
            if dt.kind == "O":
                if core.branch(c):
                    return val()
                continue
            return elem_ite(ieq(j, z), v0, elem_ite(ilt(j, z), f((j,)), f((isub(j, 1),))))
        return f((isub(j, 1),))
    return SymArray((iadd(n, 1),), g, dt)


def simp_b(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def f_delete(a, i, axis=None):
    if isinstance(a, (list, tuple)) or hasattr(a, "_vlist_array"):
        a = f_array(a)
    a = as_arr(a)
    if axis is None:
        a = m_ravel(a)
        ax = 0
    else:
        ax = norm_axis(axis, a.ndim_)
    n = a.shp[ax]
    if isinstance(i, (list, tuple)):
        i = f_array(i, dtype=int) if len(i) else f_array([], dtype=int)
    if isinstance(i, slice):
        st, step, cnt = arr.slice_range(i, n)
        if step != 1:
            raise Unsupported("delete with a stepped slice")
        k1 = tuple([slice(None)] * ax + [slice(None, mkint(st))])
        k2 = tuple([slice(None)] * ax + [slice(mkint(iadd(st, cnt)), None)])
        return f_concatenate([arr._getitem(a, k1), arr._getitem(a, k2)], ax)
    if isinstance(i, SymArray) and i.ndim_ > 0:
        if i.dtype.kind == "b":
            if isinstance(n, int):
                keep = [j for j in builtins.range(n) if not bool(i.at((j,)))]
                f = a.fnow()
                return SymArray(a.shp[:ax] + (len(keep),) + a.shp[ax + 1:],
                                lambda idx: f(tuple(idx[:ax]) + (pick(keep, idx[ax]),) + tuple(idx[ax + 1:])), a.dtype)
            raise Unsupported("delete with a mask")
        m = i.shp[0]
        if not isinstance(m, int) or not isinstance(n, int):
            m = len(i)
        idxs = set()
        for j in builtins.range(m):
            idxs.add(vals.concretize(mkint(arr.norm_index(i.at((j,)), n))) if not isinstance(arr.norm_index(i.at((j,)), n), int) else arr.norm_index(i.at((j,)), n))
        if not isinstance(n, int):
            raise Unsupported("delete several elements")
        keep = [j for j in builtins.range(n) if j not in idxs]
        f = a.fnow()
        return SymArray(a.shp[:ax] + (len(keep),) + a.shp[ax + 1:],
                        lambda idx: f(tuple(idx[:ax]) + (pick(keep, idx[ax]),) + tuple(idx[ax + 1:])), a.dtype)
    i = _s0(i)
    if kind_of(i) != "i":
        raise_np(IndexError("arrays used as indices must be of integer (or boolean) type"))
    z = arr.norm_index(i, n, ax)
    f = a.fnow()

    def g(idx):
        j = idx[ax]
        c = simp_b(ilt(j, z))
        lo = lambda: f(idx)
        hi = lambda: f(tuple(idx[:ax]) + (iadd(j, 1),) + tuple(idx[ax + 1:]))
        if c is True:
            return lo()
        if c is False:
            return hi()
        if a.dtype.kind == "O":
            return lo() if core.branch(c) else hi()
        return elem_ite(c, lo(), hi())
    return SymArray(a.shp[:ax] + (isub(n, 1),) + a.shp[ax + 1:], g, a.dtype)


def f_vstack(arrays):
    arrays = [as_arr(x) for x in arrays]
    arrays = [a[None, :] if a.ndim_ == 1 else a for a in arrays]
    return f_concatenate(arrays, 0)


def f_hstack(arrays):
    arrays = [as_arr(x) for x in arrays]
    arrays = [m_ravel(a) if a.ndim_ == 0 else a for a in arrays]
    return f_concatenate(arrays, 0 if arrays[0].ndim_ == 1 else 1)


def f_stack(arrays, axis=0):
    arrays = [as_arr(x) for x in arrays]
    nd = arrays[0].ndim_
    ax = axis if axis >= 0 else axis + nd + 1
    key = tuple([slice(None)] * ax + [None])
    return f_concatenate([a[key] if nd else m_ravel(a) for a in arrays], ax)


def f_column_stack(arrays):
    arrays = [as_arr(x) for x in arrays]
    return f_concatenate([a[:, None] if a.ndim_ == 1 else a for a in arrays], 1)


def f_dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim_ == 0 or b.ndim_ == 0:
        return U["multiply"](a, b)
    n = a.shp[-1]
    m = b.shp[0] if b.ndim_ == 1 else b.shp[-2]
    if not core.branch(ieq(n, m)):
        raise_np(ValueError("shapes not aligned"))
    k = n if isinstance(n, int) else m
    if not isinstance(k, int) or k > 8:
        raise Unsupported("dot over a symbolic axis")
    fa, fb = a.fnow(), b.fnow()
    add, mul = k_arith("add"), k_arith("mul")
    if b.ndim_ > 2 or a.ndim_ > 2:
        raise Unsupported("dot of a high-dimensional array")

    def g(idx):
        ia = tuple(idx[:a.ndim_ - 1])
        ib = tuple(idx[a.ndim_ - 1:])
        terms = [mul(fa(ia + (j,)), fb((j,) + ib)) for j in builtins.range(k)]
        return functools.reduce(add, terms)
    shape = a.shp[:-1] + (b.shp[1:] if b.ndim_ == 2 else ())
    r = SymArray(shape, g, rnp.result_type(a.dtype, b.dtype))
    return r.scalar() if not shape else r


def f_repeat(a, reps, axis=None):
    a = as_arr(a)
    if axis is None:
        a = m_ravel(a)
        ax = 0
    else:
        ax = norm_axis(axis, a.ndim_)
    reps = _s0(reps)
    if is_arr(reps):
        raise Unsupported("repeat with an array of counts")
    r = to_int(reps)
    n = a.shp[ax]
    f = a.fnow()

    def g(idx):
        i = idx[ax]
        if isinstance(n, int) and n == 1:
            j = 0
        elif isinstance(r, int) and r == 1:
            j = i
        else:
            j = isimp(iz(i) / iz(r)) if not (isinstance(i, int) and isinstance(r, int)) else i // r
        return f(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))
    return SymArray(a.shp[:ax] + (imul(n, r),) + a.shp[ax + 1:], g, a.dtype)


def f_tile(a, reps):
    a = as_arr(a)
    reps = [to_int(_s0(r)) for r in (reps if isinstance(reps, (tuple, list)) else (reps,))]
    nd = builtins.max(a.ndim_, len(reps))
    shp = (1,) * (nd - a.ndim_) + a.shp
    reps = [1] * (nd - len(reps)) + reps
    f = a.fnow()
    off = nd - a.ndim_

    def g(idx):
        out = []
        for d in builtins.range(off, nd):
            n = shp[d]
            if isinstance(n, int) and n == 1:
                out.append(0)
            elif isinstance(reps[d], int) and reps[d] == 1:
                out.append(idx[d])
            else:
                out.append(isimp(iz(idx[d]) % iz(n)))
        return f(tuple(out))
    return SymArray(tuple(imul(n, r) for n, r in zip(shp, reps)), g, a.dtype)


def f_broadcast_to(a, shape):
    a = as_arr(a)
    shp = mkshape(shape)
    _, (m,) = broadcast_to_shape([a], shp)
    f = a.fnow()
    return SymArray(shp, lambda idx: f(m(idx)), a.dtype)


def f_broadcast_arrays(*arrays):
    arrays = [as_arr(a) for a in arrays]
    shp, maps = broadcast(arrays)
    return [SymArray(shp, (lambda f, m: lambda idx: f(m(idx)))(a.fnow(), m), a.dtype) for a, m in zip(arrays, maps)]


def f_meshgrid(*xs, indexing="xy", sparse=False):
    xs = [m_ravel(as_arr(x)) for x in xs]
    n = len(xs)
    order = list(builtins.range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shp = tuple(xs[o].shp[0] for o in order)
    out = []
    for k, x in enumerate(xs):
        pos = order.index(k)
        f = x.fnow()
        out.append(SymArray(shp, (lambda f, p: lambda idx: f((idx[p],)))(f, pos), x.dtype))
    return out


class MGrid:
    def __getitem__(self, key):
        return guard(self._get)(key)

    def _get(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        ns, st = [], []
        for k in keys:
            if k.step is not None:
                raise Unsupported("mgrid step")
            a = 0 if k.start is None else to_int(k.start)
            n = isub(to_int(k.stop), a)
            if not core.branch(ile(0, n)):
                n = 0
            ns.append(n)
            st.append(a)
        if len(keys) == 1 and not isinstance(key, tuple):
            return SymArray((ns[0],), lambda idx: mkint(iadd(st[0], idx[0])), "int64")
        out = [SymArray(tuple(ns), (lambda d: lambda idx: mkint(iadd(st[d], idx[d])))(d), "int64")
               for d in builtins.range(len(keys))]
        return f_array(out)


def f_indices(dims, dtype=int):
    return [SymArray(mkshape(dims), (lambda d: lambda idx: mkint(idx[d]))(d), "int64") for d in builtins.range(len(dims))]


def f_where(c, *xy):
    if not xy:
        raise Unsupported("np.where with one argument")
    x, y = xy
    c = as_arr(c)
    dt = res_dt(x, y)
    if isinstance(c, MaskSel):
        raise Unsupported("where over a selection")
    ax, ay = as_arr(x), as_arr(y)
    if all(a.ndim_ == 0 for a in (c, ax, ay)):
        return SymArray((), lambda idx: elem_ite(bz(tobool_elem(c.at(()))), cast_elem(ax.at(()), dt), cast_elem(ay.at(()), dt)), dt)
    shp, (mc, mx, my) = broadcast([c, ax, ay])
    fc, fx, fy = c.fnow(), ax.fnow(), ay.fnow()

    def g(idx):
        return elem_ite(bz(tobool_elem(fc(mc(idx)))), cast_elem(fx(mx(idx)), dt), cast_elem(fy(my(idx)), dt))
    return SymArray(shp, g, dt)


def f_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = U["maximum"]._call(r, lo)
    if hi is not None:
        r = U["minimum"]._call(r, hi)
    return r


def f_take(a, i, axis=None, out=None, mode=None):
    a = as_arr(a)
    if axis is None:
        a = m_ravel(a)
        ax = 0
    else:
        ax = norm_axis(axis, a.ndim_)
    if isinstance(i, (list, tuple)):
        i = f_array(i)
    r = arr._getitem(a, tuple([slice(None)] * ax + [i]))
    return f_copy(r) if isinstance(r, SymArray) else r


def f_take_along(*a, **k):
    raise Unsupported("take_along_axis")


def f_array_equal(a, b, equal_nan=False):
    a, b = as_arr(a), as_arr(b)
    if a.ndim_ != b.ndim_:
        return False
    for x, y in zip(a.shp, b.shp):
        if not core.branch(ieq(x, y)):
            return False
    fa, fb = a.fnow(), b.fnow()
    if equal_nan:
        e = SymArray(a.shp, lambda i: mkbool(vals.fsame(to_f(fa(i)), to_f(fb(i)))), bool)
    else:
        e = SymArray(a.shp, lambda i: k_cmp("eq")(fa(i), fb(i)), bool)
    return mkbool(bz(f_all(e)))


def k_isclose(a, b, rtol, atol, equal_nan):
    fa, fb = to_f(a), to_f(b)
    if not (fa.simple() and fb.simple()):
        raise Unsupported("isclose of infinities")
    d = vals.fabs(vals.fsub(fa, fb)).v
    bnd = vals.vadd(Fraction(atol), vals.vmul(Fraction(rtol), vals.fabs(fb).v))
    ok = band(bnot(fa.nan), bnot(fb.nan), vals.vle(d, bnd))
    if equal_nan:
        ok = bor(ok, band(fa.nan, fb.nan))
    return mkbool(ok)


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ew(lambda x, y: k_isclose(x, y, rtol, atol, equal_nan), [a, b], rnp.dtype(bool))


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = f_isclose(a, b, rtol, atol, equal_nan)
    return mkbool(bz(f_all(r))) if is_arr(r) else r


def conc_len(a):
    n = a.shp[0]
    if not isinstance(n, int):
        n = isimp(n)
        if not isinstance(n, int):
            n = vals.concretize(mkint(n))
    return n


def f_sort(a, axis=-1, kind=None):
    a = as_arr(a)
    if a.ndim_ != 1:
        raise Unsupported("sort of a multi-dimensional array")
    items = [wrap(a.at((i,)), a.dtype) for i in builtins.range(conc_len(a))]
    items = py_sorted(items)
    return f_array(items, dtype=a.dtype) if items else SymArray((0,), lambda i: 0, a.dtype)


def py_sorted(items, lt=None):
    """insertion sort that forks on comparisons (stable)"""
    out = []
    for x in items:
        j = len(out)
        while j > 0 and bool(x < out[j - 1] if lt is None else lt(x, out[j - 1])):
            j -= 1
        out.insert(j, x)
    return out


def f_argsort(a, axis=-1, kind=None):
    a = as_arr(a)
    if a.ndim_ != 1:
        raise Unsupported("argsort of a multi-dimensional array")
    items = [(wrap(a.at((i,)), a.dtype), i) for i in builtins.range(conc_len(a))]
    return f_array([i for _, i in py_sorted(items, lambda p, q: p[0] < q[0])], dtype=int)


def f_unique(a, **k):
    if k:
        raise Unsupported("unique options")
    a = as_arr(a)
    items = [wrap(a.at((i,)), a.dtype) for i in builtins.range(conc_len(a))]
    items = py_sorted(items)
    out = []
    for x in items:
        if not out or not bool(x == out[-1]):
            out.append(x)
    return f_array(out, dtype=a.dtype) if out else SymArray((0,), lambda i: 0, a.dtype)


def f_cumsum(a, axis=None, dtype=None):
    a = m_ravel(as_arr(a))
    n = conc_len(a)
    out, s = [], (0 if a.dtype.kind in "ib" else 0.0)
    for i in builtins.range(n):
        s = k_arith("add")(s, a.at((i,)) if a.dtype.kind != "b" else mkint(to_int(a.at((i,)))))
        out.append(s)
    return f_array(out, dtype=None if a.dtype.kind != "b" else int) if out else a


def f_diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported("diff order")
    ax = norm_axis(axis, a.ndim_)
    k1 = tuple([slice(None)] * ax + [slice(1, None)])
    k0 = tuple([slice(None)] * ax + [slice(None, -1)])
    return U["subtract"]._call(arr._getitem(a, k1), arr._getitem(a, k0))


def f_interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear interpolation, as numpy computes it: the value is
    that of the segment found by a binary search; the search finds a segment
    around x in a part of xp without NaN (no more is known of it)"""
    x, xp, fp = as_arr(x), as_arr(xp), as_arr(fp)
    if left is not None or right is not None or period is not None or xp.ndim_ != 1 or fp.ndim_ != 1:
        raise Unsupported("interp with these arguments")
    if not core.branch(ieq(xp.shp[0], fp.shp[0])):
        raise_np(ValueError("fp and xp are not of the same length."))
    n = xp.shp[0]
    if core.branch(ieq(n, 0)):
        raise_np(ValueError("array of sample points is empty"))
    fx, fxp, ffp = x.fnow(), xp.fnow(), fp.fnow()
    nd = len(x.shp)
    seg = z3.Function(core.B.name("segment"), *[z3.IntSort()] * (nd + 1)) if nd else z3.Int(core.B.name("segment"))

    frac = z3.Function(core.B.name("between"), *[z3.IntSort()] * nd, z3.RealSort()) if nd else z3.Real(core.B.name("between"))
    odd = core.B.name("interp_inf")
    at = lambda g, idx: g(*[iz(i) for i in idx]) if nd else g
    last_ = isub(n, 1)

    def val(idx):
        ctx = core.B
        v, j, t = to_f(fx(idx)), at(seg, idx), at(frac, idx)
        lo = iite(band(ile(0, j), ilt(j, n)), j, 0)
        hi = iite(band(ile(-1, j), ilt(j, last_)), iadd(j, 1), 0)
        for i in (0, lo, hi, last_):
            ctx.record((i,))
        p0, p1, first, last = to_f(fxp((lo,))), to_f(fxp((hi,))), to_f(fxp((0,))), to_f(fxp((last_,)))
        near, far, begin, end = to_f(ffp((lo,))), to_f(ffp((hi,))), to_f(ffp((0,))), to_f(ffp((last_,)))
        inner = band(ile(0, j), ilt(j, last_))
        inf = bor(*[g.isinf for g in (v, p0, p1, near, far)])
        known = band(inner, bnot(bor(v.nan, p0.nan, p1.nan, inf)))
        key = ("interp", odd, tuple(i if isinstance(i, int) else i.get_id() for i in idx))
        if key not in ctx.cache:
            ctx.cache[key] = (v, j)
            above, below = flt(last, v), flt(v, first)
            rise = vals.vadd(far.v, vals.vneg(near.v))
            span = vals.vadd(p1.v, vals.vneg(p0.v))
            ctx.fact(core.zb(band(ile(-1, j), ile(j, n), bor(v.nan, band(
                bor(bnot(above), ieq(j, n)), bor(bnot(ieq(j, n)), above),
                bor(above, bnot(below), ieq(j, -1)), bor(bnot(ieq(j, -1)), below, first.nan),
                bor(ilt(j, 0), ile(n, j), p0.nan, fle(p0, v)),
                bor(ilt(j, 0), ile(last_, j), p1.nan, flt(v, p1)),
                bor(bnot(known), band(vals.veq(vals.vmul(vals.vadd(t, vals.vneg(near.v)), span), vals.vmul(rise, vals.vadd(v.v, vals.vneg(p0.v)))),
                                      bor(band(vals.vle(near.v, t), vals.vle(t, far.v)), band(vals.vle(far.v, t), vals.vle(t, near.v))))))))))
        line = mkfloat(F(t, bor(near.nan, far.nan)))
        strange = z3.Function(odd, *[z3.IntSort()] * nd, z3.RealSort()) if nd else z3.Real(odd)
        any_ = mkfloat(F(at(strange, idx), at(z3.Function(odd + "_nan", *[z3.IntSort()] * nd, z3.BoolSort()) if nd else z3.Bool(odd + "_nan"), idx)))
        inside = elem_ite(inf, any_, elem_ite(feq(p0, v), mkfloat(near), elem_ite(known, line, elem_ite(feq(near, far), mkfloat(near), mkfloat(F(0, True))))))
        out = elem_ite(ieq(j, -1), mkfloat(begin), elem_ite(ieq(j, n), mkfloat(end), elem_ite(ieq(j, last_), mkfloat(near), inside)))
        return elem_ite(ieq(n, 1), mkfloat(begin), elem_ite(v.nan, mkfloat(F(0, True)), out))
    return SymArray(x.shp, val, "float64")


def f_count_nonzero(a, axis=None):
    a = as_arr(a)
    f = a.fnow()
    return count_true(SymArray(a.shp, lambda i: tobool_elem(f(i)), bool))


def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    return ew(lambda x: elem_ite(to_f(x).nan, nan, x), [a], rnp.dtype("float64"))


def f_expand_dims(a, axis):
    a = as_arr(a)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = a.ndim_ + len(axes)
    axes = sorted(x % nd for x in axes)
    key, it = [], 0
    for d in builtins.range(nd):
        key.append(None if d in axes else slice(None))
    return arr._getitem(a, tuple(key))


def m_squeeze(a, axis=None):
    if axis is None:
        key = tuple(0 if isinstance(n, int) and n == 1 else slice(None) for n in a.shp)
        if any(not isinstance(n, int) for n in a.shp):
            for n in a.shp:
                if not isinstance(n, int) and not core.must(bnot(ieq(n, 1))):
                    raise Unsupported("squeeze of a symbolic axis")
    else:
        ax = [x % a.ndim_ for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        key = tuple(0 if d in ax else slice(None) for d in builtins.range(a.ndim_))
    return arr._getitem(a, key)


def f_mean(a, axis=None, **k):
    a = as_arr(a)
    idx = conc_indices(a)
    if idx is None or axis is not None:
        core.B.abstract = True
        return opaque_float("mean")
    return k_arith("div")(f_sum(a), len(idx))


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def f_atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            a = as_arr(x)
            while a.ndim_ < n:
                a = a[None] if a.ndim_ else m_ravel(a)
            out.append(a)
        return out[0] if len(out) == 1 else out
    return f


def f_issubdtype(a, b):
    return rnp.issubdtype(real_type(a), real_type(b))


def f_isscalar(x):
    return isnum(x) or isinstance(x, str)


def f_shape(a):
    return as_arr(a).shape


def f_roll(a, k, axis=None):
    a = as_arr(a)
    if a.ndim_ != 1 and axis is None:
        raise Unsupported("roll")
    ax = norm_axis(0 if axis is None else axis, a.ndim_)
    n = a.shp[ax]
    f = a.fnow()
    kz = to_int(k)
    return SymArray(a.shp, lambda idx: f(tuple(idx[:ax]) + (isimp((iz(idx[ax]) - iz(kz)) % iz(n)),) + tuple(idx[ax + 1:])), a.dtype)


def f_moveaxis(a, s, d):
    a = as_arr(a)
    nd = a.ndim_
    order = [x for x in builtins.range(nd) if x != s % nd]
    order.insert(d % nd, s % nd)
    return m_transpose(a, *order)


def f_swapaxes(a, x, y):
    a = as_arr(a)
    order = list(builtins.range(a.ndim_))
    order[x], order[y] = order[y], order[x]
    return m_transpose(a, *order)


def f_copyto(dst, src, casting=None, where=True):
    if where is True:
        arr.assign_view(dst, src)
        return
    w = as_arr(where)
    s = as_arr(src)
    _, (mw, ms) = broadcast_to_shape([w, s], dst.shp)
    wf, sf = w.fnow(), s.fnow()
    dst.write(lambda i: bz(wf(mw(i))), lambda i: cast_elem(sf(ms(i)), dst.dtype))


def f_putmask(a, mask, values):
    f_copyto(a, values, where=mask)


def f_ix(*a):
    raise Unsupported("np.ix_")


def f_char_mod(fmt, a):
    a = as_arr(a)
    f = a.fnow()
    return SymArray(a.shp, lambda idx: fmt.replace("%", "{:").replace("f", "f}").format(f(idx)) if isinstance(fmt, str) else None, object)


_SIMPLE = dict(
    array=f_array, asarray=lambda a, dtype=None, **k: (a if isinstance(a, SymArray) and (dtype is None or mkdtype(dtype) == a.dtype) else f_array(a, dtype)),
    any=f_any, all=f_all, sum=f_sum, nansum=f_nansum, prod=f_prod,
    min=mk_ext("min", False), max=mk_ext("max", False), amin=mk_ext("min", False), amax=mk_ext("max", False),
    nanmin=mk_ext("min", True), nanmax=mk_ext("max", True),
    argmin=mk_arg("min", False), argmax=mk_arg("max", False),
    nanargmin=mk_arg("min", True), nanargmax=mk_arg("max", True),
    unravel_index=f_unravel_index, nanmean=f_opaque("nanmean"), nanmedian=f_opaque("nanmedian"),
    median=f_opaque("median"), mean=f_mean, std=f_opaque("std"), nanstd=f_opaque("nanstd"),
    zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full,
    zeros_like=like("zeros"), ones_like=like("ones"), empty_like=like("empty"), full_like=like("full"),
    linspace=f_linspace, arange=f_arange, copy=f_copy, flip=f_flip,
    fliplr=lambda a: f_flip(a, 1), flipud=lambda a: f_flip(a, 0),
    concatenate=f_concatenate, append=f_append, insert=f_insert, delete=f_delete,
    vstack=f_vstack, hstack=f_hstack, stack=f_stack, column_stack=f_column_stack, row_stack=f_vstack,
    dot=f_dot, matmul=f_dot, repeat=f_repeat, tile=f_tile, broadcast_to=f_broadcast_to,
    broadcast_arrays=f_broadcast_arrays, meshgrid=f_meshgrid, indices=f_indices,
    where=f_where, clip=f_clip, take=f_take, array_equal=f_array_equal, isclose=f_isclose, allclose=f_allclose,
    sort=f_sort, argsort=f_argsort, unique=f_unique, cumsum=f_cumsum, diff=f_diff, interp=f_interp,
    count_nonzero=f_count_nonzero, nan_to_num=f_nan_to_num, expand_dims=f_expand_dims,
    ravel=lambda a, order="C": m_ravel(as_arr(a), order), reshape=lambda a, s, order="C": m_reshape(as_arr(a), s, order=order),
    transpose=lambda a, axes=None: m_transpose(as_arr(a), axes), squeeze=lambda a, axis=None: m_squeeze(as_arr(a), axis),
    atleast_1d=f_atleast(1), atleast_2d=f_atleast(2), issubdtype=f_issubdtype, isscalar=f_isscalar,
    shape=f_shape, ndim=lambda a: as_arr(a).ndim_, size=lambda a: as_arr(a).size, roll=f_roll,
    moveaxis=f_moveaxis, swapaxes=f_swapaxes, copyto=f_copyto, putmask=f_putmask, ix_=f_ix,
    around=f_round, round=f_round, round_=f_round,
    astype=m_astype,
)
for _n, _f in _SIMPLE.items():
    _g = guard(_f)
    _g.__name__ = _n
    setattr(NP, _n, _g)

METHODS = {}
for _n in ("round", "any", "all", "sum", "prod", "min", "max", "argmin", "argmax", "mean", "std", "copy", "repeat", "dot",
           "take", "clip", "cumsum", "argsort"):
    METHODS[_n] = getattr(NP, _n)
METHODS["astype"] = guard(m_astype)
METHODS["flatten"] = guard(m_flatten)
METHODS["ravel"] = guard(m_ravel)
METHODS["reshape"] = guard(m_reshape)
METHODS["transpose"] = guard(m_transpose)
METHODS["squeeze"] = guard(m_squeeze)
METHODS["swapaxes"] = guard(f_swapaxes)


def m_item(a, *i):
    if i:
        return arr._getitem(a, tuple(i)).item()
    if a.ndim_ == 0:
        v = a.at(())
    else:
        if not core.branch(ieq(zsize(a.shp), 1)):
            raise_np(ValueError("can only convert an array of size 1 to a Python scalar"))
        v = a.at(tuple(0 for _ in a.shp))
    if a.dtype.kind == "O":
        return v
    return vals.retag(v, {"f": float, "i": int, "b": bool}[a.dtype.kind])


def m_tolist(a):
    if a.ndim_ == 0:
        return m_item(a)
    return [m_tolist(a[i]) if a.ndim_ > 1 else (a.at((i,)) if a.dtype.kind == "O" else vals.retag(a.at((i,)), {"f": float, "i": int, "b": bool}[a.dtype.kind]))
            for i in builtins.range(conc_len(a))]


def m_fill(a, v):
    v0 = cast_elem(v, a.dtype)
    a.write(lambda i: True, lambda i: v0)


def m_sort(a, axis=-1):
    r = f_sort(a)
    arr.assign_view(a, r)


METHODS["item"] = guard(m_item)
METHODS["tolist"] = guard(m_tolist)
METHODS["fill"] = guard(m_fill)
METHODS["sort"] = guard(m_sort)


class _Random:
    @staticmethod
    def normal(*a, **k):
        core.B.cache["rnd"] = core.B.cache.get("rnd", 0) + 1
        return 0.123456 + core.B.cache["rnd"]

    def __getattr__(self, n):
        raise Unsupported(f"np.random.{n}")


class _Char:
    mod = staticmethod(guard(f_char_mod))

    def __getattr__(self, n):
        raise Unsupported(f"np.char.{n}")


NP.random = _Random()
NP.char = _Char()
NP.mgrid = MGrid()
NP.errstate = ErrState
NP.seterr = lambda **k: {}
NP.nan = float("nan")
NP.NaN = NP.NAN = NP.nan
NP.inf = float("inf")
NP.Inf = NP.inf
NP.newaxis = None
NP.ndarray = SymArray
NP.dtype = lambda t, *a: mkdtype(t)
for _n in ("int8", "int16", "int32", "int64", "float16", "float32", "float64", "float128", "longdouble", "bool_",
           "integer", "floating", "number", "generic", "uint8", "uint16", "uint32", "uint64", "complex128", "complex64", "str_", "object_",
           "int_", "intp", "intc", "signedinteger", "unsignedinteger", "inexact"):
    setattr(NP, _n, getattr(rnp, _n))
NP.int0 = rnp.intp
NP.__dict__["__version__"] = rnp.__version__


def _np_getattr(name):
    if name == "pi":
        return SymFloat(F(PI()), float)
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"np.{name}")


NP.__getattr__ = _np_getattr

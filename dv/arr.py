"""Symbolic arrays: a (possibly symbolic) shape and an element function.

Storage is shared between views and updated in place, so aliasing and
write-through behave as in numpy."""
import numpy as rnp
import z3
from . import core, vals
from .core import (Unsupported, band, bor, bnot, ile, ilt, ieq, iadd, isub, imul,
                   iz, is_z3, isimp)
from .vals import (SymNum, SymInt, SymFloat, SymBool, mkint, mkbool, mkfloat, elem_ite,
                   to_int, to_f, raise_np, isnum, kind_of, bz)

KF = "f"


def ikey(idx):
    return tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)


class Fn:
    """memoised immutable element function"""
    __slots__ = ("f", "memo", "keep")

    def __init__(self, f):
        self.f = f
        self.memo = {}
        self.keep = []

    def __call__(self, idx):
        k = ikey(idx)
        if k in self.memo:
            return self.memo[k]
        v = self.f(idx)
        self.memo[k] = v
        self.keep.append(idx)
        return v


class Store:
    __slots__ = ("fn", "shape", "version")

    def __init__(self, fn, shape):
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.shape = tuple(shape)
        self.version = 0

    def write(self, cond, val):
        """cond(idx) -> bool, val(idx) -> element"""
        old = self.fn

        def f(idx):
            c = cond(idx)
            if c is True:
                return val(idx)
            if c is False:
                return old(idx)
            c = z3.simplify(c)
            if z3.is_true(c):
                return val(idx)
            if z3.is_false(c):
                return old(idx)
            o = old(idx)
            ko = kind_of(o)
            if ko is None:
                return val(idx) if core.branch(c) else o
            return elem_ite(c, val(idx), o)
        self.fn = Fn(f)
        self.version += 1


class MaskSel:
    """The selection a[mask] (one-dimensional, of symbolic length), kept in
    the coordinates of the full array."""
    _is_symarray = True
    __array_ufunc__ = None

    def __init__(self, mask, fn, dtype):
        self.mask = mask          # SymArray snapshot (bool)
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.dtype = rnp.dtype(dtype)

    def same_mask(self, o):
        if self.mask is o.mask:
            return True
        m1, m2 = self.mask, o.mask
        if len(m1.shp) != len(m2.shp):
            return False
        for a, b in zip(m1.shp, m2.shp):
            if not core.must(ieq(a, b)):
                return False
        idx, g = fresh_index(m1.shp, "mk")
        a, b = bz(m1.at(idx)), bz(m2.at(idx))
        return core.must(bor(bnot(g), vals.biff(a, b)))

    def _bin(self, o, f, dtype):
        if isinstance(o, MaskSel):
            if not self.same_mask(o):
                raise Unsupported("operation on selections under different masks")
            return MaskSel(self.mask, lambda i: f(self.fn(i), o.fn(i)), dtype(self.dtype, o.dtype))
        if isnum(o):
            return MaskSel(self.mask, lambda i: f(self.fn(i), o), dtype(self.dtype, scalar_dtype(o)))
        if isinstance(o, SymArray) and o.ndim_ == 0:
            v = o.at(())
            return MaskSel(self.mask, lambda i: f(self.fn(i), v), dtype(self.dtype, o.dtype))
        raise Unsupported("selection combined with an array")

    def map(self, f, dtype):
        return MaskSel(self.mask, lambda i: f(self.fn(i)), dtype)

    @property
    def shape(self):
        return (self._len(),)

    @property
    def size(self):
        return self._len()

    def _len(self):
        from . import npshim
        return npshim.count_true(self.mask)

    @property
    def ndim(self):
        return 1

    def astype(self, t, **k):
        from . import npshim
        dt = npshim.mkdtype(t)
        return MaskSel(self.mask, lambda i: npshim.cast_elem(self.fn(i), dt), dt)

    def copy(self):
        return MaskSel(self.mask, self.fn, self.dtype)

    def __iter__(self):
        raise Unsupported("iteration over a selection")

    def __len__(self):
        raise Unsupported("len of a selection")

    def _beyond(self, *a):
        raise Unsupported("use of a selection")
    __getitem__ = __setitem__ = __delitem__ = __bool__ = __contains__ = __index__ = __int__ = __float__ = _beyond

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a boolean selection")


def fresh_index(shape, base="k"):
    """fresh index tuple and its range condition"""
    idx, g = [], []
    for n in shape:
        if isinstance(n, int) and n == 1:
            idx.append(0)
            continue
        i = core.B.fresh_int(base)
        idx.append(i)
        g.append(ile(0, i))
        g.append(ilt(i, n))
    return tuple(idx), band(*g)


def scalar_dtype(o):
    t = vals.tag_of(o)
    if vals.is_np(t):
        return rnp.dtype(t)
    k = kind_of(o)
    return {"b": rnp.dtype(bool), "i": rnp.dtype("int64"), "f": rnp.dtype("float64")}[k]


def prom(a, b):
    return rnp.result_type(a, b)


def prom_div(a, b):
    r = rnp.result_type(a, b)
    return r if r.kind in "fcO" else rnp.dtype("float64")


def d_bool(a, b=None):
    return rnp.dtype(bool)


def wrap(x, dtype):
    """element -> scalar with numpy type"""
    if isinstance(x, (SymInt, SymFloat, SymBool)):
        if dtype.kind == "b":
            return mkbool(bz(x), rnp.bool_)
        return vals.retag(x, dtype.type) if dtype.kind in "if" else x
    if dtype.kind == "f" and isinstance(x, (int, float)) and not isinstance(x, rnp.floating):
        return dtype.type(x)
    if dtype.kind == "i" and isinstance(x, int) and not isinstance(x, rnp.integer):
        return dtype.type(x)
    if dtype.kind == "b" and isinstance(x, bool):
        return rnp.bool_(x)
    return x


class ArrMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymArray:
            return type.__instancecheck__(SymArray, x) or type(x) is MaskSel
        return type.__instancecheck__(cls, x)


class SymArray:
    _is_symarray = True
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, fn, dtype="float64", store=None, vmap=None, inv=None):
        self.shp = tuple(shape)
        self.dtype = rnp.dtype(dtype)
        self.store = store or Store(fn, self.shp)
        self.vmap = vmap          # idx -> base idx
        self.inv = inv            # base idx -> (cond, idx)

    # --- basics ---
    @property
    def shape(self):
        return tuple(mkint(n) for n in self.shp)

    @shape.setter
    def shape(self, s):
        raise Unsupported("assignment to array.shape")

    @property
    def ndim_(self):
        return len(self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        r = 1
        for n in self.shp:
            r = imul(r, n)
        return mkint(r)

    @property
    def T(self):
        return self.transpose()

    def at(self, idx):
        """element at an index tuple (no bounds check)"""
        if self.vmap is not None:
            idx = self.vmap(idx)
        return self.store.fn(idx)

    def fnow(self):
        """immutable element function of the current contents"""
        fn, vm = self.store.fn, self.vmap
        if vm is None:
            return fn
        return Fn(lambda idx: fn(vm(idx)))

    def snapshot(self):
        return SymArray(self.shp, self.fnow(), self.dtype)

    def copy(self, order=None):
        return self.snapshot()

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.snapshot()

    def scalar(self):
        return wrap(self.at(()), self.dtype)

    def write(self, cond, val):
        if self.vmap is None:
            self.store.write(cond, val)
            return
        inv = self.inv
        if inv is None:
            raise Unsupported("write through this view")

        def c2(bidx):
            c, idx = inv(bidx)
            if c is False:
                return False
            return band(c, cond(idx))

        def v2(bidx):
            return val(inv(bidx)[1])
        self.store.write(c2, v2)

    # --- indexing ---
    def __getitem__(self, key):
        from . import npshim
        return npshim.guard(_getitem)(self, key)

    def __setitem__(self, key, val):
        from . import npshim
        npshim.guard(_setitem)(self, key, val)

    def __len__(self):
        if not self.shp:
            raise vals.flag(TypeError("len() of unsized object"))
        n = self.shp[0]
        if isinstance(n, int):
            return n
        return vals.concretize(mkint(n))

    def vlen(self):
        if not self.shp:
            raise vals.flag(TypeError("len() of unsized object"))
        return mkint(self.shp[0])

    def __iter__(self):
        if not self.shp:
            raise vals.flag(TypeError("iteration over a 0-d array"))
        n = self.shp[0]
        if not isinstance(n, int):
            n = isimp(n)
            if not isinstance(n, int):
                from . import vlist
                it = vlist.over([self])
                if it is not None:
                    for _, x in it:
                        yield x[0]
                    return
                n = vals.concretize(mkint(n))
        for i in range(n):
            yield self[i]

    def __bool__(self):
        from . import npshim
        return npshim.guard(_truth)(self)

    def __contains__(self, x):
        return bool((self == x).any())

    def __format__(self, spec):
        if spec:
            if self.ndim_ == 0:
                return format(self.scalar(), spec)
            raise vals.flag(TypeError("unsupported format string passed to numpy.ndarray.__format__"))
        return core.B.token(("arr", id(self)))

    def __str__(self):
        return self.__format__("")

    __repr__ = __str__

    def __index__(self):
        if self.ndim_ == 0 and self.dtype.kind in "i":
            return vals.concretize(self.scalar()) if isinstance(self.scalar(), SymInt) else int(self.scalar())
        raise vals.flag(TypeError("only integer scalar arrays can be converted to a scalar index"))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        from . import npshim
        m = npshim.METHODS.get(n)
        if m is None:
            raise Unsupported(f"array method {n}")
        return lambda *a, **k: m(self, *a, **k)


def _truth(a):
    if all(isinstance(n, int) for n in a.shp):
        p = 1
        for n in a.shp:
            p *= n
        if p == 1:
            return bool(a.at(tuple(0 for _ in a.shp)) != 0) if a.dtype.kind != "b" else bool(a.at(tuple(0 for _ in a.shp)))
        if p == 0:
            return False
    else:
        p = to_int(a.size)
        if core.branch(ieq(p, 1)):
            v = a.at(tuple(0 for _ in a.shp))
            return bool(v) if a.dtype.kind == "b" else bool(v != 0)
    raise_np(ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"))


def norm_index(i, n, axis=0):
    """bounds-check and normalise an integer index (forks)"""
    i = to_int(i)
    ok = band(ile(isub(0, n), i), ilt(i, n))
    if not core.branch(ok):
        raise_np(IndexError(f"index is out of bounds for axis {axis}"))
    if isinstance(i, int):
        return i if i >= 0 else iadd(i, n)
    if core.branch(i >= 0):
        return i
    return iadd(i, n)


def imin(a, b):
    if core.branch(ile(a, b)):
        return a
    return b


def slice_range(s, n):
    """(start, step, count) of a slice on an axis of length n (forks)"""
    step = 1 if s.step is None else to_int(s.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise_np(ValueError("slice step cannot be zero"))

    def clampi(v, lo, hi):
        v = to_int(v)
        if isinstance(v, int) and v < 0 or (not isinstance(v, int) and not core.branch(v >= 0)):
            v = iadd(v, n)
            if core.branch(ilt(v, lo)):
                return lo
            return v
        if core.branch(ile(v, hi)):
            return v
        return hi
    if step > 0:
        start = 0 if s.start is None else clampi(s.start, 0, n)
        stop = n if s.stop is None else clampi(s.stop, 0, n)
        if core.branch(ile(stop, start)):
            return start, step, 0
        d = isub(stop, start)
        if step == 1:
            return start, 1, d
        return start, step, isimp((iz(d) + (step - 1)) / step)
    start = isub(n, 1) if s.start is None else clampi(s.start, -1, isub(n, 1))
    stop = -1 if s.stop is None else clampi(s.stop, -1, isub(n, 1))
    if core.branch(ile(start, stop)):
        return start, step, 0
    d = isub(start, stop)
    if step == -1:
        return start, step, d
    return start, step, isimp((iz(d) + (-step - 1)) / (-step))


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (SymArray, MaskSel)) and getattr(k, "dtype", None) is not None and k.dtype.kind == "b":
            used += k.ndim
        else:
            used += 1
    if used > a.ndim_:
        raise_np(IndexError("too many indices for array"))
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim_ - used)
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (a.ndim_ - used)
    return out


def is_intlike(k):
    if isinstance(k, (bool, rnp.bool_, SymBool)):
        return False
    if isinstance(k, (int, rnp.integer, SymInt)):
        return True
    return isinstance(k, SymArray) and k.ndim_ == 0 and k.dtype.kind == "i"


def unwrap0(k):
    return k.scalar() if isinstance(k, SymArray) else k


def plan_basic(a, key):
    """view plan for ints / slices / newaxis: list of result dims
    (start, step, src axis) and fixed axes."""
    dims, shape = [], []
    fixed = {}
    ax = 0
    for k in key:
        if k is None:
            dims.append(None)
            shape.append(1)
            continue
        n = a.shp[ax]
        if isinstance(k, slice):
            st, step, cnt = slice_range(k, n)
            dims.append((ax, st, step))
            shape.append(cnt)
        elif is_intlike(k):
            fixed[ax] = norm_index(unwrap0(k), n, ax)
        else:
            if isinstance(k, (float, SymFloat, str)) or isinstance(k, rnp.floating):
                raise_np(IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices"))
            raise Unsupported(f"index of type {type(k).__name__}")
        ax += 1
    return dims, shape, fixed


def make_view(a, dims, shape, fixed):
    nd = a.ndim_
    ovm, oinv = a.vmap, a.inv

    def vm(idx):
        b = [None] * nd
        for x, v in fixed.items():
            b[x] = v
        for i, d in zip(idx, dims):
            if d is None:
                continue
            ax, st, step = d
            if step == 1:
                b[ax] = iadd(st, i)
            elif step == -1:
                b[ax] = isub(st, i)
            else:
                b[ax] = iadd(st, imul(step, i))
        b = tuple(b)
        return ovm(b) if ovm is not None else b

    def inv(bidx):
        if ovm is not None:
            if oinv is None:
                raise Unsupported("write through this view")
            c, bidx = oinv(bidx)
            if c is False:
                return False, None
        else:
            c = True
        cs = [c]
        for x, v in fixed.items():
            cs.append(ieq(bidx[x], v))
        out = []
        for d, n in zip(dims, shape):
            if d is None:
                out.append(0)
                continue
            ax, st, step = d
            i = isub(bidx[ax], st)
            if step == -1:
                i = isub(0, i)
            elif step != 1:
                cs.append(ieq(isimp(iz(i) % abs(step)), 0))
                i = isimp(iz(i) / step) if step > 0 else isimp((-iz(i)) / (-step))
            cs.append(ile(0, i))
            cs.append(ilt(i, n))
            out.append(i)
        return band(*cs), tuple(out)
    return SymArray(shape, None, a.dtype, store=a.store, vmap=vm, inv=inv)


def _aslist(k):
    from . import npshim
    if isinstance(k, list):
        return npshim.f_array(k)
    return k


def _getitem(a, key):
    key = expand_key(a, tuple(_aslist(k) for k in key) if isinstance(key, tuple) else _aslist(key))
    if any(isinstance(k, (bool, rnp.bool_, SymBool)) for k in key):
        raise Unsupported("scalar boolean index")
    adv = [k for k in key if isinstance(k, (SymArray, MaskSel)) and not is_intlike(k)]
    if adv:
        return adv_get(a, key)
    dims, shape, fixed = plan_basic(a, key)
    if not dims:
        idx = tuple(fixed[x] for x in range(a.ndim_))
        core.B.record(a.vmap(idx) if a.vmap is not None else idx)
        core.B.record(idx)
        v = wrap(a.at(idx), a.dtype)
        return v
    return make_view(a, dims, shape, fixed)


def adv_get(a, key):
    nn = [k for k in key if not (isinstance(k, slice) and k == slice(None))]
    if len(nn) == 1 and isinstance(nn[0], SymArray) and nn[0].dtype.kind == "b":
        m = nn[0]
        if key.index is None:
            pass
        if key[0] is not m:
            raise Unsupported("boolean mask on a trailing axis")
        if m.ndim_ != a.ndim_:
            if m.ndim_ == 0:
                raise Unsupported("0-d boolean index")
            raise Unsupported("boolean mask of fewer dimensions")
        check_mask_shape(a, m)
        if m.ndim_ == 1 and isinstance(m.shp[0], int):
            # concrete length: fork per element, explicit result
            sel = [i for i in range(m.shp[0]) if bool(m.at((i,)))]
            f = a.fnow()
            return SymArray((len(sel),), lambda idx: pick([f((i,)) for i in sel], idx[0]), a.dtype)
        return MaskSel(m.snapshot(), a.fnow(), a.dtype)
    if isinstance(nn[0], MaskSel) or any(isinstance(k, MaskSel) for k in nn):
        raise Unsupported("index by a selection")
    # integer array indices
    ia = [k for k in key if isinstance(k, SymArray)]
    if any(k.dtype.kind != "i" for k in ia):
        if any(k.dtype.kind == "f" for k in ia):
            raise_np(IndexError("arrays used as indices must be of integer (or boolean) type"))
        raise Unsupported("mixed advanced index")
    if len(ia) == 1 and ia[0].ndim_ >= 1:
        k = ia[0]
        ax = key.index(k)
        if any(not (isinstance(x, slice) and x == slice(None)) for x in key if x is not k):
            raise Unsupported("mixed advanced index")
        f, kf = a.fnow(), k.fnow()
        n = a.shp[ax]
        chk_all_in_range(k, n)
        kd = k.ndim_

        def g(idx):
            j = to_int(kf(tuple(idx[ax:ax + kd])))
            if isinstance(j, int):
                j = j if j >= 0 else iadd(j, n)
            else:
                j = core.iite(j >= 0, j, iadd(j, n))
            return f(tuple(idx[:ax]) + (j,) + tuple(idx[ax + kd:]))
        shape = a.shp[:ax] + k.shp + a.shp[ax + 1:]
        return SymArray(shape, g, a.dtype)
    raise Unsupported("advanced index")


def chk_all_in_range(k, n):
    from . import npshim
    ok = npshim.all_b(k, lambda v: band(ile(isub(0, n), to_int(v)), ilt(to_int(v), n)))
    if not core.branch(ok):
        raise_np(IndexError("index out of bounds"))


def pick(lst, i):
    """element i of a python list of elements; i may be symbolic"""
    if isinstance(i, int):
        return lst[i]
    i = isimp(i)
    if isinstance(i, int):
        return lst[i]
    if not lst:
        raise core.Unsupported("element of an empty list")
    r = lst[-1]
    if kind_of(r) is None or any(kind_of(x) is None for x in lst):
        for j in range(len(lst) - 1):
            if core.branch(i == j):
                return lst[j]
        return lst[-1]
    for j in range(len(lst) - 2, -1, -1):
        r = elem_ite(i == j, lst[j], r)
    return r


def check_mask_shape(a, m):
    for x, y in zip(a.shp, m.shp):
        if not core.branch(ieq(x, y)):
            raise_np(IndexError("boolean index did not match indexed array"))


def as_elem(val, dtype):
    from . import npshim
    return npshim.cast_elem(val, dtype)


def _setitem(a, key, val):
    from . import npshim
    key = expand_key(a, tuple(_aslist(k) for k in key) if isinstance(key, tuple) else _aslist(key))
    adv = [k for k in key if isinstance(k, (SymArray, MaskSel)) and not is_intlike(k)]
    dt = a.dtype
    if isinstance(val, list):
        val = npshim.f_array(val)
    if adv:
        nn = [k for k in key if not (isinstance(k, slice) and k == slice(None))]
        if len(nn) == 1 and isinstance(nn[0], SymArray) and nn[0].dtype.kind == "b" and key[0] is nn[0]:
            m = nn[0]
            if m.ndim_ > a.ndim_:
                raise_np(IndexError("too many indices for array"))
            for x, y in zip(a.shp, m.shp):
                if not core.branch(ieq(x, y)):
                    raise_np(IndexError("boolean index did not match indexed array"))
            mf = m.fnow()
            md = m.ndim_

            def cond(idx):
                return bz(mf(tuple(idx[:md])))
            if isinstance(val, MaskSel):
                if not MaskSel(m.snapshot(), lambda i: 0, "bool").same_mask(val):
                    raise Unsupported("assignment of a selection under another mask")
                vf = val.fn
                a.write(cond, lambda idx: as_elem(vf(idx), dt))
                return
            if isinstance(val, SymArray) and val.ndim_ > 0:
                if md < a.ndim_:
                    raise Unsupported("array assigned under a partial mask")
                if isinstance(val.shp[0], int) and val.shp[0] == 1 and val.ndim_ == 1:
                    v0 = val.at((0,))
                    a.write(cond, lambda idx: as_elem(v0, dt))
                    return
                raise Unsupported("array assigned under a mask")
            v0 = val.scalar() if isinstance(val, SymArray) else val
            a.write(cond, lambda idx: as_elem(v0, dt))
            return
        raise Unsupported("advanced assignment")
    dims, shape, fixed = plan_basic(a, key)
    if not dims:
        idx = tuple(fixed[x] for x in range(a.ndim_))
        core.B.record(idx)
        if isinstance(val, (SymArray,)) and dt.kind != "O":
            if val.ndim_ == 0:
                val = val.scalar()
            else:
                if val.ndim_ == 1 and core.branch(ieq(val.shp[0], 1)):
                    val = wrap(val.at((0,)), val.dtype)
                else:
                    raise_np(ValueError("setting an array element with a sequence."))
        v0 = as_elem(val, dt)
        a.write(lambda j: band(*[ieq(x, y) for x, y in zip(j, idx)]), lambda j: v0)
        return
    view = make_view(a, dims, shape, fixed)
    assign_view(view, val)


def assign_view(view, val):
    from . import npshim
    dt = view.dtype
    if isinstance(val, (tuple,)):
        val = npshim.f_array(val)
    if isinstance(val, MaskSel):
        raise Unsupported("assignment of a selection to a slice")
    if isinstance(val, SymArray):
        vs = val.snapshot()
        shape, (bm,) = npshim.broadcast_to_shape([vs], view.shp)
        view.write(lambda idx: True, lambda idx: as_elem(vs.at(bm(idx)), dt))
    else:
        v0 = as_elem(val, dt)
        view.write(lambda idx: True, lambda idx: v0)

"""Symbolic mode: explores every path of a harness and discharges its
obligations."""
import time, os, traceback, itertools, mmap, struct, pickle
from fractions import Fraction
import numpy as rnp
import z3
from . import core, vals, arr, npshim, shims, loader, solve
from .core import Ctx, Abort, Unsupported, Budget, Engine, band, bor, bnot, zb, ile, ilt, iz, isimp
from .vals import (F, SymNum, SymInt, SymFloat, SymBool, mkint, mkbool, mkfloat, to_int, to_f, bz, kind_of, is_np, RepoExc)
from .arr import SymArray, MaskSel, fresh_index, wrap
from .common import Outcome


FORK = os.environ.get("DV_FORK", "1") == "1"
TOKENS = None           # semaphore shared by all processes, set by check.py
DVDIR = os.path.dirname(os.path.abspath(__file__))


def engine_failure(e):
    """an unplanned exception raised inside a shim says nothing about the code"""
    if getattr(e, "_from_shim", False) or not isinstance(e, (TypeError, AttributeError, NameError, KeyError, AssertionError, RecursionError, z3.Z3Exception)):
        return
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and tb.tb_frame.f_code.co_filename.startswith(DVDIR):
        if isinstance(e, AttributeError) and tb.tb_frame.f_code.co_name in ("__getattr__",):
            return
        raise Unsupported(f"shim failure: {type(e).__name__}: {e} in {tb.tb_frame.f_code.co_name}")


class SymVC:
    symbolic = True

    def __init__(self, ctx, run):
        self.ctx = ctx
        self.run = run

    # --- modules --------------------------------------------------------
    def mod(self, name):
        return loader.load(name)

    @property
    def np(self):
        return npshim.NP

    @property
    def plt_axes(self):
        return shims.VAxes

    def axes(self):
        return shims.VAxes()

    # --- inputs ---------------------------------------------------------
    def _in(self, name, kind, payload):
        self.ctx.inputs.append((name, kind, payload))

    def _nm(self, name):
        """repeated input names are numbered, as in the concrete mode"""
        c = self.ctx.counters
        k = ("input", name)
        c[k] = c.get(k, 0) + 1
        return name if c[k] == 1 else f"{name}~{c[k]}"

    def real(self, name, lo=None, hi=None, nan=False, inf=False, tag=float, lo_open=False, hi_open=False):
        name = self._nm(name)
        v = z3.Real("in_" + name)
        n = z3.Bool("in_" + name + "_nan") if nan else False
        p = z3.Bool("in_" + name + "_pinf") if inf else False
        m = z3.Bool("in_" + name + "_ninf") if inf else False
        if nan or inf:
            fl = [x for x in (n, p, m) if x is not False]
            for a, b in itertools.combinations(fl, 2):
                self.ctx.fact(z3.Not(z3.And(a, b)))
        f = F(v, n, p, m)
        if lo is not None:
            self.assume_z((vals.flt if lo_open else vals.fle)(to_f(lo), f) if not nan else bor(n, (vals.flt if lo_open else vals.fle)(to_f(lo), f)))
        if hi is not None:
            self.assume_z((vals.flt if hi_open else vals.fle)(f, to_f(hi)) if not nan else bor(n, (vals.flt if hi_open else vals.fle)(f, to_f(hi))))
        x = SymFloat(f, tag)
        self._in(name, "real", f)
        return x

    def int(self, name, lo=None, hi=None, tag=int, small=None):
        name = self._nm(name)
        v = z3.Int("in_" + name)
        if lo is not None:
            self.assume_z(iz(to_int(lo)) <= v)
        if hi is not None:
            self.assume_z(v <= iz(to_int(hi)))
        self._in(name, "int", v)
        return SymInt(v, tag)

    def boolean(self, name, tag=bool):
        name = self._nm(name)
        v = z3.Bool("in_" + name)
        self._in(name, "bool", v)
        return SymBool(v, tag)

    def choice(self, name, options):
        name = self._nm(name)
        k = self.ctx.choice(len(options))
        self._in(name, "choice", k)
        return options[k]

    def array(self, name, shape, kind="f", nan=False, inf=False, lo=None, hi=None, small=None):
        name = self._nm(name)
        shp = tuple(to_int(n) for n in shape)
        I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        dom = [I] * len(shp)

        def fn(nm, rng):
            if not dom:
                c = z3.Const("in_" + nm, rng)
                return lambda *a: c
            return z3.Function("in_" + nm, *dom, rng)
        ctx = self.ctx
        if kind == "b":
            b = fn(name, Bo)
            el = lambda idx: mkbool(b(*[iz(i) for i in idx]))
            dt = "bool"
        elif kind == "i":
            b = fn(name, I)
            dt = "int64"
            el = lambda idx: mkint(b(*[iz(i) for i in idx]))
            if lo is not None or hi is not None:
                def body(t):
                    v = b(*[iz(i) for i in t])
                    return band(True if lo is None else iz(to_int(lo)) <= v, True if hi is None else v <= iz(to_int(hi)))
                ctx.qfact(shp, body, name)
        else:
            v = fn(name, R)
            n = fn(name + "_nan", Bo) if nan else None
            p = fn(name + "_pinf", Bo) if inf else None
            m = fn(name + "_ninf", Bo) if inf else None
            dt = "float64"
            seen = set()

            def mk(idx):
                a = [iz(i) for i in idx]
                f = F(v(*a), n(*a) if n is not None else False, p(*a) if p is not None else False, m(*a) if m is not None else False)
                fl = [x for x in (f.nan, f.pinf, f.ninf) if x is not False]
                if len(fl) > 1:
                    for x, y in itertools.combinations(fl, 2):
                        ctx.fact(z3.Not(z3.And(x, y)))
                if lo is not None:
                    ctx.fact(bor(f.nan, vals.fle(to_f(lo), f)))
                if hi is not None:
                    ctx.fact(bor(f.nan, vals.fle(f, to_f(hi))))
                return f
            el = lambda idx: mkfloat(mk(idx))
        a = SymArray(shp, el, dt)
        snap = a.fnow()
        self._in(name, "array", (shp, snap, dt))
        return a

    def seq(self, name, lo, hi, more=0):
        """length of a python sequence: forks over lo..hi"""
        name = self._nm(name)
        k = self.ctx.choice(hi - lo + 1)
        self._in(name, "choice", k)
        return lo + k

    # --- conditions ------------------------------------------------------
    def z(self, c):
        if isinstance(c, SymArray):
            raise Unsupported("array used as a condition")
        return bz(c)

    def assume_z(self, z):
        self.ctx.assume(z)

    def assume(self, c):
        z = self.z(c)
        self.ctx.assume(z)
        if self.ctx.check_sat() == z3.unsat:
            raise Abort("assumption infeasible")

    def and_(self, *cs):
        return mkbool(band(*[self.z(c) for c in cs]))

    def or_(self, *cs):
        return mkbool(bor(*[self.z(c) for c in cs]))

    def not_(self, c):
        return mkbool(bnot(self.z(c)))

    def implies(self, a, b):
        return mkbool(bor(bnot(self.z(a)), self.z(b)))

    def iff(self, a, b):
        return mkbool(vals.biff(self.z(a), self.z(b)))

    def ite(self, c, a, b):
        return vals.elem_ite(self.z(c), a, b)

    def ite_(self, c, a, b):
        """conditional condition with lazily built branches"""
        z = self.z(c)
        if z is True:
            return a()
        if z is False:
            return b()
        return mkbool(core.bite(z, self.z(a()), self.z(b())))

    def eq_abs(self, a, b, scale, tol=None):
        """equal up to rounding relative to the scale"""
        return self.eq(a, b)

    def isnan(self, x):
        return mkbool(to_f(x).nan)

    def isinf(self, x):
        return mkbool(to_f(x).isinf)

    def finite(self, x):
        return mkbool(to_f(x).fin)

    def eq(self, a, b, tol=None):
        """same value; NaN equals NaN"""
        if isinstance(a, SymArray) and a.ndim_ == 0:
            a = a.scalar()
        if isinstance(b, SymArray) and b.ndim_ == 0:
            b = b.scalar()
        ka, kb = kind_of(a), kind_of(b)
        if ka is None or kb is None:
            r = loader.op_eq(a, b)
            return r if isinstance(r, SymBool) else bool(r)
        if ka == "b" and kb == "b":
            return mkbool(vals.biff(bz(a), bz(b)))
        if "f" in (ka, kb):
            return mkbool(vals.fsame(to_f(a), to_f(b)))
        return mkbool(core.ieq(to_int(a), to_int(b)))

    def near(self, a, b, tol=None):
        return False

    def ge0(self, x, scale=1):
        return x >= 0

    def le(self, a, b):
        return self._cmp(vals.fle, a, b)

    def lt(self, a, b):
        return self._cmp(vals.flt, a, b)

    def _cmp(self, f, a, b):
        return mkbool(f(to_f(a), to_f(b)))

    def branch(self, c):
        return core.branch(self.z(c))

    def known(self, c):
        """decided (without forking) true under the current path"""
        return core.must(self.z(c))

    def proves_all(self, shape, pred):
        """decided, without forking and with every back end: pred holds for
        every index tuple of the shape"""
        ctx = self.ctx
        shp = [to_int(npshim._s0(n)) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        idx = [ctx.fresh_int("k_all") for _ in shp]
        self.record(idx)
        g = band(*[x for i, n in zip(idx, shp) for x in (ile(0, i), ilt(i, n))])
        vi = tuple(mkint(i) for i in idx)
        goal = bor(bnot(g), self.z(pred(vi if len(vi) != 1 else vi[0])))
        pos = len(ctx.trace)
        if pos < len(ctx.prefix):
            c = ctx.prefix[pos]
            ctx.trace.append((c, None))
            return c == 1
        t = time.time()
        st = solve.prove(ctx, goal, 20, quick="fast")[0]
        ctx.solver_time += time.time() - t
        c = 1 if st == "proved" else 0
        ctx.trace.append((c, [c]))
        return c == 1

    # --- real-number helpers -----------------------------------------------
    def sqrt(self, x):
        return vals.retag(npshim.U["sqrt"](x), rnp.float64) if isinstance(npshim.U["sqrt"](x), SymNum) else npshim.U["sqrt"](x)

    def sin(self, x):
        return npshim.U["sin"](x)

    def cos(self, x):
        return npshim.U["cos"](x)

    def deg2rad(self, x):
        return npshim.U["deg2rad"](x)

    def arctan2(self, y, x):
        return npshim.U["arctan2"](y, x)

    @property
    def pi(self):
        return npshim.NP.pi

    def npf(self, x):
        """x as a numpy float (division by zero gives an infinity)"""
        return vals.retag(x, rnp.float64) if isinstance(x, SymFloat) else rnp.float64(x) if not isinstance(x, SymNum) else SymFloat(to_f(x), rnp.float64)

    def abs(self, x):
        return abs(x)

    def fresh_real(self, name, cond=None):
        """an arbitrary real (a universally quantified variable)"""
        v = SymFloat(F(self.ctx.fresh_real(name)), float)
        if cond is not None:
            self.assume(cond(v))
        return v

    # --- arrays --------------------------------------------------------------
    def is_array(self, a, ndim=None, kind=None):
        if not isinstance(a, SymArray):
            return False
        return (ndim is None or a.ndim_ == ndim) and (kind is None or a.dtype.kind in kind)

    def at(self, a, idx):
        if isinstance(idx, tuple):
            i = tuple(to_int(x) for x in idx)
        else:
            i = (to_int(idx),)
        v = npshim.guard(lambda: a.at(i))()
        return wrap(v, a.dtype)

    def dims(self, a):
        return a.shape

    def length(self, a):
        return loader.v_len(a)

    def copy_array(self, a):
        return a.copy()

    def shape_is(self, a, shape):
        if not isinstance(a, SymArray) or a.ndim_ != len(shape):
            return False
        return mkbool(band(*[core.ieq(x, to_int(y)) for x, y in zip(a.shp, shape)]))

    def mkarray(self, shape, f, dtype="float64"):
        """array from an element function of the (integer) index"""
        shp = tuple(to_int(n) for n in shape)
        dt = rnp.dtype(dtype)
        return SymArray(shp, lambda i: npshim.cast_elem(f(tuple(mkint(x) for x in i)), dt), dt)

    def pyarray(self, lst, dtype=None):
        return npshim.f_array(list(lst), dtype)

    def ravel(self, a):
        return a.ravel()

    def image_data(self, im):
        return im.get_array()

    def line_data(self, l):
        f = lambda v: v if isinstance(v, (list, tuple)) else [v]
        return f(l.get_xdata()), f(l.get_ydata())

    # --- calls -----------------------------------------------------------------
    def call(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k), None)
        except RepoExc as e:
            return Outcome(False, None, e.inner)
        except Exception as e:
            engine_failure(e)
            return Outcome(False, None, e)

    def any_history(self, o, make, replay):
        """the dictionaries of o hold what any history of operations left
        (make builds an arbitrary value); the concrete mode runs replay"""
        h = shims.History(make)
        n = 0
        for v in vars(o).values():
            if isinstance(v, shims.VDict):
                v._base = h
                n += 1
        if not n:
            raise Unsupported("no dictionary to generalise")

    def contract(self, cls, name, stub):
        """replace a function by its contract (verified elsewhere); when the
        code has no function of this name its body is followed instead"""
        if name in cls.__dict__:
            setattr(cls, name, stub)
            return True
        return False

    def setattr(self, o, n, v):
        return self.call(lambda: setattr(o, n, v))

    # --- file system -------------------------------------------------------------
    def tmpdir(self):
        n = "scratch"
        shims.os_mkdir(n)
        return n

    def tmpdir2(self):
        n = "scratch2"
        shims.os_mkdir(n)
        return n

    def chdir_scratch(self):
        return None

    @property
    def os(self):
        return shims.OS

    def fs_files(self, d):
        return sorted(shims.os_listdir(d))

    # --- obligations ----------------------------------------------------------------
    def check(self, name, cond):
        if len(self.ctx.trace) < len(self.ctx.prefix):
            return          # discharged on the path this one forked from
        if cond is True or isinstance(cond, rnp.bool_) and cond:
            self.run.obligation(name, "trivial")
            return
        if cond is None:
            cond = False
        g = self.z(cond)
        self.run.discharge(self, name, g)

    def lemma(self, name, cond):
        """an intermediate assertion: proved, then used"""
        self.check(name, cond)
        z = self.z(cond)
        if z is not True:
            self.ctx.fact(z)

    def law(self, name, law, n):
        """proves a law of real arithmetic"""
        key = "law", name, n
        if key in self.ctx.cache:
            return
        xs = [SymFloat(F(z3.Real(f"law{k}")), float) for k in range(n)]
        k = len(self.ctx.pc)
        keep = self.ctx.opts
        self.ctx.opts = dict(keep, monomials=False, opaque_products=False)
        try:
            hyp, con = law(*xs)
        finally:
            self.ctx.opts = keep
        if len(self.ctx.pc) != k:
            raise Unsupported("a law introduces facts")
        if len(self.ctx.trace) >= len(self.ctx.prefix):
            t = time.time()
            st, backend = solve.prove_law([zb(self.z(h)) for h in hyp], zb(self.z(con)), name)
            self.run.solver_time += time.time() - t
            if st != "proved":
                raise Unsupported(f"law {name} is not proved")
            self.run.obligation("law: " + name, "discharged", backend)
        self.ctx.cache[key] = True

    def math(self, name, law, *args):
        """a law of real arithmetic: proved for arbitrary reals on its own,
        then used for the arguments.  law(*reals) -> (hypotheses, conclusion)"""
        self.law(name, law, len(args))
        hyp, con = law(*args)
        self.ctx.fact(bor(bnot(band(*[self.z(h) for h in hyp])), self.z(con)))

    def fail(self, name):
        self.check(name, False)

    def forall(self, name, shape, body, extra=None):
        """body(idx) for every index tuple of the shape"""
        if self.ctx.choice(2) == 0:
            return
        shp = [to_int(npshim._s0(n)) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        idx = []
        for n in shp:
            i = self.ctx.fresh_int("k_" + name.replace(" ", "_"))
            self.ctx.assume(zb(band(ile(0, i), ilt(i, n))))
            idx.append(i)
        if self.ctx.check_sat() == z3.unsat:
            raise Abort("empty range")
        self.record(idx)
        vi = tuple(mkint(i) for i in idx)
        self.run.reach(name)
        body(vi if len(vi) != 1 else vi[0])
        raise Abort("forall done")

    def identical(self, a, b):
        """the arrays have, term for term, the same elements (a sufficient
        test without a case distinction)"""
        if not (isinstance(a, SymArray) and isinstance(b, SymArray) and a.dtype == b.dtype and len(a.shp) == len(b.shp)):
            return False
        if not all(core.same_term(x, y) for x, y in zip(a.shp, b.shp)):
            return False
        key = "ident", len(a.shp)
        idx = self.ctx.__dict__.setdefault("_ident", {}).get(key) or tuple(z3.Int(f"ident!{k}") for k in range(len(a.shp)))
        conv = {"f": to_f, "b": bz, "i": to_int}.get(a.dtype.kind)
        if conv is None:
            return False
        n = len(self.ctx.pc)
        self.ctx.linear, was = True, self.ctx.linear
        try:
            x, y = conv(a.fnow()(idx)), conv(b.fnow()(idx))
        except core.Branching:
            return False
        finally:
            self.ctx.linear = was
        return len(self.ctx.pc) == n and core.same_elem(x, y)

    def assume_all(self, shape, pred):
        """pred(idx) for every index tuple of the shape"""
        shp = [to_int(npshim._s0(n)) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]

        def body(t):
            vi = tuple(mkint(i) for i in t)
            return self.z(pred(vi if len(vi) != 1 else vi[0]))
        self.ctx.qfact(tuple(shp), body, "assumed")

    def assume_pairs(self, n, pred):
        """pred((i, j)) for all 0 <= i, j < n (used at all pairs of indices
        in play)"""
        m = to_int(npshim._s0(n))
        self.ctx.qfact((m, m), lambda t: self.z(pred(tuple(mkint(i) for i in t))), "assumed", pairs=True)

    def recorded(self, a):
        """the array, each access of which brings its index into play"""
        log = []

        def elem(i):
            self.ctx.record(tuple(to_int(k) for k in i))
            log.append(i if len(i) != 1 else i[0])
            return self.at(a, i)
        out = self.mkarray(self.dims(a), elem, a.dtype)
        self.ctx.cache["log", id(out)] = (log, out)
        return out

    def accessed(self, a):
        """the indices with which a recorded array was read"""
        seen, out = set(), []
        for i in self.ctx.cache["log", id(a)][0]:
            k = to_int(i)
            k = k if isinstance(k, int) else ("z", z3.simplify(k).get_id())
            if k not in seen:
                seen.add(k)
                out.append(i)
        return out

    def scale(self, s, a, least):
        """the array s * a (s > 0), its smallest element being that with the
        index `least`, where a is one: the factor cancels in quotients and
        comparisons"""
        z = to_f(s).v
        if not core.must(z > 0):
            raise Unsupported("a scale that is not positive")
        n = self.dims(a)[0]
        self.check("the scale of the family", vals.mkbool(vals.feq(to_f(self.at(a, least)), to_f(1))))
        i = self.ctx.fresh_int("any")
        self.ctx.record((i,))
        self.check("the smallest of the family", self.implies(self.and_(0 <= mkint(i), mkint(i) < n), self.at(a, mkint(i)) >= 1))
        self.ctx.opts["scale"] = z
        out = self.mkarray((n,), lambda i: SymFloat(F(z * vals.vz(to_f(self.at(a, i)).v), to_f(self.at(a, i)).nan), float))
        self.ctx.cache["least", id(out.store), out.store.version] = (to_f(s), out)
        return out

    def function(self, name, n):
        """an arbitrary function of n reals (NaN included) to a real or NaN"""
        nm = self.ctx.name(name)
        sort = [z3.RealSort()] * n + [z3.BoolSort()] * n
        f, u = z3.Function(nm, *sort, z3.RealSort()), z3.Function(nm + "_nan", *sort, z3.BoolSort())

        def call(*args):
            xs = [to_f(a) for a in args]
            if not all(x.isinf is False or core.must(bnot(x.isinf)) for x in xs):
                raise Unsupported("function of infinite values")
            t = [vals.vz(vals.vite(x.nan, 0, x.v)) for x in xs] + [core.zb(x.nan) for x in xs]
            return vals.mkfloat(F(f(*t), u(*t)))
        return call

    def least(self, a):
        """the smallest number in the array"""
        return self.np.nanmin(a)

    def predicate(self, name, n):
        """an arbitrary predicate on n reals (NaN included)"""
        p = z3.Function(self.ctx.name(name), *[z3.RealSort()] * n, *[z3.BoolSort()] * n, z3.BoolSort())

        def holds(*args):
            xs = [to_f(a) for a in args]
            return mkbool(p(*[vals.vz(vals.vite(x.nan, 0, x.v)) for x in xs], *[core.zb(x.nan) for x in xs]))
        return holds

    def cells(self, cell, arrays, ghosts=()):
        """the loops filling the arrays are seen from one arbitrary cell"""
        from . import loops
        self.ctx.opts["cells"] = loops.Cells(self, cell, arrays, ghosts)

    def loop(self, function, inv):
        """invariant of the while loop of a function"""
        from . import loops
        self.ctx.opts.setdefault("whiles", {})
        self.ctx.opts["whiles"] = {**self.ctx.opts["whiles"], function: loops.Invariant(self, inv)}

    def unsupported(self, why):
        raise Unsupported(why)

    def vlist(self, n, item, fold=None, cell=None):
        """a list of any length n of items of one form (see dv.vlist)"""
        from . import vlist
        return vlist.VList(self, n, item, fold, cell)

    def objects(self, n, item):
        """an array of any length n of objects of one form"""
        from . import vlist
        L = vlist.VList(self, n, item)
        a = SymArray((L.n,), lambda i: L.get(i[0]), object)
        a.items = L
        return a

    def items(self, n, **k):
        """loops over arrays of n entries follow the rules of dv.vlist"""
        from . import vlist
        self.option("items", vlist.Items(self, n, **k))

    def prove_or_stop(self, goal, why):
        """a fact an invariant needs"""
        if not self.known(goal):
            raise Unsupported(why)

    def items_untouched(self):
        from . import vlist
        vlist.untouched()

    def option(self, name, value):
        """an option of the verifier for this path"""
        self.ctx.opts = dict(self.ctx.opts, **{name: value})

    def all_(self, shape, pred):
        """truth value of: pred(idx) for every index tuple of the shape"""
        shp = [to_int(npshim._s0(n)) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]

        def p(idx):
            vi = tuple(mkint(i) for i in idx)
            return self.z(pred(vi if len(vi) != 1 else vi[0]))
        a = SymArray(tuple(shp), lambda i: mkbool(p(i)), "bool")
        return mkbool(npshim.all_b(a, lambda v: bz(v)))

    def any_(self, shape, pred):
        return self.not_(self.all_(shape, lambda i: self.not_(pred(i))))

    def record(self, idx):
        idx = [i if isinstance(i, int) or z3.is_expr(i) else to_int(i) for i in idx]
        n = len(idx)
        for k in range(1, n + 1):
            for c in itertools.combinations(idx, k):
                self.ctx.record(tuple(c))

    def scope(self, name, body):
        """check body on a branch of its own"""
        if self.ctx.choice(2) == 0:
            return
        body()
        raise Abort("scope done")

    def exists_one(self, name, thunks):
        """at least one of the alternative statements holds for all inputs"""
        self.run.exists_one(self, name, thunks)

    def reach(self, name):
        self.run.reach(name)

    def note(self, s):
        self.ctx.notes.add(s)


class SymRun:
    """one harness, all paths"""

    def __init__(self, h, deadline, opts=None, only=None):
        self.h = h
        self.deadline = deadline
        self.opts = dict(h.opts)
        self.opts.update(opts or {})
        self.obs = {}           # name -> counts
        self.fails = []
        self.unsupported = {}
        self.paths = 0
        self.completed = 0
        self.notes = set()
        self.funcs = set()
        self.backend = {}
        self.solver_time = 0.0
        self.reached = {}
        self.budget = None
        self.errors = []
        self.bounded = set()
        # forking: counters shared by all processes of the run
        self.shared = mmap.mmap(-1, 64)
        self.pending = []       # (pipe, pid) of children running alongside
        self.out = None         # pipe to the parent, in a child
        self.held = False       # holds a token
        self.forking = FORK

    def bump(self, k, n=1):
        """shared counter (updates may race: the values are only limits)"""
        v = struct.unpack_from("q", self.shared, 8 * k)[0] + n
        struct.pack_into("q", self.shared, 8 * k, v)
        return v

    def count(self, k):
        return struct.unpack_from("q", self.shared, 8 * k)[0]

    def fork(self):
        """-> True in the child, which explores another alternative"""
        if time.time() > self.deadline:
            raise Budget("time budget of the harness exhausted")
        if self.bump(0) > self.max_paths:
            raise Budget(f"more than {self.max_paths} paths")
        if self.count(1) > 30:
            raise Budget("stopped after many failed obligations")
        token = TOKENS is not None and TOKENS.acquire(block=False)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.reset()
            self.out, self.held = w, token
            return True
        os.close(w)
        if token:
            self.pending.append((r, pid))
        else:
            self.gather(r, pid)
        return False

    def reset(self):
        for r, _ in self.pending:
            os.close(r)
        if self.out is not None:
            os.close(self.out)
        self.pending = []
        self.obs, self.fails, self.unsupported, self.notes, self.funcs = {}, [], {}, set(), set()
        self.backend, self.solver_time, self.reached, self.budget, self.errors, self.bounded = {}, 0.0, {}, None, [], set()
        self.paths, self.completed = 1, 0
        core.B.solver_time = 0.0

    def gather(self, r, pid):
        with os.fdopen(r, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(raw)
        except Exception:
            self.errors.append("a forked path died")
            return
        for k, v in d["obs"].items():
            o = self.obs.setdefault(k, {"total": 0, "discharged": 0, "trivial": 0, "failed": 0, "unknown": 0})
            for n in o:
                o[n] += v[n]
        for k in ("unsupported", "backend", "reached"):
            m = getattr(self, k)
            for n, v in d[k].items():
                m[n] = m.get(n, 0) + v
        for k in ("notes", "funcs", "bounded"):
            getattr(self, k).update(d[k])
        self.fails = (self.fails + d["fails"])[:40]
        self.errors = (self.errors + d["errors"])[:5]
        self.paths += d["paths"]
        self.completed += d["completed"]
        self.solver_time += d["solver_time"]
        self.budget = self.budget or d["budget"]

    def finish(self):
        """end of a path: collect the children, report to the parent"""
        if self.held:
            TOKENS.release()
            self.held = False
        for r, pid in self.pending:
            self.gather(r, pid)
        self.pending = []
        if self.out is not None:
            code = 0
            try:
                with os.fdopen(self.out, "wb") as f:
                    f.write(pickle.dumps({k: getattr(self, k) for k in ("obs", "fails", "unsupported", "backend", "reached", "notes", "funcs",
                                                                       "bounded", "errors", "paths", "completed", "solver_time", "budget")}))
            except BaseException:
                code = 1
            os._exit(code)

    def obligation(self, name, status, backend=None):
        o = self.obs.setdefault(name, {"total": 0, "discharged": 0, "trivial": 0, "failed": 0, "unknown": 0})
        o["total"] += 1
        if status == "trivial":
            o["trivial"] += 1
            o["discharged"] += 1
        elif status == "discharged":
            o["discharged"] += 1
            self.backend[backend] = self.backend.get(backend, 0) + 1
        else:
            o[status] += 1

    def reach(self, name):
        self.reached[name] = self.reached.get(name, 0) + 1

    def discharge(self, vc, name, goal):
        ctx = vc.ctx
        t = time.time()
        left = self.deadline - t
        if left < 0:
            raise Budget("time budget of the harness exhausted")
        already = self.count(1)
        status, backend, model = solve.prove(ctx, goal, left, quick=already >= 3)
        self.solver_time += time.time() - t
        if os.environ.get("DV_TIMES"):
            with open(os.environ["DV_TIMES"], "a") as f:
                f.write(f"{time.time() - t:.2f} {self.h.name} / {name} {status} {backend}\n")
        if status == "proved":
            self.obligation(name, "discharged", backend)
            return
        self.obligation(name, "failed" if status == "sat" else "unknown")
        self.bump(1)
        if len(self.fails) < 40 and already < 8:
            self.fails.append({"name": name, "status": status, "backend": backend,
                               "inputs": extract(ctx, model) if model is not None else None,
                               "choices": {n: p for n, k, p in ctx.inputs if k == "choice"},
                               "abstract": ctx.abstract})
        raise Abort("obligation failed")

    def exists_one(self, vc, name, thunks):
        """tries the alternatives; each is a thunk raising NotProved"""
        raise Unsupported("exists_one")

    def explore(self, max_paths=20000):
        stack = [[]]
        self.max_paths = max_paths
        while stack:
            prefix = stack.pop()
            ctx = Ctx(prefix, self.opts, self.deadline)
            if self.forking:
                ctx.run = self
            core.B = ctx
            vc = SymVC(ctx, self)
            self.paths += 1
            try:
                self.h.fn(vc)
                self.completed += 1
            except Abort:
                pass
            except Unsupported as e:
                self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
                if os.environ.get("DV_DEBUG"):
                    traceback.print_exc()
            except Budget as e:
                self.budget = str(e)
                stack = None
            except RepoExc as e:
                self.errors.append(f"{type(e.inner).__name__}: {e.inner}")
            except Exception as e:
                self.errors.append("".join(traceback.format_exception(e))[-1500:])
                if os.environ.get("DV_DEBUG"):
                    traceback.print_exc()
            except BaseException as e:
                if self.out is None:
                    raise
                self.errors.append(repr(e))
            self.notes |= ctx.notes
            self.funcs |= ctx.reached
            self.bounded |= ctx.bounded
            self.solver_time += ctx.solver_time
            if self.forking:
                self.finish()
                break
            if stack is None:
                break
            cs = [c for c, _ in ctx.trace]
            for pos in range(len(prefix), len(ctx.trace)):
                c, alts = ctx.trace[pos]
                if alts is None:
                    continue
                for a in alts:
                    if a != c:
                        stack.append(cs[:pos] + [a])
            if self.paths >= max_paths:
                self.budget = f"more than {max_paths} paths"
                break
            if time.time() > self.deadline:
                if stack:
                    self.budget = "time budget of the harness exhausted"
                break
        core.B = None
        return self

    def result(self):
        return {"name": self.h.name, "bound": self.h.bound, "obs": self.obs, "fails": self.fails,
                "unsupported": self.unsupported, "paths": self.paths, "completed": self.completed,
                "notes": sorted(self.notes), "funcs": sorted(self.funcs), "backend": self.backend,
                "solver_time": round(self.solver_time, 3), "budget": self.budget, "errors": self.errors[:5],
                "reached": self.reached, "bounded": sorted(self.bounded)}


def num(model, v):
    r = model.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        f = r.as_fraction()
        x = float(f)
        return x
    if z3.is_algebraic_value(r):
        f = r.approx(30)
        return float(f.as_fraction())
    raise ValueError(f"no value for {v}")


def fval(model, f):
    t = lambda b: b if isinstance(b, bool) else z3.is_true(model.eval(b, model_completion=True))
    if t(f.nan):
        return float("nan")
    if t(f.pinf):
        return float("inf")
    if t(f.ninf):
        return float("-inf")
    if not core.is_z3(f.v):
        return float(f.v)
    return float(num(model, f.v))


def extract(ctx, model):
    """input values of a counter-model, or None"""
    out = {}
    old = core.B
    try:
        for name, kind, p in ctx.inputs:
            if kind == "real":
                out[name] = fval(model, p)
            elif kind == "int":
                out[name] = int(num(model, p))
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(p, model_completion=True))
            elif kind == "choice":
                out[name] = p
            elif kind == "array":
                shp, fn, dt = p
                shape = [n if isinstance(n, int) else int(num(model, n)) for n in shp]
                if any(n < 0 for n in shape) or rnp.prod(shape, dtype=float) > 4000:
                    return None
                vals_ = []
                for idx in rnp.ndindex(*shape):
                    e = fn(tuple(idx))
                    k = kind_of(e)
                    if k == "f":
                        vals_.append(fval(model, to_f(e)))
                    elif k == "i":
                        z = to_int(e)
                        vals_.append(z if isinstance(z, int) else int(num(model, z)))
                    else:
                        z = bz(e)
                        vals_.append(z if isinstance(z, bool) else z3.is_true(model.eval(z, model_completion=True)))
                out[name] = rnp.array(vals_, dtype=dt).reshape(shape)
    except (ValueError, z3.Z3Exception, OverflowError, ArithmeticError):
        return None
    finally:
        core.B = old
    return out

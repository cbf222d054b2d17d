"""Stand-ins for the parts of os, shutil, logging, tqdm, math and matplotlib
the repository uses: a ghost file system and recording drawing objects."""
import types, builtins, os as real_os
import numpy as rnp
import z3
from fractions import Fraction
from . import core, vals, arr, npshim
from .core import Unsupported, band, bor, bnot
from .vals import SymNum, SymBool, mkint, mkfloat, to_f, F, raise_np
from .arr import SymArray, MaskSel
from .npshim import guard, NP

T0, T1 = "\ue000", "\ue001"


# --- strings with rendered symbolic values ---------------------------------
def split_tokens(s):
    """list of literal pieces and token strings"""
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i] == T0:
            j = s.index(T1, i)
            if cur:
                out.append(cur)
                cur = ""
            out.append((s[i:j + 1],))
            i = j + 1
        else:
            cur += s[i]
            i += 1
    if cur:
        out.append(cur)
    return out


def has_token(s):
    return T0 in s


def tok_eq(a, b):
    """equality of two rendered values -> mixed bool"""
    if a == b:
        return True
    va, vb = core.B.cache.get(("tokval", a)), core.B.cache.get(("tokval", b))
    pa, pb = core.B.tokens.get(a), core.B.tokens.get(b)
    if va is None or vb is None or pa[0] != "fmt" or pb[0] != "fmt":
        raise Unsupported("comparison of rendered values")
    if pa[1] != pb[1] or va.kind != vb.kind:
        raise Unsupported("comparison of values rendered in different formats")
    if va.kind == "i" and pa[1] == "":
        return vals.bz(va == vb)
    same = vals.fsame(to_f(va), to_f(vb))
    if pa[1] in ("", "r"):
        return same
    # equal values render equally; unequal ones are assumed to differ
    core.B.notes.add("values rendered with a fixed number of decimals are taken to differ when unequal")
    return same


def str_eq(a, b):
    if a == b:
        return True
    if not has_token(a) and not has_token(b):
        return False
    pa, pb = split_tokens(a), split_tokens(b)
    if len(pa) != len(pb):
        # a rendered number against literal text
        return _lit_match(pa, pb)
    conds = []
    for x, y in zip(pa, pb):
        if isinstance(x, tuple) and isinstance(y, tuple):
            conds.append(tok_eq(x[0], y[0]))
        elif isinstance(x, str) and isinstance(y, str):
            if x != y:
                if any(isinstance(q, tuple) for q in pa + pb) and len(pa) > 1:
                    return _lit_match(pa, pb)
                return False
        else:
            return _lit_match(pa, pb)
    return band(*conds)


def _lit_match(pa, pb):
    """one side may be plain text: match integers rendered into it"""
    import re
    if any(isinstance(x, tuple) for x in pb):
        pa, pb = pb, pa
    if any(isinstance(x, tuple) for x in pb):
        # both contain tokens in different positions
        la = "".join(x if isinstance(x, str) else "" for x in pa)
        lb = "".join(x if isinstance(x, str) else "" for x in pb)
        if re.sub(r"[-0-9.()]", "", la) != re.sub(r"[-0-9.()]", "", lb):
            return False
        raise Unsupported("comparison of rendered strings")
    text = "".join(pb)
    pat, toks = "", []
    for x in pa:
        if isinstance(x, tuple):
            pat += r"(-?\d+(?:\.\d+)?)"
            toks.append(x[0])
        else:
            pat += re.escape(x)
    m = re.fullmatch(pat, text)
    if not m:
        if any(core.B.tokens[t][0] != "fmt" or core.B.tokens[t][2] not in "if" for t in toks):
            raise Unsupported("comparison of a rendered value with text")
        return False
    conds = []
    for t, g in zip(toks, m.groups()):
        v = core.B.cache.get(("tokval", t))
        if v is None:
            raise Unsupported("comparison of a rendered value with text")
        if v.kind == "i":
            conds.append("." not in g and vals.bz(v == int(g)))
        else:
            conds.append(vals.bz(v == float(g)))
    return band(*conds)


# --- dictionaries with symbolic keys -----------------------------------------
def key_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[key_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (SymNum, SymBool)) or isinstance(b, (SymNum, SymBool)):
        r = a == b
        return vals.bz(r) if not isinstance(r, bool) else r
    return builtins.bool(a == b)


class VDict:
    """insertion ordered dictionary whose keys may contain symbolic values"""

    _base = None

    def __init__(self, src=(), **kw):
        self._i = []
        self.update(src, **kw)

    def _find(self, k):
        for e in self._i:
            if e[0] is k or core.branch(key_eq(e[0], k)):
                return e
        if self._base is not None:
            v = self._base.lookup(self, k)
            if v is not None:
                self._i.append([k, v])
                return self._i[-1]
        return None

    def _closed(self):
        if self._base is not None:
            raise Unsupported("iteration over a dictionary with an arbitrary history")

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            raise vals.flag(KeyError(k))
        return e[1]

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is None:
            self._i.append([k, v])
        else:
            e[1] = v

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise vals.flag(KeyError(k))
        self._i.remove(e)

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[1]

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self._i.append([k, d])
            return d
        return e[1]

    def pop(self, k, *d):
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise vals.flag(KeyError(k))
        self._i.remove(e)
        return e[1]

    def update(self, src=(), **kw):
        if hasattr(src, "items"):
            src = src.items()
        for k, v in src:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._closed()
        self._i.clear()

    def copy(self):
        self._closed()
        d = VDict()
        d._i = [[k, v] for k, v in self._i]
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        self._closed()
        import copy
        d = VDict()
        d._i = [[k, copy.deepcopy(v, memo)] for k, v in self._i]
        return d

    def keys(self):
        self._closed()
        return [k for k, _ in self._i]

    def values(self):
        self._closed()
        return [v for _, v in self._i]

    def items(self):
        self._closed()
        return [(k, v) for k, v in self._i]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        self._closed()
        return len(self._i)

    def __bool__(self):
        self._closed()
        return bool(self._i)

    def __eq__(self, o):
        raise Unsupported("comparison of dictionaries")

    __hash__ = None


class History:
    """contents of the dictionaries of one object after any number of
    operations: the same keys in all of them, arbitrary values"""

    def __init__(self, make):
        self.make = make
        self.seen = []

    def lookup(self, d, k):
        for e in self.seen:
            if core.branch(key_eq(e[0], k)):
                break
        else:
            e = [k, core.B.fresh_bool("stored"), {}]
            self.seen.append(e)
        if not core.branch(e[1]):
            return None
        if builtins.id(d) not in e[2]:
            e[2][builtins.id(d)] = self.make(len(self.seen), len(e[2]))
        return e[2][builtins.id(d)]

    def __deepcopy__(self, memo):
        return self


# --- ghost file system -------------------------------------------------------
class FS:
    def __init__(self):
        self.files = []          # [path, content]
        self.dirs = []           # normalised paths
        self.ops = []


def fs():
    if core.B.fs is None:
        core.B.fs = FS()
    return core.B.fs


def norm(p):
    if not isinstance(p, str):
        raise Unsupported("path that is not a string")
    if has_token(p):
        parts = p.split("/")
        parts = [x for i, x in enumerate(parts) if x not in (".",) and (x or i == 0)]
        return "/".join(parts)
    return real_os.path.normpath(p)


def parent(p):
    i = p.rfind("/")
    if i < 0:
        return "."
    return p[:i] or "/"


def find_dir(p):
    if p in (".", "/", ""):
        return p
    for d in fs().dirs:
        if d == p or core.branch(str_eq(d, p)):
            return d
    return None


def find_file(p):
    for e in fs().files:
        if e[0] == p or core.branch(str_eq(e[0], p)):
            return e
    return None


def os_exists(p):
    p = norm(p)
    return find_dir(p) is not None or find_file(p) is not None


def os_isdir(p):
    return find_dir(norm(p)) is not None


def os_isfile(p):
    return find_file(norm(p)) is not None


def os_mkdir(p, mode=0o777):
    p = norm(p)
    if find_dir(p) is not None or find_file(p) is not None:
        raise FileExistsError(17, "File exists", p)
    if find_dir(parent(p)) is None:
        raise FileNotFoundError(2, "No such file or directory", p)
    fs().dirs.append(p)
    fs().ops.append(("mkdir", p))


def os_makedirs(p, mode=0o777, exist_ok=False):
    p = norm(p)
    if find_dir(p) is not None:
        if exist_ok:
            return
        raise FileExistsError(17, "File exists", p)
    if find_dir(parent(p)) is None:
        os_makedirs(parent(p), exist_ok=True)
    os_mkdir(p)


def under(p, d):
    """is p strictly below directory d (paths built from d share its text)"""
    return p.startswith(d + "/")


def os_listdir(p="."):
    p = norm(p)
    d = find_dir(p)
    if d is None:
        raise FileNotFoundError(2, "No such file or directory", p)
    out = []
    for x in [e[0] for e in fs().files] + fs().dirs:
        if parent(x) == d or (has_token(parent(x)) and core.branch(str_eq(parent(x), d))):
            out.append(x[len(parent(x)) + 1:] if parent(x) != "." else x)
    return out


def os_remove(p):
    p = norm(p)
    e = find_file(p)
    if e is None:
        raise FileNotFoundError(2, "No such file or directory", p)
    fs().files.remove(e)
    fs().ops.append(("remove", p))


def rmtree(p, ignore_errors=False, onerror=None):
    p = norm(p)
    d = find_dir(p)
    if d is None:
        if ignore_errors:
            return
        raise FileNotFoundError(2, "No such file or directory", p)
    f = fs()
    f.files = [e for e in f.files if not under(e[0], d)]
    f.dirs = [x for x in f.dirs if x != d and not under(x, d)]
    f.ops.append(("rmtree", d))


def os_rename(a, b):
    a, b = norm(a), norm(b)
    e = find_file(a)
    if e is not None:
        o = find_file(b)
        if o is not None:
            fs().files.remove(o)
        e[0] = b
        return
    d = find_dir(a)
    if d is None:
        raise FileNotFoundError(2, "No such file or directory", a)
    if find_dir(b) is not None:
        raise Unsupported("rename onto an existing directory")
    f = fs()
    for e in f.files:
        if under(e[0], d):
            e[0] = b + e[0][len(d):]
    f.dirs = [b + x[len(d):] if (x == d or under(x, d)) else x for x in f.dirs]


def freeze(x):
    import copy
    if isinstance(x, (SymArray, MaskSel)):
        return x.copy()
    if isinstance(x, (list, tuple)) or vals.isnum(x):
        return npshim.f_array(x)
    if isinstance(x, rnp.ndarray):
        return npshim.as_arr(x)
    # arbitrary objects are pickled
    return ("pickle", copy.deepcopy(x))


def np_save(file, a, allow_pickle=True, fix_imports=True):
    p = norm(file)
    if not p.endswith(".npy"):
        p += ".npy"
    if find_dir(parent(p)) is None:
        raise FileNotFoundError(2, "No such file or directory", p)
    if find_dir(p) is not None:
        raise IsADirectoryError(21, "Is a directory", p)
    c = freeze(a)
    e = find_file(p)
    if e is None:
        fs().files.append([p, c])
    else:
        e[1] = c
    fs().ops.append(("save", p))


def np_load(file, mmap_mode=None, allow_pickle=False, **k):
    import copy
    p = norm(file)
    e = find_file(p)
    if e is None:
        raise FileNotFoundError(2, "No such file or directory", p)
    c = e[1]
    if isinstance(c, tuple):
        if not allow_pickle:
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        o = copy.deepcopy(c[1])
        return SymArray((), lambda i: o, object)
    if c.dtype.kind == "O" and not allow_pickle:
        raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
    return c.copy()


NP.save = np_save
NP.load = np_load


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


def mod(name, **k):
    m = Mod(name)
    for a, b in k.items():
        setattr(m, a, b)
    return m


def p_join(*a):
    r = a[0]
    for x in a[1:]:
        r = x if x.startswith("/") else (r + x if r.endswith("/") else r + "/" + x)
    return r


OSPATH = mod("os.path", exists=os_exists, isdir=os_isdir, isfile=os_isfile, join=p_join, normpath=norm,
             basename=lambda p: p[p.rfind("/") + 1:], dirname=lambda p: p[:p.rfind("/")] if "/" in p else "", sep="/",
             lexists=os_exists)


class DirEntry:
    def __init__(self, d, n):
        self.name = n
        self.path = p_join(d, n)

    def is_dir(self):
        return os_isdir(self.path)

    def is_file(self):
        return os_isfile(self.path)


class ScanDir(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


OS = mod("os", path=OSPATH, mkdir=os_mkdir, makedirs=os_makedirs, listdir=os_listdir, remove=os_remove,
         unlink=os_remove, rename=os_rename, replace=os_rename, sep="/", linesep="\n",
         scandir=lambda p=".": ScanDir(DirEntry(p, n) for n in os_listdir(p)))
SHUTIL = mod("shutil", rmtree=rmtree)


# --- logging and progress -----------------------------------------------------
class Logger:
    """swallows everything, rendering included"""

    def __init__(self, name=None):
        self.name = name
        self.handlers = []
        self.propagate = True
        self.level = 0

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers.remove(h)

    def hasHandlers(self):
        return bool(self.handlers)

    def isEnabledFor(self, l):
        return True

    def _m(self, *a, **k):
        return None

    debug = info = warning = error = critical = exception = log = _m


class Handler(Logger):
    def __init__(self, *a, **k):
        super().__init__()

    def setFormatter(self, f):
        pass


LOGGING = mod("logging", DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, NOTSET=0,
              getLogger=lambda name=None: Logger(name), Formatter=lambda *a, **k: None,
              StreamHandler=Handler, NullHandler=Handler, Handler=Handler, Logger=Logger,
              basicConfig=lambda **k: None,
              **{n: (lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "critical")})
TQDM = mod("tqdm", tqdm=lambda it=None, *a, **k: it, trange=None)


# --- math -----------------------------------------------------------------------
def m1(u):
    def f(x):
        r = NP.__dict__[u](x)
        return vals.retag(r, float) if isinstance(r, (SymNum,)) else float(r)
    return f


def m_sqrt(x):
    if core.branch(vals.vlt(to_f(x).v, 0)):
        raise ValueError("math domain error")
    return m1("sqrt")(x)


def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    raise Unsupported("math.isclose")


class _Math(Mod):
    def __getattr__(self, n):
        if n == "pi":
            return NP.pi
        return Mod.__getattr__(self, n)


MATH = _Math("math")
for _n, _f in dict(sqrt=m_sqrt, sin=m1("sin"), cos=m1("cos"), tan=m1("tan"), atan=m1("arctan"),
                   atan2=lambda y, x: vals.retag(NP.arctan2(y, x), float), hypot=lambda a, b: vals.retag(NP.hypot(a, b), float),
                   radians=m1("deg2rad"), degrees=m1("rad2deg"), fabs=m1("absolute"),
                   isnan=lambda x: vals.mkbool(to_f(x).nan), isinf=lambda x: vals.mkbool(to_f(x).isinf),
                   isfinite=lambda x: vals.mkbool(to_f(x).fin), inf=float("inf"), nan=float("nan"),
                   isclose=m_isclose).items():
    setattr(MATH, _n, _f)


# --- matplotlib ------------------------------------------------------------------
def unit_circle():
    c = core.B.cache.get("unitcircle")
    if c is None:
        n = core.B.fresh_int("circle_vertices")
        core.B.fact(n >= 1)
        u = z3.Function("unit_circle_u", z3.IntSort(), z3.RealSort())
        v = z3.Function("unit_circle_v", z3.IntSort(), z3.RealSort())
        k = z3.Function("unit_circle_code", z3.IntSort(), z3.IntSort())
        c = core.B.cache["unitcircle"] = (n, u, v, k)
        core.B.notes.add("the vertices of matplotlib's unit circle path are arbitrary points (u_k, v_k)")
    n, u, v, k = c

    def el(idx):
        i, j = core.iz(idx[0]), idx[1]
        if isinstance(j, int):
            return mkfloat(F(u(i) if j == 0 else v(i)))
        return mkfloat(F(z3.If(j == 0, u(i), v(i))))
    return VPath(SymArray((n, 2), el, "float64"), SymArray((n,), lambda i: mkint(k(core.iz(i[0]))), "int64"))


class VPath:
    MOVETO, LINETO, CURVE3, CURVE4, CLOSEPOLY, STOP = 1, 2, 3, 4, 79, 0

    def __init__(self, vertices, codes=None, **k):
        self.vertices = npshim.f_array(vertices)
        self.codes = None if codes is None else npshim.f_array(codes)

    @classmethod
    def unit_circle(cls):
        return unit_circle()

    @classmethod
    def make_compound_path(cls, *ps):
        return VPath(NP.concatenate([p.vertices for p in ps]), NP.concatenate([p.codes for p in ps]))


class VPatch:
    def __init__(self, **kw):
        self._kw = kw
        unknown = set(kw) - {"facecolor", "fc", "edgecolor", "ec", "alpha", "lw", "linewidth", "color", "fill",
                             "linestyle", "ls", "zorder", "label", "antialiased", "hatch"}
        if unknown:
            raise Unsupported(f"patch keyword {unknown}")

    def get_alpha(self):
        return self._kw.get("alpha")

    def set_alpha(self, a):
        self._kw["alpha"] = a

    def get_facecolor(self):
        return self._kw.get("facecolor", self._kw.get("fc", self._kw.get("color")))

    def set_facecolor(self, c):
        self._kw["facecolor"] = c

    def set_edgecolor(self, c):
        self._kw["edgecolor"] = c

    def set_linewidth(self, c):
        self._kw["lw"] = c

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"patch attribute {n}")


class VEllipse(VPatch):
    def __init__(self, xy, width, height, angle=0, **kw):
        super().__init__(**kw)
        self.center, self.width, self.height, self.angle = xy, width, height, angle

    def get_path(self):
        return unit_circle()

    def get_center(self):
        return self.center


class VCircle(VEllipse):
    def __init__(self, xy, radius=5, **kw):
        super().__init__(xy, 2 * radius, 2 * radius, **kw)
        self._r = radius

    def get_radius(self):
        return self._r

    radius = property(get_radius)


class VPathPatch(VPatch):
    def __init__(self, path, **kw):
        super().__init__(**kw)
        self._path = path

    def get_path(self):
        return self._path


class VImage:
    def __init__(self, ax, data, kw):
        self.axes = ax
        self.kw = kw
        self._a = data.copy()

    def set_data(self, a):
        self._a = a.copy()

    def get_array(self):
        return self._a

    def get_extent(self):
        return list(self.kw["extent"])

    def get_clim(self):
        return (self.kw.get("vmin"), self.kw.get("vmax"))

    @property
    def origin(self):
        return self.kw.get("origin", "upper")

    @property
    def figure(self):
        return self.axes.figure

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"image attribute {n}")


class VLine:
    def __init__(self, ax, x, y):
        self.ax, self.x, self.y = ax, x, y

    def remove(self):
        for i, l in enumerate(self.ax._lines):
            if l is self:
                del self.ax._lines[i]
                return
        raise ValueError("list.remove(x): x not in list")

    def get_xdata(self):
        return [self.x]

    def get_ydata(self):
        return [self.y]


class VCanvas:
    def draw(self):
        pass

    draw_idle = draw

    def mpl_connect(self, *a):
        return 0


class VFigure:
    def __init__(self):
        self.canvas = VCanvas()


class VAxes:
    def __init__(self):
        self._lines = []
        self.patches = []
        self.images = []
        self.figure = VFigure()
        self.title = self.xlabel = self.ylabel = ""
        self.xlim = self.ylim = (0.0, 1.0)
        self.aspect = None
        self.xticks = None
        self.xticklabels = None

    @property
    def lines(self):
        return list(self._lines)

    def get_lines(self):
        return list(self._lines)

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def set_aspect(self, a, *x, **k):
        self.aspect = a

    def set_title(self, t, **k):
        self.title = t

    def get_title(self):
        return self.title

    def set_xlabel(self, t, **k):
        self.xlabel = t

    def get_xlabel(self):
        return self.xlabel

    def set_ylabel(self, t, **k):
        self.ylabel = t

    def get_ylabel(self):
        return self.ylabel

    def _lim(self, l, r):
        if r is None:
            l, r = l
        return (l, r)

    def set_xlim(self, l, r=None):
        self.xlim = self._lim(l, r)

    def set_ylim(self, l, r=None):
        self.ylim = self._lim(l, r)

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def imshow(self, data, **kw):
        im = VImage(self, data, kw)
        self.images.append(im)
        return im

    def plot(self, x, y, *a, **k):
        l = VLine(self, x, y)
        self._lines.append(l)
        return [l]

    def get_xticks(self):
        if self.xticks is None:
            v = z3.Function("xtick", z3.IntSort(), z3.RealSort())
            n = core.B.fresh_int("xticks")
            core.B.fact(n >= 0)
            self.xticks = SymArray((n,), lambda i: mkfloat(F(v(core.iz(i[0])))), "float64")
        return self.xticks.copy()

    def set_xticks(self, t, **k):
        self.xticks = npshim.f_array(t)

    def set_xticklabels(self, t, **k):
        self.xticklabels = t

    def get_xticklabels(self):
        return self.xticklabels

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"axes attribute {n}")


def _gca():
    a = core.B.cache.get("gca")
    if a is None:
        a = core.B.cache["gca"] = VAxes()
    return a


def _subplots(*a, **k):
    ax = VAxes()
    return ax.figure, ax


PLT = mod("matplotlib.pyplot", Axes=VAxes, gca=_gca, subplots=_subplots, colorbar=lambda *a, **k: None,
          show=lambda *a, **k: None, cm=mod("matplotlib.cm", get_cmap=lambda n=None, k=None: ("cmap", n, k)),
          Figure=VFigure, get_cmap=lambda n=None, k=None: ("cmap", n, k))
MPL = {
    "matplotlib": mod("matplotlib", pyplot=PLT, cm=PLT.cm),
    "matplotlib.pyplot": PLT,
    "matplotlib.cm": PLT.cm,
    "matplotlib.path": mod("matplotlib.path", Path=VPath),
    "matplotlib.patches": mod("matplotlib.patches", Ellipse=VEllipse, PathPatch=VPathPatch, Circle=VCircle, Patch=VPatch),
    "matplotlib.image": mod("matplotlib.image", AxesImage=VImage),
    "matplotlib.axes": mod("matplotlib.axes", Axes=VAxes),
    "matplotlib.backend_bases": mod("matplotlib.backend_bases", MouseEvent=object),
    "matplotlib.figure": mod("matplotlib.figure", Figure=VFigure),
}
MPL["matplotlib"].path = MPL["matplotlib.path"]
MPL["matplotlib"].patches = MPL["matplotlib.patches"]

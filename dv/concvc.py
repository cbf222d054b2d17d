"""Concrete mode: the same harness on the real code with sampled inputs (or
the inputs of a counter-model).  Used to replay counter-models and as a
bounded stand-in where the verifier cannot follow the code."""
import contextlib, os, sys, math, shutil, tempfile, builtins, io, traceback, warnings, logging, itertools, random, signal
import numpy as np
from .common import Outcome

REPO = os.environ.get("DV_REPO", "/repo")


class Discard(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, name, detail=""):
        self.name, self.detail = name, detail


class Escape(BaseException):
    """the code tried to write or delete outside the scratch directory"""


SCRATCH = None
_real = {}


def _inside(p):
    if SCRATCH is None or isinstance(p, int):
        return True
    try:
        q = os.path.realpath(os.fspath(p))
    except TypeError:
        return True
    return q == SCRATCH or q.startswith(SCRATCH + os.sep) or q in ("/dev/null",)


def _guard1(name, f):
    def g(p, *a, **k):
        if not _inside(p):
            raise Escape(f"{name} of {p!r} outside the scratch directory")
        return f(p, *a, **k)
    return g


def _guard2(name, f):
    def g(p, q, *a, **k):
        if not _inside(p) or not _inside(q):
            raise Escape(f"{name} of {p!r} to {q!r} outside the scratch directory")
        return f(p, q, *a, **k)
    return g


def install_guards():
    if _real:
        return
    for n in ("remove", "unlink", "rmdir", "mkdir", "makedirs", "removedirs", "truncate", "chmod"):
        _real[n] = getattr(os, n)
        setattr(os, n, _guard1("os." + n, getattr(os, n)))
    for n in ("rename", "replace", "renames"):
        _real[n] = getattr(os, n)
        setattr(os, n, _guard2("os." + n, getattr(os, n)))
    _real["rmtree"] = shutil.rmtree
    shutil.rmtree = _guard1("shutil.rmtree", shutil.rmtree)
    shutil.move = _guard2("shutil.move", shutil.move)
    _real["open"] = builtins.open

    def gopen(p, mode="r", *a, **k):
        if isinstance(mode, str) and any(c in mode for c in "wax+") and not _inside(p):
            raise Escape(f"open({p!r}, {mode!r}) outside the scratch directory")
        return _real["open"](p, mode, *a, **k)
    builtins.open = gopen
    io.open = gopen
    # nothing the code under test starts may touch the sandbox
    import subprocess

    def no(*a, **k):
        raise Escape("the code started a process")
    os.system = no
    subprocess.Popen = no


def setup():
    """once per worker process"""
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt  # noqa: imports before the guards
    install_guards()


REPO_MODULES = None
_code = {}


class _Finder:
    """imports the repository's modules, each compiled once per process but
    executed afresh for every run (no module state leaks between runs)"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in REPO_MODULES and path is None:
            import importlib.util
            return importlib.util.spec_from_loader(name, _Finder, origin=os.path.join(REPO, name + ".py"))
        return None

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(m):
        name = m.__spec__.name
        f = os.path.join(REPO, name + ".py")
        m.__file__ = f
        if name not in _code:
            with _real.get("open", open)(f, encoding="utf-8") as fh:
                _code[name] = compile(fh.read(), f, "exec", dont_inherit=True)
        exec(_code[name], m.__dict__)


def fresh_modules():
    global REPO_MODULES
    if REPO_MODULES is None:
        REPO_MODULES = {f[:-3] for f in os.listdir(REPO) if f.endswith(".py")}
        sys.meta_path.insert(0, _Finder)
    for n in REPO_MODULES:
        sys.modules.pop(n, None)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang("no answer after 30 s of processor time")


LONG = 20        # how much longer than the bound of the proof a sequence gets


class ConcreteVC:
    symbolic = False

    def __init__(self, rng, inputs=None, thorough=False, deep=False):
        self.rng = rng
        self.long = 0.5 if deep else 0.1 if thorough else 0.02
        self.given = inputs
        self.used = {}
        self.pool = []
        self.reached = {}
        self.checks = 0
        self.max_idx = 60 if not thorough else 400
        self.names = {}

    # --- modules -----------------------------------------------------------
    def mod(self, name):
        return __import__(name)

    np = np

    def axes(self):
        import matplotlib.pyplot as plt
        plt.close("all")
        fig, ax = plt.subplots()
        return ax

    # --- inputs --------------------------------------------------------------
    def _get(self, name, make):
        if name in self.used:
            k = 2
            while f"{name}~{k}" in self.used:
                k += 1
            name = f"{name}~{k}"
        if self.given is not None and name in self.given:
            v = self.given[name]
        else:
            v = make()
        self.used[name] = v
        return v

    def _rand(self, lo, hi, nan, inf):
        r = self.rng
        if nan and r.random() < 0.15:
            return float("nan")
        if inf and r.random() < 0.12:
            return r.choice([float("inf"), float("-inf")])
        k = r.random()
        if k < 0.15 and self.pool:
            x = r.choice(self.pool)
        elif k < 0.35:
            x = r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 0.25, -0.0])
        elif k < 0.5:
            c = [v for v in (lo, hi) if v is not None]
            x = float(r.choice(c)) if c else r.uniform(-2, 2)
        elif lo is not None and hi is not None:
            x = r.uniform(float(lo), float(hi)) if hi > lo else float(lo)
        elif lo is not None:
            x = float(lo) + r.choice([1, 10, 0.1]) * r.random()
        elif hi is not None:
            x = float(hi) - r.choice([1, 10, 0.1]) * r.random()
        else:
            x = r.choice([1, 10, 0.1, 100]) * r.uniform(-1, 1)
        if lo is not None and x < lo or hi is not None and x > hi:
            if lo is not None and hi is not None:
                x = r.uniform(float(lo), float(hi)) if hi > lo else float(lo)
            elif lo is not None:
                x = float(lo) + r.random()
            else:
                x = float(hi) - r.random()
        return float(x)

    def real(self, name, lo=None, hi=None, nan=False, inf=False, tag=float, lo_open=False, hi_open=False):
        v = float(self._get(name, lambda: self._rand(lo, hi, nan, inf)))
        if not math.isnan(v):
            if lo is not None and (v < lo or lo_open and v <= lo):
                raise Discard
            if hi is not None and (v > hi or hi_open and v >= hi):
                raise Discard
            if math.isfinite(v):
                self.pool.append(v)
        return tag(v)

    def int(self, name, lo=None, hi=None, tag=int, small=None):
        def mk():
            a = lo if lo is not None else (-4 if hi is None else hi - 6)
            b = hi if hi is not None else (a + (small or 7) if lo is not None else 6)
            if b < a:
                raise Discard
            if lo is not None and hi is not None and small and hi - lo > small:
                b = lo + small
            if b - a > 12 and self.rng.random() < 0.6:
                return int(self.rng.randint(a, a + 6))
            return int(self.rng.randint(int(a), int(b)))
        v = self._get(name, mk)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard
        return tag(int(v))

    def boolean(self, name, tag=bool):
        return tag(self._get(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[k]

    def array(self, name, shape, kind="f", nan=False, inf=False, lo=None, hi=None, small=None):
        shp = tuple(int(n) for n in shape)

        def mk():
            n = int(np.prod(shp)) if shp else 1
            if n > 100000:
                raise Discard
            if kind == "b":
                p = self.rng.choice([0.1, 0.5, 0.5, 0.9])
                return np.array([self.rng.random() < p for _ in range(n)], dtype=bool).reshape(shp)
            if kind == "i":
                a = lo if lo is not None else -4
                b = hi if hi is not None else a + 8
                return np.array([self.rng.randint(int(a), int(b)) for _ in range(n)], dtype=np.int64).reshape(shp)
            return np.array([self._rand(lo, hi, nan, inf) for _ in range(n)], dtype=float).reshape(shp)
        v = self._get(name, mk)
        v = np.array(v)
        if v.shape != shp:
            raise Discard
        if lo is not None and np.any(v < lo) or hi is not None and np.any(v > hi):
            raise Discard
        if v.dtype.kind == "f" and v.size < 50:
            self.pool.extend(float(x) for x in v.ravel() if math.isfinite(x))
        return v.copy()

    def seq(self, name, lo, hi, more=4):
        """length of a python sequence; sometimes longer than the proofs go"""
        def mk():
            if self.rng.random() < self.long:
                return self.rng.randint(0, hi - lo + LONG)
            return self.rng.randint(0, hi - lo + (0 if self.rng.random() < 0.7 else more))
        return lo + self._get(name, mk)

    # --- conditions ---------------------------------------------------------------
    def assume(self, c):
        if not bool(c):
            raise Discard

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def ite_(self, c, a, b):
        return a() if bool(c) else b()

    def eq_abs(self, a, b, scale, tol=None):
        a, b = float(a), float(b)
        return abs(a - b) <= (1e-9 if tol is None else tol) * max(abs(float(scale)), 1e-3) or a == b

    def real_is(self, name, value):
        """an input with a value the harness computed from other choices"""
        v = float(self._get(name, lambda: float(value)))
        if math.isfinite(v):
            self.pool.append(v)
        return v

    def isnan(self, x):
        return bool(np.isnan(x))

    def isinf(self, x):
        return bool(np.isinf(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def tol(self, a, b, tol=None):
        t = 1e-9 if tol is None else tol
        return t * max(abs(a), abs(b), 1e-3)

    def eq(self, a, b, tol=None):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a[()]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b[()]
        num = (int, float, np.integer, np.floating, bool, np.bool_)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
                return bool(a) == bool(b)
            fa, fb = float(a), float(b)
            if math.isnan(fa) or math.isnan(fb):
                return math.isnan(fa) and math.isnan(fb)
            if math.isinf(fa) or math.isinf(fb):
                return fa == fb
            return abs(fa - fb) <= self.tol(fa, fb, tol)
        r = a == b
        if isinstance(r, np.ndarray):
            return bool(r.all())
        return bool(r)

    def near(self, a, b, tol=1e-9):
        """within rounding of each other (never in the symbolic mode)"""
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= tol * max(abs(a), abs(b), 1.0)

    def ge0(self, x, scale=1):
        return float(x) >= -1e-9 * abs(float(scale))

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b or self.near(a, b)

    def lt(self, a, b):
        return bool(a < b)

    def branch(self, c):
        return bool(c)

    def known(self, c):
        return bool(c)

    def proves_all(self, shape, pred):
        return self.all_(shape, pred)

    # --- real-number helpers ----------------------------------------------------------
    def sqrt(self, x):
        return np.sqrt(x)

    def sin(self, x):
        return np.sin(x)

    def cos(self, x):
        return np.cos(x)

    def deg2rad(self, x):
        return np.deg2rad(x)

    def arctan2(self, y, x):
        return np.arctan2(y, x)

    pi = np.pi

    def npf(self, x):
        return np.float64(x)

    def abs(self, x):
        return abs(x)

    def fresh_real(self, name, cond=None):
        for _ in range(30):
            v = self._rand(None, None, False, False)
            if cond is None or bool(cond(v)):
                return v
        raise Discard

    # --- arrays -----------------------------------------------------------------------
    def is_array(self, a, ndim=None, kind=None):
        return isinstance(a, np.ndarray) and (ndim is None or a.ndim == ndim) and (kind is None or a.dtype.kind in kind)

    def at(self, a, idx):
        return a[idx]

    def dims(self, a):
        return a.shape

    def length(self, a):
        return len(a)

    def copy_array(self, a):
        return np.array(a)

    def shape_is(self, a, shape):
        return isinstance(a, np.ndarray) and a.shape == tuple(int(n) for n in shape)

    def mkarray(self, shape, f, dtype="float64"):
        shp = tuple(int(n) for n in shape)
        r = np.zeros(shp, dtype=dtype)
        for i in np.ndindex(*shp):
            r[i] = f(i)
        return r

    def pyarray(self, lst, dtype=None):
        return np.array(list(lst), dtype=dtype)

    def ravel(self, a):
        return a.ravel()

    def image_data(self, im):
        return np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)

    def line_data(self, l):
        return list(np.atleast_1d(l.get_xdata())), list(np.atleast_1d(l.get_ydata()))

    # --- calls --------------------------------------------------------------------------
    def call(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k), None)
        except Exception as e:
            return Outcome(False, None, e)

    def any_history(self, o, make, replay):
        replay()

    def contract(self, cls, name, stub):
        return False

    def setattr(self, o, n, v):
        return self.call(lambda: setattr(o, n, v))

    # --- file system -----------------------------------------------------------------------
    def tmpdir(self):
        n = "scratch"
        os.mkdir(n)
        return n

    def tmpdir2(self):
        n = "scratch2"
        os.mkdir(n)
        return n

    os = os

    def fs_files(self, d):
        return sorted(os.listdir(d))

    # --- obligations --------------------------------------------------------------------------
    def check(self, name, cond):
        self.checks += 1
        self.names[name] = self.names.get(name, 0) + 1
        if cond is None or not bool(cond):
            raise Failed(name)

    def lemma(self, name, cond):
        self.check(name, cond)

    def law(self, name, law, n):
        pass

    def math(self, name, law, *args):
        pass

    def fail(self, name):
        self.check(name, False)

    def forall(self, name, shape, body, extra=None):
        shp = [int(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        n = int(np.prod(shp))
        if n <= 0:
            return
        if n <= self.max_idx:
            idxs = list(np.ndindex(*shp))
        else:
            corners = list(itertools.product(*[sorted({0, k - 1, k // 2}) for k in shp]))
            idxs = corners[:self.max_idx // 2] + [tuple(self.rng.randrange(k) for k in shp) for _ in range(self.max_idx // 2)]
        self.reach(name)
        for i in idxs:
            try:
                body(tuple(int(k) for k in i) if len(shp) != 1 else int(i[0]))
            except Discard:
                pass

    def assume_all(self, shape, pred):
        shp = tuple(int(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        for i in np.ndindex(shp):
            self.assume(pred(i if len(i) != 1 else i[0]))

    def assume_pairs(self, n, pred):
        self.assume_all((n, n), pred)

    def scale(self, s, a, least):
        return s * a

    def recorded(self, a):
        return a

    def indices(self, shape):
        return list(np.ndindex(*[int(n) for n in shape]))

    def unsupported(self, why):
        pass

    def option(self, name, value):
        pass

    def all_(self, shape, pred):
        shp = [int(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        return all(bool(pred(i if len(shp) != 1 else i[0])) for i in np.ndindex(*shp))

    def any_(self, shape, pred):
        return not self.all_(shape, lambda i: not bool(pred(i)))

    def record(self, idx):
        pass

    def scope(self, name, body):
        try:
            body()
        except Discard:
            pass

    def reach(self, name):
        self.reached[name] = self.reached.get(name, 0) + 1

    def note(self, s):
        pass


def run_once(h, rng, inputs=None, thorough=False, deep=False):
    """-> (status, name, detail, inputs, checks, reached)
    status: pass / discard / fail"""
    global SCRATCH
    old = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix="dvrun-"))
    SCRATCH = d
    os.chdir(d)
    fresh_modules()
    vc = ConcreteVC(rng, inputs, thorough, deep)
    st, name, detail = "pass", None, ""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 30)
    try:
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
            h.fn(vc)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Discard:
        st = "discard"
    except Failed as e:
        st, name, detail = "fail", e.name, e.detail
    except Escape as e:
        st, name, detail = "fail", "stays inside its directory", str(e)
    except Hang as e:
        st, name, detail = "fail", "terminates", str(e)
    except Exception as e:
        st, name, detail = "fail", "harness runs", "".join(traceback.format_exception(e))[-1800:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(old)
        SCRATCH = None
        shutil.rmtree(d, ignore_errors=True)
    return st, name, detail, vc.used, vc.checks, vc.reached

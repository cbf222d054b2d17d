"""Loop contracts.

A loop with a symbolic number of iterations is verified by a rule the
specification gives for it; without a rule it is beyond the verifier
(Unsupported, the property then rests on its bounded part).

Cell rule (`for k in range(a, b)`), for loops that fill a grid cell by cell.
One arbitrary cell C is fixed for the whole proof.  The rule explores
 (1) an arbitrary iteration k other than the one of C, before or after it,
     in a state where every cell but C is arbitrary and every variable
     assigned in the loop has no known value; its obligation: C unchanged;
 (2) the iteration of C (if it is in the range) in such a state, then the
     code after the loop, again with every cell but C arbitrary;
 (3) if the iteration of C is not in the range: the code after the loop.
An iteration that leaves the loop early goes on in the state it left.

Invariant rule (`while test:` or a range): the invariant is an obligation at
the entry and after one arbitrary iteration started in an arbitrary state
with the invariant; the code after the loop continues in such a state with
the test false.  Variables assigned in the loop become arbitrary values of
their kind at the entry.

Whatever an iteration changes must be declared: a changed attribute, list,
dictionary or undeclared array is Unsupported."""
import ast, ctypes, sys, types
import z3
from . import core, vals, arr
from .core import Unsupported, Abort, band, bor, bnot, ieq, ile, ilt, iz, is_z3
from .vals import mkint, mkfloat, F, SymNum, SymBool, kind_of, to_int
from .arr import SymArray


class Poison:
    """a value an iteration may not use"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _die(self, *a, **k):
        raise Unsupported(f"{object.__getattribute__(self, '_n')} carries a value from one loop iteration to the next")

    def __getattr__(self, n):
        self._die()

    __setattr__ = __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _die
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __neg__ = __pos__ = __abs__ = __invert__ = _die
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = _die
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _die
    __hash__ = __str__ = __repr__ = __format__ = __index__ = __int__ = __float__ = _die


# --- the frame that executes the loop ------------------------------------------
def loop_frame():
    """the frame of the repository's function executing the loop"""
    from . import loader
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(loader.REPO + "/"):
            return f
        if "/dv/" not in fn and not fn.endswith("shims.py"):
            break
        f = f.f_back
    return None


TREES = {}


def loop_node(frame):
    """the loop statement the frame is about to iterate"""
    fn = frame.f_code.co_filename
    if fn not in TREES:
        TREES[fn] = ast.parse(open(fn, encoding="utf-8").read(), fn)
    line = frame.f_lineno
    best = None
    for n in ast.walk(TREES[fn]):
        if isinstance(n, (ast.For, ast.While)) and n.lineno <= line <= max(n.lineno, getattr(n, "iter", getattr(n, "test", n)).end_lineno):
            if best is None or n.lineno > best.lineno:
                best = n
    if best is None or frame.f_code.co_name.startswith("<"):
        raise Unsupported("loop with an unbounded number of iterations (no loop statement)")
    return best


def assigned(frame):
    """names assigned in the loop the frame is about to iterate"""
    best = loop_node(frame)
    names = set()
    for n in ast.walk(best):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            if not isinstance(n, ast.Lambda):
                raise Unsupported("definition inside a loop with a contract")
    return names


def set_locals(frame, values):
    loc = frame.f_locals
    loc.update(values)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def poison(frame, names, keep=()):
    set_locals(frame, {n: Poison(n) for n in names if n not in keep})


# --- what an iteration changes -------------------------------------------------
class Heap:
    """the mutable objects reachable from the frames of the code"""

    def __init__(self, frame, declared=()):
        self.seen = {}
        self.arrays = {}
        self.declared = {id(a.store) for a in declared}
        self.fs = fs_state()
        f = frame
        from . import loader
        while f is not None:
            if f.f_code.co_filename.startswith(loader.REPO + "/"):
                for v in f.f_locals.values():
                    self.add(v)
            f = f.f_back

    def add(self, root):
        todo = [root]
        while todo:
            v = todo.pop()
            if isinstance(v, (str, int, float, bool, type(None), types.FunctionType, types.ModuleType, type, SymNum, SymBool, Poison)) or is_z3(v):
                continue
            if isinstance(v, types.MethodType):
                todo.append(v.__self__)
                continue
            if id(v) in self.seen:
                continue
            s, more = self.shallow(v)
            if s is None:
                continue
            self.seen[id(v)] = (v, s)
            todo.extend(more)

    def shallow(self, v):
        if type(v) is SymArray:
            return (("array", id(v.store), v.store.version), []) if id(v.store) not in self.declared else (("declared", id(v.store)), [])
        if isinstance(v, (list, tuple)):
            return ("seq", [id(x) for x in v]), list(v)
        from . import shims
        if isinstance(v, dict):
            return ("dict", [(id(k) if not isinstance(k, str) else k, id(x)) for k, x in v.items()]), list(v.values())
        if isinstance(v, shims.VDict):
            items = list(v.items())
            return ("dict", [(str(type(k)), id(x)) for k, x in items]), [x for _, x in items]
        from . import vlist
        if isinstance(v, vlist.VList):
            return ("list", id(v), id(v.m), [id(x) for x in v.prefix], [id(x) for x in v.suffix]), v.prefix + v.suffix     # (its items: vlist.untouched)
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict) and not isinstance(v, type):
            return ("obj", [(k, id(x)) for k, x in d.items()]), list(d.values())
        return None, []

    def objects_unchanged(self, what="an iteration"):
        for v, s in list(self.seen.values()):
            if self.shallow(v)[0] != s:
                raise Unsupported(f"{what} changes {type(v).__name__} in a way no loop contract describes")

    def unchanged(self):
        self.objects_unchanged()
        if fs_state() != self.fs:
            raise Unsupported("an iteration changes files and no loop contract describes it")


def fs_state():
    fs = core.B.fs
    return None if fs is None else fs_version(fs)


def fs_version(fs):
    d = getattr(fs, "__dict__", None)
    if d is None:
        return id(fs)
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out.append((k, [(p, id(x)) for p, x in v.items()]))
        elif isinstance(v, list):
            out.append((k, [(id(x), tuple(id(e) for e in x) if isinstance(x, (list, tuple)) else x) for x in v]))
        else:
            out.append((k, id(v)))
    return out


# --- rules ----------------------------------------------------------------------
class Cells:
    """the cell rule: cell = index tuple of C (one index per nested loop),
    arrays(local variables) = the arrays the loops fill, ghosts = objects with .value that
    belong to C"""

    def __init__(self, vc, cell, arrays, ghosts=(), files=None):
        self.vc, self.cell, self.arrays, self.ghosts, self.files = vc, tuple(to_int(c) for c in cell), arrays, list(ghosts), files
        self.stack = []         # is the active iteration of this depth that of C?

    def havoc(self, arrays):
        done = set()
        for a in arrays:
            if id(a.store) in done:
                continue
            done.add(id(a.store))
            if a.vmap is not None:
                raise Unsupported("a loop fills a view")
            n = len(a.store.shape)
            if a.dtype.kind not in "fO":
                raise Unsupported("a loop fills an array of another kind")
            nm = core.B.name("other_cells")
            v = z3.Function(nm, *[z3.IntSort()] * n, z3.RealSort())
            u = z3.Function(nm + "_nan", *[z3.IntSort()] * n, z3.BoolSort())
            keep = lambda idx: band(*[ieq(i, c) for i, c in zip(idx, self.cell)])

            def val(idx, v=v, u=u):
                k = [iz(i) for i in idx]
                return mkfloat(F(v(*k), u(*k)))
            a.store.write(lambda idx: bnot(keep(idx)), val)

    def snapshot(self, arrays):
        return [(a, a.store, a.fnow()) for a in arrays], [g.value for g in self.ghosts]

    def same(self, what, snap, loc):
        """obligation: the cell C is as in the snapshot"""
        B = core.B
        now = self.arrays(loc)
        old, ghosts = snap
        if len(now) != len(old) or any(a is not b for a, (b, _, _) in zip(now, old)):
            raise Unsupported("an iteration replaces the array it fills")
        if any(a.store is not s for a, s, _ in old):
            raise Unsupported("an iteration replaces the contents it fills")
        self.vc.check(what + ": nothing recorded for the other cells", all(g.value is v for g, v in zip(self.ghosts, ghosts)))
        for a, _, f in old:
            rest = []
            for n in a.shp[len(self.cell):]:
                i = B.fresh_int("rest")
                B.assume(core.zb(band(ile(0, i), ilt(i, n))))
                rest.append(i)
            idx = self.cell + tuple(rest)
            B.record(idx)
            self.vc.check(what + ": an iteration leaves the other cells", self.vc.eq(a.at(idx), f(idx)))

    def run(self, frame, start, stop):
        B, vc = core.B, self.vc
        d = len(self.stack)
        if d >= len(self.cell):
            raise Unsupported("loops nested deeper than the cells")
        names = assigned(frame)
        c = self.cell[d]
        inside = all(self.stack)
        has = band(ile(start, c), ilt(c, stop)) if inside else False
        way = B.choice(2)
        if way == 0:
            k = B.fresh_int("iteration")
            B.assume(core.zb(band(ile(start, k), ilt(k, stop))))
            if inside:
                B.assume(core.zb(bnot(ieq(k, c))))
            if B.check_sat() == z3.unsat:
                raise Abort("no other iteration")
            if has is not False and core.branch(has) and core.branch(ilt(c, k)):
                # after the iteration of the cell
                yield from self.one(frame, names, c, True, False)
            yield from self.one(frame, names, k, False, True)
            raise Abort("an arbitrary iteration")
        if has is not False and core.branch(has):
            yield from self.one(frame, names, c, inside, False)
        poison(frame, names)
        self.havoc(self.arrays(frame.f_locals))

    def one(self, frame, names, k, focus, obligation):
        arrays = self.arrays(frame.f_locals)
        poison(frame, names)
        self.havoc(arrays)
        heap = Heap(frame, arrays)
        snap = self.snapshot(arrays)
        self.stack.append(focus)
        yield mkint(k)
        self.stack.pop()
        heap.unchanged()
        if obligation:
            self.same("loop", snap, frame.f_locals)


class Invariant:
    """the invariant rule for the loops of one function.

    inv(loc, mode): mode "entry", "assume" or "check"; loc: the local
    variables, at the entry those assigned in the loop"""

    def __init__(self, vc, inv, keep=()):
        self.vc, self.inv, self.keep = vc, inv, keep

    def arbitrary(self, loc, names):
        new = {}
        B = core.B
        for n in names:
            v = loc.get(n)
            if n not in loc:
                new[n] = Poison(n)
            elif isinstance(v, (bool, SymBool)):
                new[n] = vals.mkbool(B.fresh_bool(n), bool)
            elif isinstance(v, (int, vals.SymInt)) and not isinstance(v, bool):
                new[n] = mkint(B.fresh_int(n), int)
            elif isinstance(v, (float, vals.SymFloat)):
                new[n] = mkfloat(F(B.fresh_real(n), B.fresh_bool(n + "_nan")), float)
            elif type(v) is SymArray and v.ndim_ == 1 and v.dtype.kind == "f":
                m = B.fresh_int(n + "_length")
                B.fact(m >= 0)
                nm = B.name(n)
                r, u = z3.Function(nm, z3.IntSort(), z3.RealSort()), z3.Function(nm + "_nan", z3.IntSort(), z3.BoolSort())

                def elem(idx, r=r, u=u):
                    core.B.record((idx[0],))
                    return mkfloat(F(r(iz(idx[0])), u(iz(idx[0]))))
                new[n] = SymArray((m,), elem, v.dtype)
            else:
                new[n] = Poison(n)
        return new

    def run_while(self, frame):
        names = assigned(frame)
        self.inv({k: v for k, v in frame.f_locals.items() if k in names}, "entry")
        new = self.arbitrary(dict(frame.f_locals), names)
        set_locals(frame, new)
        self.inv(frame.f_locals, "assume")
        heap = Heap(frame)
        yield None
        heap.unchanged()
        self.inv(frame.f_locals, "check")
        raise Abort("one iteration")


def for_range(r, frame):
    """the iteration of a range under the rule in force, or None"""
    rule = core.B.opts.get("cells")
    if rule is None or frame is None or r.step != 1:
        return None
    return rule.run(frame, r.start, r.stop)


def while_loop():
    """iterates a while loop (see loader.Tr.visit_While)"""
    frame = loop_frame()
    rule = (core.B.opts.get("whiles") or {}).get(frame.f_code.co_name) if frame is not None else None
    if rule is None:
        for _ in range(core.B.opts.get("while", 200)):
            yield None
        raise Unsupported("while loop without an invariant")
    yield from rule.run_while(frame)

"""A list of symbolic length whose items all have the same form.

item(k) makes the k-th item (0 <= k < n).  The items may be read, not
changed: a change of one that was handed out is Unsupported.

`for x in L` (also through enumerate and tqdm) is verified by a rule chosen
from the form of the loop:
  append   a loop that does nothing but append one attribute of the item to a
           list: the list becomes the same list followed by these attributes;
  cells    a loop that stores into arrays with one entry per item: the cell
           rule of dv.loops for the item given as `cell`;
  fold     any other loop: each array it assigns is an accumulator, described
           by the specification's `fold`, x0 being its element at the entry:
           entry(array, idx, x0) what must hold there, state(array, k, idx,
           x0) its element before the item k, step(array, k, idx, x0, x)
           whether x describes it after this item.  The obligations: entry,
           and step after one arbitrary iteration started in state(k); the
           code after the loop continues with state(n).
An accumulator the description does not fit is Unsupported: then the
property rests on the harnesses with bounded lists."""
import ast
import z3
from . import core, vals, arr, loops
from .core import Unsupported, Abort, band, bor, bnot, ieq, ile, ilt, iz
from .vals import mkint, mkfloat, to_int
from .arr import SymArray


class Lazy:
    """an attribute of an item nobody may look at"""

    def __init__(self, name):
        object.__setattr__(self, "_lazy", name)

    def _die(self, *a, **k):
        raise Unsupported("an append loop looks at what it appends")

    def __getattr__(self, n):
        self._die()

    __setattr__ = __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __or__ = __ror__ = __and__ = __rand__ = _die
    __invert__ = __neg__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __str__ = __repr__ = __format__ = _die


class LazyItem:
    def __init__(self):
        object.__setattr__(self, "given", {})

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.given.setdefault(n, Lazy(n))

    def __setattr__(self, n, v):
        raise Unsupported("an append loop changes an item")


def sym(idx):
    return tuple(mkint(i) for i in idx)


class VList:
    """prefix + [item(m(k)) for k in range(n)] + suffix

    prefix and suffix are ordinary lists; m, the position in the original
    list, is the identity until an item is deleted"""

    def __init__(self, vc, n, item, fold=None, cell=None, prefix=(), suffix=(), root=None, m=None, custom=None):
        self.vc, self.n, self.fold, self.cell, self.prefix, self.suffix = vc, to_int(n), fold, cell, list(prefix), list(suffix)
        self.root = root if root is not None else self
        self.m = m or (lambda k: k)
        self.custom = custom
        if root is None:
            self.item, self.made = item, []

    def like(self, **k):
        d = dict(vc=self.vc, n=mkint(self.n), item=None, fold=self.fold, cell=self.cell, prefix=self.prefix, suffix=self.suffix, root=self.root, m=self.m, custom=self.custom)
        return VList(**{**d, **k})

    def plain(self):
        return not self.prefix and not self.suffix

    # --- reading ------------------------------------------------------------
    def vlen(self):
        return mkint(core.iadd(self.n, len(self.prefix) + len(self.suffix)))

    def __len__(self):
        raise Unsupported("length of a list of any length")

    def __bool__(self):
        return len(self.prefix) + len(self.suffix) > 0 or core.branch(ilt(0, self.n))

    def get(self, k):
        """the k-th of the items of one form"""
        k = k if core.is_z3(k) else to_int(k)
        return self.root.original(self.m(k))

    def original(self, k):
        core.B.record((k,))
        for j, o in self.made:
            if core.must(ieq(j, k)):
                return o
        x = self.item(mkint(k))
        self.made.append((k, x))
        h = loops.Heap(None)
        h.add(x)
        core.B.cache.setdefault("handed_out", []).append(h)
        return x

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo = i.start
            if i.stop is None and i.step is None and (lo is None or isinstance(lo, int) and lo == 0):
                return self.copy()
            if i.stop is None and i.step is None and isinstance(lo, int) and -len(self.suffix) <= lo < 0:
                return self.suffix[lo:]
            raise Unsupported("slice of a list of any length")
        if isinstance(i, int) and -len(self.suffix) <= i < 0:
            return self.suffix[i]
        k, p, w = self.where(i)
        return self.prefix[k] if p < 0 else self.suffix[k] if p > 0 else self.get(k)

    def where(self, i):
        """-> (position, -1 / 0 / 1: in the prefix / items / suffix, index in the whole list)"""
        i = to_int(i)
        n = to_int(self.vlen())
        if not core.branch(ile(0, i)):
            i = core.iadd(i, n)
        if not core.branch(band(ile(0, i), ilt(i, n))):
            raise IndexError("list index out of range")
        k = core.isub(i, len(self.prefix))
        for j in range(len(self.prefix)):
            if core.branch(ieq(i, j)):
                return j, -1, i
        for j in range(len(self.suffix)):
            if core.branch(ieq(k, core.iadd(self.n, j))):
                return j, 1, i
        return k, 0, i

    # --- changes ----------------------------------------------------------------
    def copy(self):
        return self.like()

    def append(self, x):
        self.suffix.append(x)

    def extend(self, l):
        if isinstance(l, VList):
            raise Unsupported("two lists of any length")
        self.suffix.extend(l)

    def __iadd__(self, l):
        self.extend(l)
        return self

    def __add__(self, l):
        if not isinstance(l, list):
            raise Unsupported("two lists of any length")
        r = self.copy()
        r.suffix.extend(l)
        return r

    def __radd__(self, l):
        if not isinstance(l, list):
            raise Unsupported("two lists of any length")
        return self.like(prefix=l + self.prefix)

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("deletion of a slice of a list of any length")
        k, p, _ = self.where(i)
        if p < 0:
            del self.prefix[k]
        elif p > 0:
            del self.suffix[k]
        else:
            m = self.m
            self.m = lambda j: m(core.iite(ilt(j, k), j, core.iadd(j, 1)))
            self.n = core.isub(self.n, 1)

    def pop(self, i=-1):
        x = self[i]
        del self[i]
        return x

    def _beyond(self, *a, **k):
        raise Unsupported("change of a list of any length")

    __setitem__ = __contains__ = __mul__ = __eq__ = __ne__ = __lt__ = __gt__ = _beyond
    insert = remove = sort = reverse = index = count = clear = _beyond
    __hash__ = None

    def _vlist_array(self):
        raise Unsupported("array of a list of any length")

    # --- loops ----------------------------------------------------------------
    def __iter__(self):
        for _, x in self.iterate():
            yield x

    def iterate(self):
        frame = loops.loop_frame()
        if frame is None:
            raise Unsupported("loop over a list of any length")
        node = loops.loop_node(frame)
        if not isinstance(node, ast.For):
            raise Unsupported("while loop over a list of any length")
        for x in ast.walk(node.iter):
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) or isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Attribute) or isinstance(x.func, ast.Name) and x.func.id in ("enumerate", "tqdm", "zip")):
                raise Unsupported("loop over something made of a list of any length")
        calls = [c for c in ast.walk(node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append"]
        stored = {t.value.id for t in ast.walk(node) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name)}
        per_item = {n for n in stored if type(frame.f_locals.get(n)) is SymArray and frame.f_locals[n].ndim_ and core.must(ieq(frame.f_locals[n].shp[0], self.n))}
        sets = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(node))
        if sets and self.custom is not None and self.plain():
            yield from self.changed(frame)
        elif calls:
            yield from self.appended(frame)
        elif per_item and self.cell is not None and self.plain():
            rule = loops.Cells(self.vc, (self.cell,), lambda loc, names=sorted(per_item): [loc[n] for n in names])
            for k in rule.run(frame, 0, self.n):
                yield k, self.get(k)
                untouched()
        else:
            yield from self.folded(frame, stored)

    def changed(self, frame):
        """a loop that changes objects: custom.entry(frame),
        custom.start(frame, k): the state before the item k,
        custom.done(frame, k): is it the state after this item?"""
        B, c = core.B, self.custom
        names = loops.assigned(frame)
        c.entry(frame)
        if B.choice(2) == 0:
            k = B.fresh_int("item")
            B.assume(core.zb(band(ile(0, k), ilt(k, self.n))))
            B.record((k,))
            if B.check_sat() == z3.unsat:
                raise Abort("no item")
            loops.poison(frame, names)
            c.start(frame, mkint(k))
            x = self.get(k)
            heap = loops.Heap(frame)
            yield mkint(k), x
            for o, a in c.changes(frame):
                v, s = heap.seen[id(o)]
                now = heap.shallow(o)[0]
                if s[0] != "obj" or [q for q in s[1] if q[0] != a] != [q for q in now[1] if q[0] != a]:
                    raise Unsupported("an iteration changes more than its contract says")
                heap.seen[id(o)] = (v, now)
            heap.unchanged()
            untouched()
            c.done(frame, mkint(k))
            self.vc.check("loop over all items: one iteration", True)
            raise Abort("an arbitrary iteration")
        loops.poison(frame, names)
        c.start(frame, mkint(self.n))

    def appended(self, frame):
        if not self.plain():
            raise Unsupported("append loop over a composed list")
        names = loops.assigned(frame)
        lists = {id(v): (n, v) for n, v in frame.f_locals.items() if type(v) is list}
        loops.poison(frame, names)
        before = {i: list(v) for i, (n, v) in lists.items()}
        heap = loops.Heap(frame)
        x = LazyItem()
        yield Lazy("index"), x
        grown = [(n, v) for i, (n, v) in lists.items() if len(v) != len(before[i])]
        if len(grown) != 1:
            raise Unsupported("append loop of another form")
        name, lst = grown[0]
        attr = [a for a, v in x.given.items() if lst and v is lst[-1]]
        old = before[id(lst)]
        if len(lst) != len(old) + 1 or len(attr) != 1 or any(p is not q for p, q in zip(lst, old)):
            raise Unsupported("append loop of another form")
        lst.pop()
        heap.unchanged()
        # nobody else may hold the list
        holders = sum(1 for v, _ in heap.seen.values() if v is not lst and any(y is lst for y in (v if isinstance(v, (list, tuple)) else getattr(v, "__dict__", {}).values())))
        f, n = frame, 0
        from . import loader
        while f is not None:
            if f.f_code.co_filename.startswith(loader.REPO + "/"):
                n += sum(1 for v in f.f_locals.values() if v is lst)
            f = f.f_back
        if holders or n != 1:
            raise Unsupported("append loop on a shared list")
        loops.poison(frame, names)
        loops.set_locals(frame, {name: VList(self.vc, mkint(self.n), lambda k: getattr(self.get(k), attr[0]), self.fold, self.cell, old)})

    def folded(self, frame, stored):
        B, vc = core.B, self.vc
        if self.suffix:
            raise Unsupported("loop over a composed list")
        names = loops.assigned(frame)
        targets = {x.id for x in ast.walk(loops.loop_node(frame).target) if isinstance(x, ast.Name)}
        loc = frame.f_locals
        accs = [n for n in loc if n in (names | stored) - targets and type(loc[n]) is SymArray]
        for j, x in enumerate(self.prefix):
            yield j, x
        loc = frame.f_locals
        if any(type(loc.get(n)) is not SymArray for n in accs):
            raise Unsupported("the accumulator of a loop changes its form")
        if self.fold is None or not accs:
            raise Unsupported("loop over a list of any length of another form")
        entry, state, step = self.fold
        stores = [id(loc[n].store) for n in accs]
        for v in loc.values():
            if type(v) is SymArray and not any(v is loc[n] for n in accs) and id(v.store) in stores:
                raise Unsupported("the accumulator of a loop is shared")
        if len(set(stores)) != len(stores) or any(loc[n].vmap is not None for n in accs):
            raise Unsupported("the accumulator of a loop is shared")
        heap = loops.Heap(frame)
        if any(s[0] == "array" and v.store is loc[n].store and v is not loc[n] for v, s in heap.seen.values() for n in accs):
            raise Unsupported("the accumulator of a loop is shared")

        def proved(what, a, pred):
            if not vc.proves_all(tuple(mkint(q) for q in a.shp), lambda idx: pred(tuple(to_int(i) for i in (idx if isinstance(idx, tuple) else (idx,))))):
                raise Unsupported(f"a loop over a list of any length: no invariant ({what})")
            vc.check(f"loop over all items: {what}", True)
        first = {}
        for n in accs:
            a = loc[n]
            first[n] = lambda idx, a=a, f=a.fnow(): arr.wrap(f(idx), a.dtype)
            proved(f"{n} at the entry", a, lambda idx, a=a, x0=first[n]: entry(a, sym(idx), x0(idx)))

        def arbitrary(k):
            new = {}
            for n in accs:
                a = loc[n]
                new[n] = SymArray(a.shp, lambda idx, a=a, k=k, x0=first[n]: state(a, mkint(k), sym(idx), x0(idx)), a.dtype)
            return new
        if B.choice(2) == 0:
            k = B.fresh_int("item")
            B.assume(core.zb(band(ile(0, k), ilt(k, self.n))))
            if B.check_sat() == z3.unsat:
                raise Abort("no item")
            new = arbitrary(k)
            loops.poison(frame, names - set(accs))
            loops.set_locals(frame, new)
            x = self.get(k)
            heap = loops.Heap(frame, list(new.values()))
            yield mkint(core.iadd(k, len(self.prefix))), x
            heap.unchanged()
            untouched()
            now = frame.f_locals
            for n in accs:
                a, b = new[n], now[n]
                if type(b) is not SymArray or b.dtype != a.dtype or len(b.shp) != len(a.shp) or b.vmap is not None:
                    raise Unsupported("the accumulator of a loop changes its form")
                if not all(core.must(ieq(p, q)) for p, q in zip(a.shp, b.shp)):
                    raise Unsupported("the accumulator of a loop changes its shape")
                f = b.fnow()
                proved(f"{n} after an iteration", b, lambda idx, a=a, b=b, f=f, x0=first[n]: step(a, mkint(k), sym(idx), x0(idx), arr.wrap(f(idx), b.dtype)))
            raise Abort("an arbitrary iteration")
        loops.poison(frame, names - set(accs))
        loops.set_locals(frame, arbitrary(self.n))


def untouched():
    """no item that was handed out has changed"""
    for h in core.B.cache.get("handed_out", []):
        h.objects_unchanged("the code")


class Items:
    """the rules for loops over arrays with one entry per item (option "items")"""

    def __init__(self, vc, n, cell=None, fold=None, custom=None):
        self.vc, self.n, self.cell, self.fold, self.custom = vc, to_int(n), cell, fold, custom


def over(arrays):
    """loop over (a zip of) arrays of symbolic length under the rules in
    force -> iterator of (index, items), or None"""
    rule = core.B.opts.get("items")
    if rule is None or not arrays or not all(type(a) is SymArray and a.ndim_ for a in arrays):
        return None
    if any(isinstance(core.isimp(a.shp[0]), int) or not core.must(ieq(a.shp[0], rule.n)) for a in arrays):
        return None
    if loops.loop_frame() is None:
        return None
    L = VList(rule.vc, mkint(rule.n), None, rule.fold, rule.cell, custom=rule.custom)
    L.get = lambda k: tuple(a[mkint(k) if core.is_z3(k) else k] for a in arrays)
    return L.iterate()

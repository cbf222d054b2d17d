"""C05: adding, removing and replacing rings."""
from dv.common import harness
from specs.ringlib import system, any_system, data_is, make_ring, ATTR

LEVEL = "other"
EXPLANATION = "contracts discharged path by path for arbitrary ring parameters; the number of rings is bounded per harness, so the harnesses are exhaustive only up to the stated bound"
FUN = ["RingSystem.RingSystem.add_ring", "RingSystem.RingSystem.remove_ring", "RingSystem.RingSystem.replace_ring",
       "RingSystem.RingSystem._prevent_ring_overlap", "RingSystem.RingSystem._override_ring_geometry"]
B = "systems of up to three rings (one edit of any such system, every value and index)"


def fits(vc, I, O, k, ring, replace):
    """the ring fits between its neighbours at position k"""
    c = []
    if k > 0:
        c.append(O[k - 1] <= ring.inner_radius)
    nxt = k + 1 if replace else k
    if nxt < len(I):
        c.append(ring.outer_radius <= I[nxt])
    return vc.and_(*c)


def edit(vc, s, m, op, index, ring, what):
    """one edit and its effect; m is the model of the system, updated"""
    I, O, T = m["I"], m["O"], m["T"]
    n = len(I)
    before = None
    if ring is not None:
        before = {a: getattr(ring, a) for a in ATTR}
    out = {"add": lambda: vc.call(s.add_ring, index, ring), "remove": lambda: vc.call(s.remove_ring, index),
           "replace": lambda: vc.call(s.replace_ring, index, ring)}[op]()
    top = n if op == "add" else n - 1
    valid = vc.and_(index >= 0, index <= top)
    if vc.branch(valid):
        k = 0
        while not vc.branch(index == k):
            k += 1
        ok = True if op == "remove" else fits(vc, I, O, k, ring, op == "replace")
    else:
        ok = False
    vc.check(what + "accepted exactly when the index exists and the ring fits", vc.iff(out.ok, ok))
    if out.ok:
        vc.reach(op + " accepted")
        I, O, T = list(I), list(O), list(T)
        if op == "add":
            I.insert(k, before["inner_radius"])
            O.insert(k, before["outer_radius"])
            T.insert(k, before["transmission"])
        elif op == "remove":
            del I[k], O[k], T[k]
        else:
            I[k], O[k], T[k] = before["inner_radius"], before["outer_radius"], before["transmission"]
        m = dict(m, I=I, O=O, T=T)
        data_is(vc, s, I, O, T, m, what + op)
    else:
        vc.reach(op + " refused")
        vc.check(what + "a refusal is a TypeError or ValueError", type(out.exc) in (TypeError, ValueError))
        data_is(vc, s, I, O, T, m, what + "refused " + op)
    return m


@harness(functions=FUN, bound=B, runs=600, weight=5)
def add(vc):
    s, m = system(vc, vc.seq("n", 0, 3))
    ring, _ = make_ring(vc, "r_")
    edit(vc, s, m, "add", vc.int("index", -3, 6) if not vc.symbolic else vc.int("index"), ring, "")


@harness(functions=FUN, bound=B, runs=400, weight=3)
def remove(vc):
    s, m = system(vc, vc.seq("n", 0, 3))
    edit(vc, s, m, "remove", vc.int("index", -3, 6) if not vc.symbolic else vc.int("index"), None, "")


@harness(functions=FUN, bound=B, runs=600, weight=5)
def replace(vc):
    s, m = system(vc, vc.seq("n", 0, 3))
    ring, _ = make_ring(vc, "r_")
    edit(vc, s, m, "replace", vc.int("index", -3, 6) if not vc.symbolic else vc.int("index"), ring, "")


def any_number(op):
    def f(vc):
        s, n, I, O, T, m = any_system(vc)
        rings = s.rings
        ring, before = make_ring(vc, "r_") if op != "remove" else (None, None)
        if ring is not None:
            before = {a: getattr(ring, a) for a in ATTR}
        index = vc.int("index")
        out = {"add": lambda: vc.call(s.add_ring, index, ring), "remove": lambda: vc.call(s.remove_ring, index),
               "replace": lambda: vc.call(s.replace_ring, index, ring)}[op]()
        ok = vc.and_(index >= 0, index <= (n if op == "add" else n - 1))
        if op != "remove" and vc.branch(ok):
            if vc.branch(index > 0):
                ok = vc.and_(ok, vc.at(O, index - 1) <= before["inner_radius"])
            nxt = index if op == "add" else index + 1
            if vc.branch(nxt < n):
                ok = vc.and_(ok, before["outer_radius"] <= vc.at(I, nxt))
        vc.check("accepted exactly when the index exists and the ring fits", vc.iff(out.ok, ok))
        if out.ok:
            count = {"add": n + 1, "remove": n - 1, "replace": n}[op]
        else:
            vc.check("a refusal is a TypeError or ValueError", type(out.exc) in (TypeError, ValueError))
            count = n
        vc.check("number of rings", vc.and_(s.get_num_rings() == count, vc.shape_is(s.rings, (count,))))

        def one(k):
            r = s.rings[k]
            j = k
            if out.ok and op != "remove" and vc.branch(k == index):
                vc.check("the given ring at its index", vc.and_(*[vc.eq(getattr(r, a), before[a]) for a in ATTR[:3]]))
            else:
                if out.ok and op == "add" and vc.branch(k > index):
                    j = k - 1
                if out.ok and op == "remove" and vc.branch(k >= index):
                    j = k + 1
                vc.record([j])
                vc.check("all other rings in order", vc.and_(*[vc.eq(getattr(r, a), vc.at(x, j)) for a, x in zip(ATTR, (I, O, T))]))
            vc.check("geometry of every ring", vc.and_(vc.eq(r.inclination, m["inc"]), vc.eq(r.tilt, m["tilt"])))
        vc.forall("rings", (count,), one)
        vc.check("geometry of the system", vc.and_(vc.eq(s.inclination, m["inc"]), vc.eq(s.tilt, m["tilt"]), vc.eq(s.planet_radius, m["planet"])))
        vc.items_untouched()
    f.__name__ = op + "_in_any_number"
    f.__globals__[f.__name__] = f
    harness(functions=FUN, conc=False, weight=3)(f)


for _op in ("add", "remove", "replace"):
    any_number(_op)


@harness(functions=FUN, bound="two edits of a one ring system", runs=300, weight=6)
def two_edits(vc):
    s, m = system(vc, 1)
    for k in range(2):
        op = vc.choice(f"op{k}", ["add", "remove", "replace"])
        ring = make_ring(vc, f"r{k}_", inc=False)[0] if op != "remove" else None
        m = edit(vc, s, m, op, vc.int(f"index{k}", -1, 3), ring, "")


@harness(functions=FUN, bound="two rings", runs=200, weight=2)
def wrong_kind(vc):
    s, m = system(vc, 2)
    op = vc.choice("op", ["add", "remove", "replace"])
    which = vc.choice("which", ["index", "ring"]) if op != "remove" else "index"
    bad = vc.choice("bad", ["text", "float", "none", "list"])
    b = {"text": "0", "float": vc.real("x"), "none": None, "list": [0]}[bad]
    ring, _ = make_ring(vc, "r_")
    index = 1
    if which == "index":
        index = b
    else:
        ring = b
    out = {"add": lambda: vc.call(s.add_ring, index, ring), "remove": lambda: vc.call(s.remove_ring, index),
           "replace": lambda: vc.call(s.replace_ring, index, ring)}[op]()
    vc.check("an argument of the wrong kind is refused", (not out.ok) and type(out.exc) in (TypeError, ValueError))
    data_is(vc, s, m["I"], m["O"], m["T"], m, "wrong kind")


@harness(functions=FUN, sym=False, runs=250, bound="concrete histories of up to ten edits of systems of up to six rings")
def history(vc):
    s, m = system(vc, vc.seq("n", 0, 6))
    other, mo = system(vc, 2, "other")
    for k in range(vc.seq("steps", 2, 10)):
        op = vc.choice(f"op{k}", ["add", "add", "remove", "replace"])
        n = len(m["I"])
        index = vc.int(f"index{k}", -1, n + 1)
        ring = None
        if op != "remove":
            lo = m["O"][index - 1] if 0 < index <= n else 0.05
            i = vc.real_is(f"i{k}", lo + vc.rng.choice([0, 0.1, -0.05]) * vc.rng.random() if vc.rng.random() < .8 else vc.rng.random() * 3)
            o = vc.real_is(f"o{k}", i + vc.rng.choice([0.01, 0.3, 1]) * vc.rng.random() + 1e-6)
            vc.assume(0 < i < o)
            ring = vc.mod("Ring").Ring(i, o, vc.real(f"t{k}", 0, 1), vc.real(f"inc{k}", 0, 90), vc.real(f"tilt{k}", -180, 180))
        m = edit(vc, s, m, op, index, ring, "")
    data_is(vc, other, mo["I"], mo["O"], mo["T"], mo, "another system")

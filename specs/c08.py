"""C08: a ring system mirrors its arrays and is drawn completely."""
import numpy as np
from dv.common import harness
from specs.ringlib import system, data_is, check_annulus, face_is, ordered_arrays, any_system, ATTR

LEVEL = "other"
EXPLANATION = "contracts discharged path by path for arbitrary ring parameters; the number of rings is bounded per harness, so the harnesses are exhaustive only up to the stated bound"
FUN = ["RingSystem.RingSystem.__init__", "RingSystem.RingSystem._set_rings", "RingSystem.RingSystem.get_*"]
PLOT = ["RingSystem.RingSystem.plot", "RingSystem.RingSystem._get_patches", "Ring.Ring.get_patch"]


@harness(functions=FUN, bound="up to two rings", runs=800, weight=5)
def construct(vc):
    RS = vc.mod("RingSystem").RingSystem
    n = vc.seq("n", 0, 2)
    free = not vc.symbolic and vc.choice("spread", [False, True, True])
    I = [vc.real(f"in{k}", nan=True, inf=True) if not free else vc.real(f"in{k}", 0, 2) for k in range(n)]
    O = [vc.real(f"out{k}", nan=True, inf=True) if not free else vc.real(f"out{k}", 1, 3) for k in range(n)]
    T = [vc.real(f"tr{k}", nan=True, inf=True) if not free else vc.real(f"tr{k}", 0, 1) for k in range(n)]
    if free:
        p, inc, tilt = vc.real("p", 0), vc.real("inc", 0, 90), vc.real("tilt", -180, 180)
    else:
        p, inc, tilt = vc.real("p", nan=True, inf=True), vc.real("inc", nan=True), vc.real("tilt", nan=True)
    for k in range(n):
        vc.assume(vc.or_(vc.not_(I[k] == 0), O[k] > 1e-9, O[k] <= 0, vc.isnan(O[k])))
    ok = vc.and_(p >= 0, 0 <= inc, inc <= 90, -180 <= tilt, tilt <= 180,
                 *[vc.and_(0 <= I[k], I[k] < O[k], vc.finite(O[k]), 0 <= T[k], T[k] <= 1) for k in range(n)])
    out = vc.call(RS, p, vc.pyarray(I, "float64"), vc.pyarray(O, "float64"), vc.pyarray(T, "float64"), inc, tilt, 50)
    vc.check("a system is made exactly from physically valid values", vc.iff(out.ok, ok))
    if out.ok:
        vc.reach("made")
        m = {"planet": p, "inc": inc, "tilt": tilt}
        Z = [vc.ite(i == 0, vc.at(out.value.get_inner_radii(), k), i) for k, i in enumerate(I)]
        for k, i in enumerate(I):
            vc.check("an inner radius of zero becomes tiny", vc.implies(i == 0, vc.and_(Z[k] > 0, Z[k] <= 1e-9)))
        data_is(vc, out.value, Z, O, T, m, "constructed")


class Rings:
    """the constructor's loop: before the item k there are k rings, ring j
    with the j-th values, which are valid (see Ring, C03)"""

    def __init__(self, vc, I, O, T, m):
        self.vc, self.values, self.m = vc, (I, O, T), m

    def system(self, frame):
        l = [o for o in frame.f_locals.values() if isinstance(o, self.vc.mod("RingSystem").RingSystem)]
        if len(l) != 1 or not self.vc.is_array(getattr(l[0], "rings", None), 1, "O"):
            self.vc.unsupported("the rings are stored in another way")
        return l[0]

    def changes(self, frame):
        return [(self.system(frame), "rings")]

    def valid(self, k):
        vc = self.vc
        i, o, t = [vc.at(x, k) for x in self.values]
        return vc.and_(0 <= i, i < o, vc.finite(o), 0 <= t, t <= 1)

    def entry(self, frame):
        self.vc.prove_or_stop(self.vc.shape_is(self.system(frame).rings, (0,)), "rings before the loop")

    def start(self, frame, k):
        vc, s = self.vc, self.system(frame)
        Ring = vc.mod("Ring").Ring

        def item(j):
            vc.record([j])
            vc.assume(self.valid(j))
            return Ring(*[vc.at(x, j) for x in self.values], self.m["inc"], self.m["tilt"])
        vc.assume_all((k,), self.valid)
        s.rings = vc.objects(k, item)

    def done(self, frame, k):
        vc, s = self.vc, self.system(frame)
        vc.prove_or_stop(vc.shape_is(s.rings, (k + 1,)), "number of rings after an iteration")
        vc.prove_or_stop(self.valid(k), "values of a ring that was made")
        r = s.rings[k]
        if not isinstance(r, vc.mod("Ring").Ring):
            vc.unsupported("something else than a ring is stored")
        i, o, t = [vc.at(x, k) for x in self.values]
        vc.prove_or_stop(vc.and_(vc.implies(vc.not_(i == 0), vc.eq(r.inner_radius, i)), vc.implies(i == 0, vc.and_(r.inner_radius > 0, r.inner_radius <= 1e-9)),
                                 vc.eq(r.outer_radius, o), vc.eq(r.transmission, t), vc.eq(r.inclination, self.m["inc"]), vc.eq(r.tilt, self.m["tilt"])),
                         "values of the new ring")
        j = vc.int("older ring", 0, k - 1)
        if vc.branch(j < k):
            vc.record([j])
            p = s.rings[j]
            vc.prove_or_stop(vc.and_(*[vc.eq(getattr(p, a), w) for a, w in zip(ATTR[1:], [vc.at(self.values[1], j), vc.at(self.values[2], j), self.m["inc"], self.m["tilt"]])],
                                     vc.implies(vc.not_(vc.at(self.values[0], j) == 0), vc.eq(p.inner_radius, vc.at(self.values[0], j))),
                                     vc.implies(vc.at(self.values[0], j) == 0, vc.and_(p.inner_radius > 0, p.inner_radius <= 1e-9))), "values of an older ring")


@harness(functions=FUN, conc=False, weight=3)
def construct_any_number(vc):
    RS = vc.mod("RingSystem").RingSystem
    n = vc.int("number", 0)
    I, O, T = [vc.array(x, (n,), nan=True, inf=True) for x in ("inner", "outer", "transmission")]
    p, inc, tilt = vc.real("p", 0), vc.real("inc", 0, 90), vc.real("tilt", -180, 180)
    vc.assume_all((n,), lambda k: vc.or_(vc.not_(vc.at(I, k) == 0), vc.at(O, k) > 1e-9, vc.at(O, k) <= 0, vc.isnan(vc.at(O, k))))
    m = {"planet": p, "inc": inc, "tilt": tilt}
    rule = Rings(vc, I, O, T, m)
    vc.items(n, custom=rule)
    out = vc.call(RS, p, I, O, T, inc, tilt, 50)
    vc.check("a system is made exactly from physically valid values", vc.iff(out.ok, vc.all_((n,), rule.valid)))
    if out.ok:
        vc.reach("made")
        s = out.value
        vc.check("one ring per entry", vc.and_(s.get_num_rings() == n, vc.shape_is(s.rings, (n,))))

        def one(k):
            r = s.rings[k]
            i = vc.at(I, k)
            vc.check("inner radius of every ring", vc.ite_(i == 0, lambda: vc.and_(r.inner_radius > 0, r.inner_radius <= 1e-9), lambda: vc.eq(r.inner_radius, i)))
            vc.check("outer radius and transmission of every ring", vc.and_(vc.eq(r.outer_radius, vc.at(O, k)), vc.eq(r.transmission, vc.at(T, k))))
            vc.check("geometry of every ring", vc.and_(vc.eq(r.inclination, inc), vc.eq(r.tilt, tilt)))
        vc.forall("rings", (n,), one)
        vc.check("geometry of the system", vc.and_(vc.eq(s.inclination, inc), vc.eq(s.tilt, tilt), vc.eq(s.planet_radius, p)))


@harness(functions=FUN, conc=False, weight=3)
def accessors_of_any_number(vc):
    s, n, I, O, T, m = any_system(vc)
    K = vc.int("one of them", 0, n - 1)
    vc.items(n, cell=K)
    form = vc.choice("read", ["inner", "outer", "transmissions", "all"])
    if form == "all":
        got = s.get_rings_data()
        want = (I, O, T)
    else:
        got = ({"inner": s.get_inner_radii, "outer": s.get_outer_radii, "transmissions": s.get_transmissions}[form](),)
        want = ({"inner": I, "outer": O, "transmissions": T}[form],)
    for g, w in zip(got, want):
        vc.check("an array of numbers, one per ring", vc.is_array(g, 1, "f") and vc.shape_is(g, (n,)))
        vc.check("the value of every ring", vc.eq(vc.at(g, K), vc.at(w, K)))
    vc.items_untouched()


@harness(functions=FUN, bound="up to three rings", runs=400, weight=3)
def inconsistent(vc):
    RS = vc.mod("RingSystem").RingSystem
    n = vc.seq("n", 1, 3)
    I, O, T = ordered_arrays(vc, n)
    arrs = [vc.pyarray(a, "float64") for a in (I, O, T)]
    which = vc.choice("which", [0, 1, 2])
    bad = vc.choice("bad", ["length", "ints", "twodim", "list", "none", "number"])
    if bad == "length":
        x = vc.int("len", 0, small=5)
        vc.assume(x != n)
        arrs[which] = vc.array("a", (x,), lo=0, hi=1)
    elif bad == "ints":
        arrs[which] = vc.array("a", (n,), kind="i", lo=0, hi=1)
    elif bad == "twodim":
        arrs[which] = vc.array("a", (n, 1), lo=0, hi=1)
    else:
        arrs[which] = {"list": (I, O, T)[which], "none": None, "number": vc.real("x", 0, 1)}[bad]
    out = vc.call(RS, 1.0, *arrs, 10.0, 20.0, 50)
    vc.check("inconsistent arrays are refused", not out.ok)


@harness(functions=FUN, bound="up to three rings", runs=200, weight=3)
def independent(vc):
    """changing the constructor arrays or the returned arrays changes nothing"""
    n = vc.seq("n", 1, 3)
    s, m = system(vc, n)
    for g in (s.get_inner_radii, s.get_outer_radii, s.get_transmissions):
        a = g()
        a[0] = 77.0
    for a in s.get_rings_data():
        a[n - 1] = 55.0
    data_is(vc, s, m["I"], m["O"], m["T"], m, "after changing results")


@harness(functions=PLOT, bound="one to three rings", runs=150, weight=6)
def plot(vc):
    n = vc.seq("n", 1, 3)
    s, m = system(vc, n)
    ax = vc.axes()
    if vc.symbolic:
        xs, ys = vc.real("xs"), vc.real("ys")
    else:
        xs, ys = vc.real("xs", -50, 50), vc.real("ys", -50, 50)
        vc.assume(m["planet"] < 1000)
    colour = vc.choice("colour", ["black", "green"])
    form = vc.choice("form", ["all", "default"])
    if form == "all":
        out = vc.call(s.plot, ax, xs, ys, colour)
    else:
        xs, ys, colour = 0, 0, "black"
        out = vc.call(s.plot, ax)
    vc.check("plotting succeeds", out.ok)
    vc.check("the given axes are returned", out.value is ax)
    P = list(ax.patches)
    vc.check("the planet and one patch per ring are drawn", len(P) == n + 1)
    c = P[0].get_center() if hasattr(P[0], "get_center") else P[0].center
    vc.check("planet disk", vc.and_(vc.eq(c[0], xs), vc.eq(c[1], ys), vc.eq(P[0].radius, m["planet"]), face_is(vc, P[0], colour)))
    for k in range(n):
        check_annulus(vc, P[k + 1], m["I"][k], m["O"][k], m["inc"], m["tilt"], xs, ys, m["T"][k], colour)
    R = m["O"][n - 1]
    x, y = ax.get_xlim(), ax.get_ylim()
    vc.check("x limits reach two beyond the outermost ring", vc.and_(vc.eq_abs(x[0], xs - R - 2, R + abs(xs)), vc.eq_abs(x[1], xs + R + 2, R + abs(xs))))
    vc.check("y limits reach two beyond the outermost ring", vc.and_(vc.eq_abs(y[0], ys - R - 2, R + abs(ys)), vc.eq_abs(y[1], ys + R + 2, R + abs(ys))))


@harness(functions=PLOT, bound="two rings", runs=60, weight=2)
def plot_wrong(vc):
    s, m = system(vc, 2)
    k = vc.choice("bad", ["axes", "x", "y", "colour"])
    args = [vc.axes(), 0, 0, "black"]
    args[["axes", "x", "y", "colour"].index(k)] = [1.0]
    out = vc.call(s.plot, *args)
    vc.check("arguments of the wrong kind are refused", (not out.ok) and type(out.exc) is TypeError)

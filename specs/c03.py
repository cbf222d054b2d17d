"""C03: a ring is always physically valid; rejected assignments change nothing."""
from dv.common import harness
from specs.ringlib import ATTR, same_value, make_ring

FUN = ["Ring.Ring.__init__", "Ring.Ring property setters", "validate.number"]


def conforms(vc, name, v, st):
    """the assignment keeps the ring physically valid"""
    if name == "inner_radius":
        return vc.and_(v >= 0, v < st["outer_radius"])
    if name == "outer_radius":
        return vc.and_(st["inner_radius"] < v, vc.finite(v))
    lo, hi = {"transmission": (0, 1), "inclination": (0, 90), "tilt": (-180, 180)}[name]
    return vc.and_(v >= lo, v <= hi)


def invariant(vc, r):
    vc.check("0 < inner radius < outer radius", vc.and_(0 < r.inner_radius, r.inner_radius < r.outer_radius))
    vc.check("transmission in [0,1]", vc.and_(0 <= r.transmission, r.transmission <= 1))
    vc.check("inclination in [0,90]", vc.and_(0 <= r.inclination, r.inclination <= 90))
    vc.check("tilt in [-180,180]", vc.and_(-180 <= r.tilt, r.tilt <= 180))


def a_value(vc, name):
    k = vc.choice(name + "_kind", ["real", "int", "text", "none"])
    if k == "real":
        return vc.real(name, nan=True, inf=True), True
    if k == "int":
        return vc.int(name, -200, 200), True
    return ("3.0" if k == "text" else None), False


@harness(functions=FUN, runs=600)
def construct(vc):
    Ring = vc.mod("Ring").Ring
    v = {a: vc.real(a, nan=True, inf=True) for a in ATTR}
    short = vc.choice("defaults", ["none", "tilt", "both"])
    args = [v[a] for a in ATTR][: {"none": 5, "tilt": 4, "both": 3}[short]]
    if short != "none":
        v["tilt"] = 0
    if short == "both":
        v["inclination"] = 0
    # the replacement of zero needs room for a tiny radius
    vc.assume(vc.or_(vc.not_(v["inner_radius"] == 0), v["outer_radius"] > 1e-9, v["outer_radius"] <= 0, vc.isnan(v["outer_radius"])))
    ok = vc.and_(0 <= v["inner_radius"], v["inner_radius"] < v["outer_radius"], vc.finite(v["outer_radius"]),
                 *[conforms(vc, a, v[a], None) for a in ATTR[2:]])
    r = vc.call(Ring, *args)
    vc.check("a ring is made exactly from physically valid values", vc.iff(r.ok, ok))
    if r.ok:
        vc.reach("made")
        invariant(vc, r.value)
        for a in ATTR:
            vc.check("every attribute is the given value", same_value(vc, a, getattr(r.value, a), v[a]))
    else:
        vc.check("refusal is a TypeError or ValueError", type(r.exc) in (TypeError, ValueError))


def assign(vc, r, st, name, v, number):
    """one assignment and its effect on the ring; st is the state before"""
    out = vc.setattr(r, name, v)
    if not number:
        vc.check("a value of the wrong kind is refused", not out.ok)
        ok = False
    else:
        ok = conforms(vc, name, v, st)
        if name == "inner_radius":
            vc.assume(vc.or_(vc.not_(v == 0), st["outer_radius"] > 1e-9))
        vc.check("accepted exactly when the ring stays physically valid", vc.iff(out.ok, ok))
    if out.ok:
        vc.check("the attribute is the assigned value", same_value(vc, name, getattr(r, name), v))
        st = dict(st)
        st[name] = getattr(r, name)
    else:
        vc.check("refusal is a TypeError or ValueError", type(out.exc) in (TypeError, ValueError))
    for a in ATTR:
        vc.check("all other attributes (and after a refusal all attributes) are as before", vc.eq(getattr(r, a), st[a]))
    invariant(vc, r)
    return st


@harness(functions=FUN, runs=600)
def one_assignment(vc):
    """inductive step: from any valid ring, any assignment"""
    r, _ = make_ring(vc, "r_")
    st = {a: getattr(r, a) for a in ATTR}
    name = vc.choice("attribute", ATTR)
    v, number = a_value(vc, "v")
    assign(vc, r, st, name, v, number)


@harness(functions=FUN, runs=300)
def two_assignments(vc):
    """a second assignment finds no trace of the first but its value"""
    r, _ = make_ring(vc, "r_")
    other, _ = make_ring(vc, "o_")
    so = {a: getattr(other, a) for a in ATTR}
    st = {a: getattr(r, a) for a in ATTR}
    for k in range(2):
        st = assign(vc, r, st, vc.choice(f"attribute{k}", ATTR), vc.real(f"v{k}", nan=True, inf=True), True)
    for a in ATTR:
        vc.check("another ring is not affected", vc.eq(getattr(other, a), so[a]))


@harness(functions=FUN, sym=False, runs=300, bound="concrete histories of up to twelve assignments")
def history(vc):
    r, _ = make_ring(vc, "r_")
    st = {a: getattr(r, a) for a in ATTR}
    for k in range(vc.seq("steps", 3, 12)):
        v, number = a_value(vc, f"v{k}")
        st = assign(vc, r, st, vc.choice(f"attribute{k}", ATTR), v, number)

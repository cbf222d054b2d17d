"""C04: geometry of a ring patch."""
from dv.common import harness
from specs.ringlib import make_ring, check_annulus


@harness(functions=["Ring.Ring.get_patch"], runs=300)
def annulus(vc):
    r, (i, o, t, inc, tilt) = make_ring(vc, "r_", hi=100)
    if vc.symbolic:
        xs, ys = vc.real("xs"), vc.real("ys")
    else:
        xs, ys = vc.real("xs", -100, 100), vc.real("ys", -100, 100)
    colour = vc.choice("colour", ["black", "red"])
    form = vc.choice("form", ["all", "shift", "none"])
    if form == "all":
        out = vc.call(r.get_patch, xs, ys, colour)
    elif form == "shift":
        out = vc.call(r.get_patch, x_shift=xs, y_shift=ys)
        colour = "black"
    else:
        out = vc.call(r.get_patch)
        xs, ys, colour = 0, 0, "black"
    vc.check("a patch is made for every ring", out.ok)
    check_annulus(vc, out.value, r.inner_radius, r.outer_radius, inc, tilt, xs, ys, t, colour)
    vc.check("drawing does not change the ring", vc.and_(vc.eq(r.outer_radius, o), vc.eq(r.transmission, t), vc.eq(r.inclination, inc), vc.eq(r.tilt, tilt)))


@harness(functions=["Ring.Ring.get_patch"], runs=300)
def after_assignment(vc):
    """the patch follows the current attributes"""
    r, _ = make_ring(vc, "r_", hi=100)
    r.get_patch()
    o2 = vc.real("o2", 0, 200)
    vc.assume(r.inner_radius < o2)
    inc, tilt, t = vc.real("inc2", 0, 90), vc.real("tilt2", -180, 180), vc.real("tr2", 0, 1)
    r.outer_radius, r.inclination, r.tilt, r.transmission = o2, inc, tilt, t
    check_annulus(vc, r.get_patch(), r.inner_radius, o2, inc, tilt, 0, 0, t, "black")


@harness(functions=["Ring.Ring.get_patch"], runs=100)
def wrong_arguments(vc):
    r, _ = make_ring(vc, "r_", hi=100)
    k = vc.choice("which", ["x", "y", "colour"])
    bad = vc.choice("bad", ["text", "none", "list"])
    b = {"text": "1", "none": None, "list": [1.0]}[bad]
    if k == "colour" and bad == "text":
        b = 3
    args = {"x": (b, 0, "black"), "y": (0, b, "black"), "colour": (0, 0, b)}[k]
    out = vc.call(r.get_patch, *args)
    vc.check("a shift that is no number or a colour that is no text is refused", (not out.ok) and type(out.exc) is TypeError)

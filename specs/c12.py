"""C12: property masks hide exactly the masked cells, stored data never change."""
from dv.common import harness
from specs.gridlib import grid, same_array, values_are

FUN = ["GridProperty.GridProperty.__init__", "GridProperty.GridProperty.set_mask", "GridProperty.GridProperty.get_data"]
CON = ["GridProperty.GridProperty.__init__", "GridProperty.GridProperty.set_contrast_parameters"]


def kind(vc):
    return vc.mod("GridPropertyName").GridPropertyName.TILT, vc.mod("GridPropertyUnit").GridPropertyUnit.DEGREE


def new(vc, mask=None, small=3, **k):
    g, m = grid(vc, small=small)
    data = vc.array("data", m["shape"], nan=True, **k)
    keep = vc.copy_array(data)
    p = vc.mod("GridProperty").GridProperty(*kind(vc), data, g)
    M = None
    if mask:
        M = vc.array("mask", m["shape"], kind="b")
        p.set_mask(vc.copy_array(M))
    return p, g, m, keep, M


def read_is(vc, p, m, keep, M, masked, what, form="positional"):
    out = vc.call(p.get_data) if form == "default" else vc.call(p.get_data, masked=masked) if form == "keyword" else vc.call(p.get_data, masked)
    vc.check(what + ": reading succeeds", out.ok)
    if masked and M is not None:
        values_are(vc, out.value, m["shape"], lambda i: vc.ite(vc.at(M, i), float("nan"), vc.at(keep, i)), what + ": masked cells are NaN, all others the stored values")
    else:
        values_are(vc, out.value, m["shape"], lambda i: vc.at(keep, i), what + ": the stored values")
    return out.value


@harness(functions=FUN, runs=400, weight=4)
def read(vc):
    """from any state: what a read gives, and that it changes nothing"""
    p, g, m, keep, M = new(vc, vc.choice("has mask", [False, True]), inf=True)
    form = vc.choice("form", ["default", "positional", "keyword"])
    masked = True if form == "default" else vc.choice("masked", [True, False])
    a = read_is(vc, p, m, keep, M, masked, "first read", form)
    # changing the result does not reach the property
    i = tuple(vc.int(f"i{k}", 0, n - 1) for k, n in enumerate(m["shape"]))
    a[i[0], i[1], i[2]] = 123.25
    masked2 = vc.choice("masked again", [True, False])
    read_is(vc, p, m, keep, M, masked2, "second read")
    same_array(vc, p.data, keep, "stored data unchanged")


@harness(functions=FUN, runs=300, weight=3)
def new_mask(vc):
    """a later mask replaces the earlier one"""
    p, g, m, keep, M = new(vc, vc.choice("has mask", [False, True]))
    p.get_data()
    N = vc.array("newmask", m["shape"], kind="b")
    out = vc.call(p.set_mask, vc.copy_array(N))
    vc.check("a conforming mask is accepted", out.ok)
    read_is(vc, p, m, keep, N, True, "read with the new mask")
    read_is(vc, p, m, keep, N, False, "read without it")


@harness(functions=FUN, runs=400, weight=3)
def wrong_mask(vc):
    p, g, m, keep, M = new(vc, vc.choice("has mask", [False, True]))
    bad = vc.choice("bad", ["shape", "float", "int", "flat", "list", "none"])
    s = m["shape"]
    if bad == "shape":
        t = [vc.int(f"t{k}", 1, small=3) for k in range(3)]
        vc.assume(vc.not_(vc.and_(*[a == b for a, b in zip(s, t)])))
        N = vc.array("bad", t, kind="b")
    elif bad in ("float", "int"):
        N = vc.array("bad", s, kind=bad[0], lo=0, hi=1)
    elif bad == "flat":
        N = vc.array("bad", (s[0], s[1]), kind="b")
    else:
        N = {"list": [[[True]]], "none": None}[bad]
    out = vc.call(p.set_mask, N)
    vc.check("a mask of the wrong type or shape is refused", not out.ok)
    read_is(vc, p, m, keep, M, True, "masked read after the refused mask")
    read_is(vc, p, m, keep, M, False, "read after the refused mask")


@harness(functions=FUN, runs=400, weight=3)
def wrong_data(vc):
    GP = vc.mod("GridProperty").GridProperty
    g, m = grid(vc, small=3)
    s = m["shape"]
    bad = vc.choice("bad", ["shape", "int", "bool", "flat", "list", "none", "name", "unit", "grid"])
    args = [*kind(vc), vc.array("good", s), g]
    if bad == "shape":
        t = [vc.int(f"t{k}", 1, small=3) for k in range(3)]
        vc.assume(vc.not_(vc.and_(*[a == b for a, b in zip(s, t)])))
        args[2] = vc.array("bad", t)
    elif bad in ("int", "bool"):
        args[2] = vc.array("bad", s, kind=bad[0])
    elif bad == "flat":
        args[2] = vc.array("bad", (s[0], s[1]))
    elif bad in ("list", "none"):
        args[2] = {"list": [[[0.5]]], "none": None}[bad]
    elif bad == "name":
        args[0] = "tilt"
    elif bad == "unit":
        args[1] = "degree"
    else:
        args[3] = s
    out = vc.call(GP, *args)
    vc.check("data, names, units and grids of the wrong kind are refused", not out.ok)


@harness(functions=FUN, runs=150, weight=1)
def wrong_flag(vc):
    p, g, m, keep, M = new(vc, True)
    out = vc.call(p.get_data, vc.choice("flag", [1, "yes", None, 0.5]))
    vc.check("masked must be a boolean", (not out.ok) and type(out.exc) is TypeError)
    read_is(vc, p, m, keep, M, True, "after the refused read")


@harness(functions=CON, runs=300, weight=3)
def contrast(vc):
    """the contract of set_contrast_parameters that other checks rely on"""
    p, g, m, keep, M = new(vc, vc.choice("has mask", [False, True]))
    how = vc.choice("how", ["construction", "again", "colour map", "limits"])
    a = b = None
    if how == "again":
        vc.check("defaults are accepted", vc.call(p.set_contrast_parameters).ok)
    elif how == "colour map":
        vc.check("a colour map is accepted", vc.call(p.set_contrast_parameters, color_map="twilight").ok)
        vc.check("colour map", p.color_map == "twilight")
    elif how == "limits":
        a, b = vc.real("a"), vc.real("b")
        vc.check("limits are accepted", vc.call(p.set_contrast_parameters, vmin=a, vmax=b).ok)
    some = vc.any_(m["shape"], lambda i: vc.not_(vc.isnan(vc.at(keep, i))))
    if vc.branch(some):
        if a is not None:
            vc.check("given limits are used", vc.and_(vc.eq(p.vmin, a), vc.eq(p.vmax, b)))
        else:
            lo, hi = p.vmin, p.vmax
            vc.forall("limits", m["shape"], lambda i: vc.check("the default limits enclose the data", vc.or_(
                vc.isnan(vc.at(keep, i)), vc.and_(lo <= vc.at(keep, i), vc.at(keep, i) <= hi))))
            vc.check("the default limits are attained", vc.and_(vc.any_(m["shape"], lambda i: vc.eq(vc.at(keep, i), lo)), vc.any_(m["shape"], lambda i: vc.eq(vc.at(keep, i), hi))))
    same_array(vc, p.data, keep, "stored data unchanged")
    if M is None:
        vc.check("no mask appears", p.mask is None)
    else:
        same_array(vc, p.mask, M, "mask unchanged")

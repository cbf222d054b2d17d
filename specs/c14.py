"""C14: the slice viewer shows the slice, title and markers of its index."""
from dv.common import Harness
from specs.gridlib import grid, contrast_contract

V = "GridProperty.GridPropertyViewer."
FUN = [V + n for n in ("__init__", "update_title", "set_labels", "determine_extent", "set_rf_ticklabels", "update", "plot_coordinates")]
SCR = FUN + [V + "onscroll"]
HARNESSES = []
KINDS = [("TILT", "DEGREE"), ("DISK_RADIUS", "ECLIPSE_DURATION"), ("FX_MAP", "NONE")]


def per_axis(**kw):
    """one harness for each axis"""
    def d(fn):
        for a in range(3):
            def run(vc, a=a):
                return fn(vc, a)
            HARNESSES.append(Harness(f"{fn.__name__}_{'yxr'[a]}", run, **kw))
        return fn
    return d


class Event:
    def __init__(self, button):
        self.button = button


def prop(vc, axis, masks=("none", "shown", "hidden")):
    contrast_contract(vc)
    nr = vc.int("nr", 2, small=2) if axis == 2 else None
    g, m = grid(vc, small=3, min_y=2 if axis == 0 else 1, min_x=2 if axis == 1 else 1, nr=nr)
    vc.assume(m["r1"] > 1)
    name, unit = KINDS[axis]
    N, U = getattr(vc.mod("GridPropertyName").GridPropertyName, name), getattr(vc.mod("GridPropertyUnit").GridPropertyUnit, unit)
    data = vc.array("data", m["shape"], nan=True)
    M, masked = None, True
    p = vc.mod("GridProperty").GridProperty(N, U, vc.copy_array(data), g)
    how = vc.choice("mask", list(masks))
    if how != "none":
        M = vc.array("mask", m["shape"], kind="b")
        p.set_mask(vc.copy_array(M))
        masked = how == "shown"
    m["n"] = m["shape"][axis]

    def want(i):
        x = vc.at(data, i)
        return vc.ite(vc.at(M, i), float("nan"), x) if masked and M is not None else x
    return p, g, m, axis, masked, want, f"{N.get_name()} [{U.get_unit()}]"


def coordinates(vc, p=""):
    n = vc.seq(p + "coordinates", 0, 2)
    return [(vc.real(f"{p}c{k}y"), vc.real(f"{p}c{k}x"), vc.real(f"{p}c{k}r")) for k in range(n)]


def near_grid(vc, g, axis, m, coords):
    """(concrete runs) coordinates close to the grid lines"""
    if vc.symbolic:
        return coords
    v = g.get_vectors()[axis].ravel()
    d = abs(v[1] - v[0])
    out = []
    for k, c in enumerate(coords):
        c = list(c)
        off = vc.choice(f"off{k}", [0.0, 0.1, -0.3, 0.4, 0.9, -0.5])
        c[axis] = float(v[vc.int(f"line{k}", 0, len(v) - 1)]) + off * d
        out.append(tuple(c))
    return out


def shows(vc, view, ax, image, g, m, axis, want, prefix, i, coords, what):
    """everything visible belongs to the index i"""
    vc.check(what + ": index", view.index == i)
    ny, nx, nr = m["shape"]
    shape = [(nx, nr), (ny, nr), (ny, nx)][axis]
    pos = lambda k: (k[:axis] + (i,) + k[axis:])
    a = vc.image_data(image)
    vc.check(what + ": image shape", vc.shape_is(a, shape))
    vc.forall(what + ": image", shape, lambda k: vc.check(what + ": the image is the slice of the index", vc.eq(vc.at(a, k), want(pos(k)))))
    value = vc.at(vc.ravel(g.get_vectors()[axis]), i)
    title = f"{prefix} - {['$y$', '$x$', '$R_f$'][axis]} = {value:.4f}"
    if axis == 2:
        if vc.branch(i < m["nr"] - 1):
            title += " - horizontal"
        elif vc.branch(i > m["nr"] - 1):
            title += " - vertical"
    vc.check(what + ": title", vc.eq(ax.get_title(), title))
    r = (0, 2 * (m["r1"] - 1))
    if vc.branch(m["nr"] == 1):
        r = (0, 0)
    x, y = (m["x0"], vc.ite(m["nx"] == 1, m["x0"], m["x1"])), (m["y0"], vc.ite(m["ny"] == 1, m["y0"], m["y1"]))
    ext = [r + x, r + y, x + y][axis]
    got = image.get_extent()
    vc.check(what + ": extent", vc.and_(len(got) == 4, *[vc.eq_abs(u, v, 10) for u, v in zip(got, ext)]))
    step = abs(vc.at(vc.ravel(g.get_vectors()[axis]), 1) - vc.at(vc.ravel(g.get_vectors()[axis]), 0))
    marks = []
    for c in coords:
        d = abs(value - c[axis])
        vc.assume(vc.not_(vc.near(d, step / 3)))
        if vc.branch(d < step / 3):
            marks.append(tuple(c[:axis] + c[axis + 1:]))
    lines = list(ax.lines)
    vc.check(what + ": one marker for each close coordinate", len(lines) == len(marks))
    for l, (v, h) in zip(lines, marks):
        xs, ys = vc.line_data(l)
        vc.check(what + ": marker position", vc.and_(len(xs) == 1, len(ys) == 1, vc.eq(xs[0], h), vc.eq(ys[0], v)))


@per_axis(functions=FUN, runs=60, weight=5, bound="up to two coordinates", cseconds=20)
def start(vc, axis):
    """what a new viewer shows"""
    p, g, m, axis, masked, want, prefix = prop(vc, axis)
    coords = near_grid(vc, g, axis, m, coordinates(vc))
    kw = {}
    if vc.choice("index given", [True, False]):
        i = vc.int("i", 0, m["n"] - 1)
        kw["index"] = i
    else:
        i = m["n"] // 2
    if vc.choice("coordinates given", [True, False]):
        kw["coordinates"] = coords
    else:
        coords = []
    if vc.choice("frozen given", [True, False]):
        kw["frozen"] = vc.choice("frozen", [True, False])
    ax = vc.axes()
    out = vc.call(vc.mod("GridProperty").GridPropertyViewer, ax, axis, p, masked, **kw)
    vc.check("a viewer is made", out.ok)
    view = out.value
    vc.check("its image is on the axes", view.ax is ax and len(ax.images) == 1 and ax.images[0] is view.image)
    shows(vc, view, ax, view.image, g, m, axis, want, prefix, i, coords, "at the start")
    vc.check("axis labels", ax.get_xlabel() == ["$R_f$", "$R_f$", "$x$"][axis] and ax.get_ylabel() == ["$x$", "$y$", "$y$"][axis])


@per_axis(functions=SCR, runs=80, weight=6, bound="one scroll event with up to two coordinates or two with one, from any index", cseconds=25)
def scroll(vc, axis):
    p, g, m, axis, masked, want, prefix = prop(vc, axis, ("shown",) if vc.symbolic else ("none", "shown", "hidden"))
    coords = near_grid(vc, g, axis, m, coordinates(vc))
    i = vc.int("i", 0, m["n"] - 1)
    frozen = vc.choice("frozen", [False, True])
    if frozen:
        coords = coords[:1]
    ax = vc.axes()
    view = vc.mod("GridProperty").GridPropertyViewer(ax, axis, p, masked, index=i, frozen=frozen, coordinates=coords)
    for k in range((1 if frozen or len(coords) > 1 else vc.seq("scrolls", 1, 2)) if vc.symbolic else vc.seq("scrolls", 1, 6)):
        b = vc.choice(f"button{k}", ["up", "down"])
        out = vc.call(view.onscroll, Event(b))
        vc.check("scrolling succeeds", out.ok)
        if not frozen:
            if b == "up":
                i = vc.ite(i < m["n"] - 1, i + 1, i)
            else:
                i = vc.ite(i > 0, i - 1, i)
    vc.check("the axes keep one image", len(ax.images) == 1)
    shows(vc, view, ax, ax.images[0], g, m, axis, want, prefix, i, coords, "frozen" if frozen else "after scrolling")


@per_axis(functions=["GridProperty.GridProperty.plot_slice"] + FUN, runs=40, weight=3, cseconds=15)
def plot_slice(vc, axis):
    p, g, m, axis, masked, want, prefix = prop(vc, axis)
    i = vc.int("i", 0, m["n"] - 1)
    ax = vc.axes()
    out = vc.call(p.plot_slice, axis, i, ax, masked) if vc.choice("form", [0, 1]) else vc.call(p.plot_slice, axis=axis, index=i, ax=ax, masked=masked)
    vc.check("a slice is plotted", out.ok)
    vc.check("on the given axes", out.value[0] is ax and len(ax.images) == 1 and out.value[1] is ax.images[0])
    class W:
        index = i
    shows(vc, W, ax, out.value[1], g, m, axis, want, prefix, i, [], "plotted slice")


@per_axis(functions=FUN, runs=60, weight=2, cseconds=15)
def refused(vc, axis):
    p, g, m, axis, masked, want, prefix = prop(vc, axis)
    ax = vc.axes()
    args = {"ax": ax, "axis": axis, "grid_property": p, "masked": masked, "index": vc.int("i", 0, m["n"] - 1), "coordinates": coordinates(vc)}
    bad = vc.choice("bad", ["index low", "index high", "index float", "axis", "axis text", "property", "axes", "coordinates", "coordinate"])
    if bad == "index low":
        args["index"] = vc.int("low", None, -1)
    elif bad == "index high":
        args["index"] = m["n"] + vc.int("over", 0, small=2)
    elif bad == "index float":
        args["index"] = 0.0
    elif bad == "axis":
        args["axis"] = vc.choice("a", [-1, 3])
    elif bad == "axis text":
        args["axis"] = "0"
    elif bad == "property":
        args["grid_property"] = None
    elif bad == "axes":
        args["ax"] = "axes"
    elif bad == "coordinates":
        args["coordinates"] = "none"
    else:
        args["coordinates"] = [(0.0, 0.0, 1.0), (0.0, 1.0)]
    vc.check("invalid arguments are refused", not vc.call(vc.mod("GridProperty").GridPropertyViewer, **args).ok)

"""C22: the closest grid point is the nearest one on the requested side; the
data of a grid point are those stored at exactly its index."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, masks, add_plain_gradients, any_gradients, NAMES

S_ = "Shallot.ShallotGrid."
GET = [S_ + "get_disk_radius", S_ + "get_inclination", S_ + "get_tilt", S_ + "get_combined_mask"]
NEAR = [S_ + "determine_closest_grid_point"] + GET
DATA = [S_ + "get_grid_point_data", S_ + "get_fx_map", S_ + "get_fy_map", S_ + "get_diagnostic_map"] + GET
OWN = ("disk_radius", "inclination", "tilt")
BIG = 1000000


def hidden(vc, m, own, grads, masked, name):
    """is the value of the property hidden at the cell?"""
    mine = [own[name]] if own.get(name) is not None else []
    every = [own[n] for n in OWN if own.get(n) is not None] + [M for _, _, M in grads if M is not None]

    def f(i):
        l = every if masked else mine
        return vc.or_(False, *[vc.at(M, i) for M in l])
    return f


def frame(vc, S, m, own, grads, what):
    for n, a in m["data"].items():
        same_array(vc, getattr(S, n).data, a, f"{what}: stored {n}")
    for n in own:
        if own[n] is None:
            vc.check(f"{what}: {n} keeps no mask", getattr(S, n).mask is None)
        else:
            same_array(vc, getattr(S, n).mask, own[n], f"{what}: mask of {n}")
    for o, a, M in grads:
        if o is None:
            vc.items_untouched()
            continue
        same_array(vc, o.data, a, f"{what}: gradient")


def closest(vc, side):
    vc.option("sqrt_order", True)
    vc.option("opaque_products", True)
    lim = (None, None) if vc.symbolic else (-1, 1)
    S, m = shallot(vc, which=OWN, bounds={} if vc.symbolic else {"disk_radius": (0, 5), "inclination": (0, 90), "tilt": (-180, 180)},
                   extend=False if vc.symbolic else vc.choice("extended", [False, True]))
    own = masks(vc, S, m, full=not vc.symbolic, which=OWN if not vc.symbolic else OWN[:1])
    grads = add_plain_gradients(vc, S, m, 0, 1, unbounded=True)
    dy, dx, rfa = S.parameters.get_vectors()
    dy0, dx0 = vc.copy_array(dy), vc.copy_array(dx)
    masked = vc.choice("masked", [True, False])
    R, I, T = vc.real("R", 0, BIG if vc.symbolic else 5), vc.real("I", 0, 90), vc.real("T", -180, 180)
    b = 0 if side == "either" else vc.real("b", *{"up": (0, BIG if vc.symbolic else 2), "down": (-BIG if vc.symbolic else -2, 0)}[side],
                                           lo_open=side == "up", hi_open=side == "down")
    if not vc.symbolic and side != "either":
        vc.assume(abs(b) > 1e-6)
    # values for which the distances are far below the stand-in for the other side
    vc.assume_all((m["ny"],), lambda k: vc.and_(vc.at(dy, k) <= BIG, vc.at(dy, k) >= -BIG))
    hid = {n: hidden(vc, m, own, grads, masked, n) for n in OWN}
    if not masked:
        each = dict(hid)
    def nan(t):
        return vc.or_(*[vc.or_(vc.isnan(vc.at(m["data"][n], t)), hid[n](t)) for n in OWN])

    def distance2(t):
        r, i, s = [vc.at(m["data"][n], t) for n in OWN]
        y = vc.at(dy0, t[0]) - b
        return (r - R) * (r - R) + (i - I) * (i - I) + (s - T) * (s - T) + y * y

    def here(t):
        """a cell with data on the requested side"""
        side_ok = True if side == "either" else vc.at(dy0, t[0]) >= 0 if side == "up" else vc.at(dy0, t[0]) <= 0
        return vc.and_(vc.not_(nan(t)), side_ok)
    form = vc.choice("form", ["keyword", "positional", "default"]) if masked else "keyword"
    if form == "keyword":
        out = vc.call(S.determine_closest_grid_point, R, I, T, b, masked=masked)
    elif form == "positional":
        out = vc.call(S.determine_closest_grid_point, R, I, T, b, masked)
    else:
        out = vc.call(S.determine_closest_grid_point, R, I, T, b)
    if not out.ok:
        # nothing to choose from
        vc.forall("refused", m["shape"], lambda t: vc.check("refused only when every cell is masked or empty", nan(t)))
        frame(vc, S, m, own, grads, "a refused search")
        return
    vc.check("coordinates, indices and distance", vc.length(out.value) == 3 and vc.length(out.value[0]) == 3 and vc.length(out.value[1]) == 3)
    (cy, cx, cr), c, d = out.value
    c = tuple(c)
    vc.check("indices of a cell of the grid", vc.and_(*[vc.and_(0 <= k, k < n) for k, n in zip(c, m["shape"])]))
    vc.record([k for k in c]) if not vc.symbolic else None
    vc.check("the coordinates are those of the indices", vc.and_(vc.eq(cy, vc.at(dy0, c[0])), vc.eq(cx, vc.at(dx0, c[1])), vc.eq(cr, vc.at(rfa, c[2]))))
    vc.check("a cell with data is chosen", vc.not_(nan(c)))
    if vc.symbolic:
        vc.assume_all(m["shape"], lambda t: vc.or_(nan(t), distance2(t) <= BIG * BIG * 5))
        vc.scope("distance", lambda: (vc.assume(here(c)), vc.check("the distance is that of the chosen cell", vc.and_(d >= 0, vc.eq(d * d, distance2(c))))))
    elif here(c):
        vc.check("the distance is that of the chosen cell", vc.eq(d, vc.sqrt(distance2(c))))

    def cell(t):
        vc.assume(here(t))
        vc.lemma("no cell on the other side is chosen when there is one on this", here(c))
        vc.check("no cell is nearer", distance2(c) <= distance2(t) if vc.symbolic else vc.le(vc.sqrt(distance2(c)), vc.sqrt(distance2(t))))
    vc.forall("nearest", m["shape"], cell)
    frame(vc, S, m, own, grads, "a search")


@harness(functions=NEAR, runs=60, weight=3)
def closest_above(vc):
    closest(vc, "up")


@harness(functions=NEAR, runs=60, weight=3)
def closest_below(vc):
    closest(vc, "down")


@harness(functions=NEAR, runs=40, weight=3)
def closest_on_the_line(vc):
    closest(vc, "either")


@harness(functions=NEAR, runs=40, weight=1)
def invalid_target(vc):
    S, m = shallot(vc, which=OWN)
    bad = vc.choice("bad", ["negative radius", "negative inclination", "inclination above 90", "tilt below -180", "tilt above 180"])
    R = vc.real("R", None, 0, hi_open=True) if bad == "negative radius" else vc.real("R", 0)
    I = vc.real("I", None, 0, hi_open=True) if bad == "negative inclination" else vc.real("I", 90, None, lo_open=True) if bad == "inclination above 90" else vc.real("I", 0, 90)
    T = vc.real("T", None, -180, hi_open=True) if bad == "tilt below -180" else vc.real("T", 180, None, lo_open=True) if bad == "tilt above 180" else vc.real("T", -180, 180)
    out = vc.call(S.determine_closest_grid_point, R, I, T, vc.real("b"))
    vc.check("a target that is no disk is refused", not out.ok)


def point(vc, lo, hi, some=True):
    S, m = shallot(vc, which=NAMES)
    vc.check("a resolution map is there", vc.shape_is(S.diagnostic_map.data, m["shape"]))
    a = vc.array("diagnostic", m["shape"], nan=True)
    m["data"]["diagnostic_map"] = vc.copy_array(a)
    S.diagnostic_map.data = a
    own = masks(vc, S, m, full=not vc.symbolic, which=OWN if not vc.symbolic else OWN[:1])
    grads = add_plain_gradients(vc, S, m, lo, hi) if some else []
    pos = [o.position for o, _, _ in grads]
    return S, m, own, grads, pos


@harness(functions=DATA, bound="up to two gradients", runs=100, weight=4)
def point_data(vc):
    S, m, own, grads, pos = point(vc, 0, 2)
    dy, dx, rfa = S.parameters.get_vectors()
    c = tuple(vc.int(f"c{k}", 0, n - 1) for k, n in enumerate(m["shape"]))
    masked = vc.choice("masked", [True, False])
    if masked and vc.choice("form", ["default", "explicit"]) == "default":
        out = S.get_grid_point_data(*c)
    else:
        out = S.get_grid_point_data(*c, masked=masked)
    vc.check("three groups of data", vc.length(out) == 3 and vc.length(out[0]) == 5 and vc.length(out[1]) == 4 and vc.length(out[2]) == 2)

    def value(name):
        h = hidden(vc, m, own, grads, masked, name)(c)
        return vc.ite(h, float("nan"), vc.at(m["data"][name], c))
    for got, n in zip(out[0][:3], OWN):
        vc.check(f"{n} of the cell", vc.eq(got, value(n)))
    vc.check("position of the cell", vc.and_(vc.eq(out[0][3], vc.at(dx, c[1])), vc.eq(out[0][4], vc.at(dy, c[0]))))
    vc.check("radius factor of the cell", vc.eq(out[1][0], vc.at(rfa, c[2])))
    for got, n in zip(out[1][1:], ("fx_map", "fy_map", "diagnostic_map")):
        vc.check(f"{n} of the cell", vc.eq(got, value(n)))
    if not grads:
        vc.check("no gradients", out[2][0] is None and out[2][1] is None or vc.length(out[2][0]) == 0 and vc.length(out[2][1]) == 0)
    else:
        vc.check("as many gradients as the grid has", vc.and_(*[vc.shape_is(x, (len(grads),)) for x in out[2]]))
        for k, (o, a, M) in enumerate(grads):
            vc.check("gradient positions in order", vc.eq(vc.at(out[2][0], k), pos[k]))
            h = vc.at(M, c) if M is not None and masked else False
            vc.check("gradients of the cell in order", vc.eq(vc.at(out[2][1], k), vc.ite(h, float("nan"), vc.at(a, c))))
    frame(vc, S, m, own, grads, "reading a cell")


@harness(functions=DATA, conc=False, weight=3)
def point_data_of_any_number(vc):
    """a grid with any number of gradients: one arbitrary gradient of a cell"""
    S, m, own, _, _ = point(vc, 0, 0, False)
    n, A, E = any_gradients(vc, S, m, cell=True)
    c = tuple(vc.int(f"c{k}", 0, n - 1) for k, n in enumerate(m["shape"]))
    masked = vc.choice("masked", [True, False])
    out = S.get_grid_point_data(*c, masked=masked)
    vc.check("as many gradients as the grid has", vc.and_(*[vc.shape_is(x, (n,)) for x in out[2]]))
    K = A["one"]
    vc.check("gradient positions in order", vc.eq(vc.at(out[2][0], K), vc.at(A["pos"], K)))
    h = vc.and_(masked, vc.at(A["has"], K), vc.at(A["mask"], (K,) + c))
    vc.check("gradients of the cell in order", vc.eq(vc.at(out[2][1], K), vc.ite(h, float("nan"), vc.at(A["data"], (K,) + c))))
    for got, q in zip(out[0][:3] + out[1][1:], OWN + ("fx_map", "fy_map", "diagnostic_map")):
        h = hidden(vc, m, own, [(None, None, E)], masked, q)(c)
        vc.check(f"{q} of the cell", vc.eq(got, vc.ite(h, float("nan"), vc.at(m["data"][q], c))))
    frame(vc, S, m, own, [(None, None, E)], "reading a cell")


@harness(functions=DATA, runs=40, weight=1)
def off_the_grid(vc):
    S, m = shallot(vc, which=NAMES)
    k = vc.choice("axis", [0, 1, 2])
    c = [vc.int(f"c{j}", 0, n - 1) for j, n in enumerate(m["shape"])]
    c[k] = vc.int("off", None, -1) if vc.choice("side", ["low", "high"]) == "low" else m["shape"][k] + vc.int("off", 0)
    out = vc.call(S.get_grid_point_data, *c)
    vc.check("an index off the grid is rejected", not out.ok)

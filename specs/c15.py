"""C15: every disk passes through the start and the end of the eclipse."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, private, NAMES
from specs.buildlib import Built, shear_at

S_ = "Shallot.ShallotGrid."
FX, FY = [S_ + "_determine_fx"], [S_ + "_determine_fy"]


def through(vc, a, b, x, y):
    """the ellipse ((u + s v)/a)^2 + (v/b)^2 = R^2 around (x, y) holds the
    points (+-1/2, 0): with u = +-1/2 - x, v = -y, s = -x/y, R^2 = 1/4 + y^2"""
    return vc.eq(b * b + 4 * y * y * (a * a), (1 + 4 * y * y) * (a * a) * (b * b), 1e-6)


@harness(functions=FX, runs=60)
def horizontal_factor(vc):
    """fx for any fy on any row"""
    S, m = shallot(vc, which=())
    if not private(vc, S, "_determine_fx", 1):
        return
    n = vc.int("n", 1, small=4)
    fy = vc.array("fy", (n,), nan=True, lo=None if vc.symbolic else -5, hi=None if vc.symbolic else 5)
    fy0 = vc.copy_array(fy)
    out = S._determine_fx(fy)
    vc.check("shape", vc.shape_is(out, (m["ny"], 1, n)))
    dy = S.parameters.get_vectors()[0]

    def cell(i):
        a, b, y = vc.at(out, (i[0], 0, i[1])), vc.at(fy0, i[1]), vc.at(dy, i[0])
        possible = vc.and_(vc.not_(vc.isnan(b)), b * b * (1 + 4 * y * y) > 4 * y * y)
        if not vc.symbolic:
            vc.assume(vc.isnan(b) or abs(b * b * (1 + 4 * y * y) - 4 * y * y) > 1e-9)
        vc.check("NaN exactly when no ellipse with this factor exists", vc.iff(vc.isnan(a), vc.not_(possible)))
        vc.check("the ellipse passes through ingress and egress", vc.implies(possible, vc.and_(vc.or_(vc.and_(b > 0, a > 0), vc.and_(b < 0, a < 0)), through(vc, a, b, 0, y))))
    vc.forall("cell", (m["ny"], n), cell)
    same_array(vc, fy, fy0, "the stretch factors stay")


@harness(functions=FY, runs=60)
def vertical_factor(vc):
    """fy for any fx on any row"""
    S, m = shallot(vc, which=())
    if not private(vc, S, "_determine_fy", 1):
        return
    n = vc.int("n", 1, small=4)
    v = vc.array("fx", (n,), nan=True, lo=None if vc.symbolic else -5, hi=None if vc.symbolic else 5)
    fx = vc.mkarray((1, 1, n), lambda i: vc.at(v, i[2]))
    out = S._determine_fy(fx)
    vc.check("shape", vc.shape_is(out, (m["ny"], 1, n)))
    dy = S.parameters.get_vectors()[0]

    def cell(i):
        b, a, y = vc.at(out, (i[0], 0, i[1])), vc.at(v, i[1]), vc.at(dy, i[0])
        origin = vc.and_(y == 0, a == 1)
        possible = vc.and_(vc.not_(vc.isnan(a)), vc.or_(origin, a * a * (1 + 4 * y * y) > 1))
        if not vc.symbolic:
            vc.assume(vc.isnan(a) or origin or abs(a * a * (1 + 4 * y * y) - 1) > 1e-9)
        vc.check("NaN exactly when no ellipse with this factor exists", vc.iff(vc.isnan(b), vc.not_(possible)))
        vc.check("the ellipse passes through ingress and egress", vc.implies(possible, vc.and_(b >= 0, through(vc, a, b, 0, y))))
        vc.check("a circle stays one", vc.implies(a == 1, vc.eq(b, 1.0)))
    vc.forall("cell", (m["ny"], n), cell)
    same_array(vc, fx, vc.mkarray((1, 1, n), lambda i: vc.at(v, i[2])), "the stretch factors stay")


@harness(functions=FX + FY, sym=False, runs=60)
def limiting_factor(vc):
    """(concrete) next to the smallest possible factor there is an ellipse or
    NaN, never an infinite factor"""
    import numpy as np
    S, m = shallot(vc, which=())
    if not private(vc, S, "_determine_fy", 1) or not private(vc, S, "_determine_fx", 1):
        return
    dy = S.parameters.get_vectors()[0]
    y = dy[np.abs(dy) > 1e-3]
    vc.assume(len(y) > 0)
    for f, v in ((S._determine_fy, 1 / np.sqrt(1 + 4 * y ** 2)), (S._determine_fx, 2 * np.abs(y) / np.sqrt(1 + 4 * y ** 2))):
        v = np.concatenate([v, np.nextafter(v, 0), np.nextafter(v, 9)])
        out = f(v[None, None, :] if f == S._determine_fy else v)
        vc.check("never infinite", not np.any(np.isinf(out)))


@harness(functions=[S_ + "_determine_shear", S_ + "_determine_circular_radius", S_ + "__init__"], runs=60)
def shear_and_radius(vc):
    """every cell has the shear and the circle radius of its position"""
    S, m = shallot(vc, which=(), shear=True, extend=vc.choice("extended", [False, True]))
    if not (hasattr(S, "shear") and hasattr(S, "circular_radius")):
        vc.unsupported("shear and circular radius are stored elsewhere")
        return
    dy, dx, _ = S.parameters.get_vectors()
    vc.check("shapes", vc.and_(vc.shape_is(S.shear, (m["ny"], m["nx"], 1)), vc.shape_is(S.circular_radius, (m["ny"], 1, 1))))

    def cell(i):
        y, x, R = vc.at(dy, i[0]), vc.at(dx, i[1]), vc.at(S.circular_radius, (i[0], 0, 0))
        vc.check("shear", vc.eq(vc.at(S.shear, (i[0], i[1], 0)), shear_at(vc, x, y)))
        vc.check("the circle passes through ingress and egress", vc.and_(R >= 0, vc.eq(4 * (R * R), 1 + 4 * y * y)))
    vc.forall("cell", (m["ny"], m["nx"]), cell)


@harness(functions=[S_ + "_build_grid", S_ + "_interpolate_scale_values", S_ + "__init__"], runs=20)
def built(vc):
    """the stretch factors of an arbitrary cell of an arbitrary grid"""
    G = Built(vc)
    if not G.known:
        vc.unsupported("other private functions")
        return
    y, x = G.cell
    dy, dx, _ = G.S.parameters.get_vectors()
    v, u = vc.at(dy, y), vc.at(dx, x)
    k = vc.int("k", 0, None if vc.symbolic else G.m["shape"][2] - 1)
    vc.assume(k < G.m["shape"][2])
    a, b = G.at("fx_map", k), G.at("fy_map", k)
    shear = vc.at(G.S.shear, (y, x, 0)) if vc.symbolic else shear_at(vc, u, v)
    undefined = vc.isnan(shear)
    vc.check("cells without shear hold no disk", vc.implies(undefined, vc.and_(*[vc.isnan(G.at(n, k)) for n in NAMES])))
    if vc.branch(undefined):
        return
    if vc.symbolic:
        vc.check("the stretch factors belong together", vc.eq(a, G.fx_of(b, v)))
    elif not vc.isnan(a):
        vc.check("the disk passes through ingress and egress", through(vc, a, b, u, v))


@harness(functions=[S_ + "_build_grid"] + FX + FY, sym=False, runs=60, weight=1)
def of_the_grid(vc):
    """(concrete) every cell of a built grid"""
    import numpy as np
    S, m = shallot(vc, which=(), data=False, num=vc.int("num", 20, 60), extend=vc.choice("extended", [False, True]))
    dy, dx, _ = S.parameters.get_vectors()
    for i in vc.indices(m["shape"]):
        y, x = [z if abs(z) > 1e-9 else 0.0 for z in (float(dy.ravel()[i[0]]), float(dx.ravel()[i[1]]))]
        a, b, r, inc, t = [float(getattr(S, q).data[i]) for q in ("fx_map", "fy_map", "disk_radius", "inclination", "tilt")]
        if y == 0 and x != 0:
            vc.check("on the transit line only the origin holds disks", all(np.isnan(z) for z in (a, b, r, inc, t)))
            continue
        if y == 0 and (i[2] < m["nr"] - 1 or np.isnan(a)):
            continue        # the flat half of the origin
        vc.check("a disk in every other cell", not any(np.isnan(z) for z in (a, b, r, inc, t)))
        vc.check("the disk passes through ingress and egress", through(vc, a, b, x, y))
        # the same for the disk as it is described to the user
        c, s = np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))
        for e in (0.5, -0.5):
            u, v = (e - x) * c - y * s, -(e - x) * s - y * c
            w = r * np.cos(np.deg2rad(inc))
            vc.check("the described disk passes through ingress and egress", w < 1e-6 * r or abs((u / r) ** 2 + (v / w) ** 2 - 1) < 1e-4)

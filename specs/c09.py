"""C09: grid axes span the requested ranges and extension mirrors them."""
from dv.common import harness
from specs.gridlib import grid, axes_are, lin

FUN = ["GridParameters.GridParameters.__init__", "GridParameters.GridParameters.get_vectors", "validate.number"]
EXT = ["GridParameters.GridParameters.extend_grid", "GridParameters.GridParameters.get_vectors"]
NAMES = ["x0", "x1", "nx", "y0", "y1", "ny", "r1", "nr"]


@harness(functions=FUN, runs=800, weight=4)
def construct(vc):
    GP = vc.mod("GridParameters").GridParameters
    m = {k: vc.int(k, small=6) if k[0] == "n" else vc.real(k, nan=True) for k in NAMES}
    valid = vc.and_(m["x0"] < m["x1"], m["y0"] < m["y1"], m["r1"] >= 1, m["nx"] >= 1, m["ny"] >= 1, m["nr"] >= 1)
    out = vc.call(GP, *[m[k] for k in NAMES])
    vc.check("accepted exactly when the ranges and counts are valid", vc.iff(out.ok, valid))
    if out.ok:
        axes_are(vc, out.value, m, "constructed")
        vc.check("extendable exactly when both axes start at zero", vc.iff(out.value.extendable, vc.and_(m["x0"] == 0, m["y0"] == 0)))


@harness(functions=FUN, runs=300, weight=1)
def wrong_kind(vc):
    GP = vc.mod("GridParameters").GridParameters
    m = dict(x0=0, x1=1, nx=2, y0=0, y1=1, ny=2, r1=2, nr=2)
    k = vc.choice("which", NAMES)
    v = vc.choice("value", ["text", "none", "list", "float"])
    m[k] = {"text": "1", "none": None, "list": [1.0]}.get(v) if v != "float" else vc.real("f", 1, 3)
    vc.assume(v != "float" or k[0] == "n")
    out = vc.call(GP, *[m[k] for k in NAMES])
    vc.check("arguments of the wrong kind are refused", (not out.ok) and type(out.exc) is TypeError)


@harness(functions=EXT, runs=600, weight=4)
def extend(vc):
    g, m = grid(vc, origin=True, hi=10, small=5)
    vc.check("a grid with both axes starting at zero is extendable", g.extendable)
    out = vc.call(g.extend_grid)
    vc.check("it can be extended", out.ok)
    ny, nx, nr = m["ny"], m["nx"], m["nr"]
    dy, dx, rfa = g.get_vectors()
    # the number of elements of the mirrored axes
    vc.check("extended lengths", vc.and_(vc.shape_is(dy, (2 * ny - 1,)), vc.shape_is(dx, (2 * nx - 1,)), vc.shape_is(rfa, (2 * nr - 1,))))
    vc.check("extended shapes", vc.and_(g.grid_shape[0] == 2 * ny - 1, g.grid_shape[1] == 2 * nx - 1, g.grid_shape[2] == 2 * nr - 1,
                                        g.slice_shape[0] == 2 * ny - 1, g.slice_shape[1] == 2 * nx - 1))
    vc.forall("x axis mirrored", (nx,), lambda k: vc.check("x axis mirrored about zero with the same spacing", vc.and_(
        vc.eq_abs(vc.at(dx, nx - 1 + k), lin(vc, 0, m["x1"], nx, k), m["x1"]), vc.eq_abs(vc.at(dx, nx - 1 - k), -lin(vc, 0, m["x1"], nx, k), m["x1"]))))
    vc.forall("y axis mirrored", (ny,), lambda k: vc.check("y axis mirrored about zero with the same spacing", vc.and_(
        vc.eq_abs(vc.at(dy, ny - 1 + k), lin(vc, 0, m["y1"], ny, k), m["y1"]), vc.eq_abs(vc.at(dy, ny - 1 - k), -lin(vc, 0, m["y1"], ny, k), m["y1"]))))
    vc.forall("rf unchanged", (nr,), lambda k: vc.check("radius factors unchanged", vc.and_(
        vc.eq(vc.at(g.rf, k), lin(vc, 1, m["r1"], nr, k)), vc.eq(vc.at(rfa, nr - 1 + k), lin(vc, 1, m["r1"], nr, k)), vc.eq(vc.at(rfa, nr - 1 - k), lin(vc, 1, m["r1"], nr, k)))))
    vc.assume(vc.or_(nx > 1, ny > 1))
    vc.check("an extended grid is not extendable", vc.not_(g.extendable))
    before = g.get_vectors()
    out = vc.call(g.extend_grid)
    vc.check("it can be extended only once", not out.ok)
    vc.check("the refused extension changes nothing", vc.and_(g.grid_shape[0] == 2 * ny - 1, g.grid_shape[1] == 2 * nx - 1))
    vc.forall("the refused extension changes no axis", (2 * nx - 1,), lambda k: vc.check("the refused extension changes no axis", vc.eq(vc.at(g.get_vectors()[1], k), vc.at(before[1], k))))


@harness(functions=EXT, runs=500, weight=4)
def not_extendable(vc):
    g, m = grid(vc, origin=False)
    out = vc.call(g.extend_grid)
    vc.check("a grid that does not start at the origin can not be extended", not out.ok)
    axes_are(vc, g, m, "after the refused extension")


@harness(functions=EXT, runs=200, weight=1)
def independent(vc):
    """changing returned vectors does not reach into the grid"""
    g, m = grid(vc)
    dy, dx, _ = g.get_vectors()
    dy[0] = 1000.0
    dx[0] = 1000.0
    a, b, _ = g.get_vectors()
    vc.check("the axes are not changed through returned vectors", vc.and_(vc.eq(vc.at(a, 0), m["y0"]), vc.eq(vc.at(b, 0), m["x0"])))

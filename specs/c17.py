"""C17: the extended grid is the mirror image of the first quadrant."""
from dv.common import harness
from specs.gridlib import grid, axes_are, same_array, contrast_contract
from specs.shallotlib import params, kind, NAMES

S_ = "Shallot.ShallotGrid."
EXT = [S_ + "__init__", S_ + "_extend_grid", S_ + "_fill_quadrants", "GridParameters.GridParameters.extend_grid"]


def built(vc, names, first):
    """the properties get arbitrary arrays (the concrete mode builds the grid
    and overwrites its values), kept in `first`"""
    cls, GP = vc.mod("Shallot").ShallotGrid, vc.mod("GridProperty").GridProperty
    real = cls.__dict__.get("_build_grid")

    def stub(self, *a, **k):
        if not vc.symbolic:
            real(self, *a, **k)
        for n in NAMES:
            arr = vc.array(f"built_{n}", tuple(self.parameters.grid_shape), nan=True) if n in names else None
            if not vc.symbolic:
                if arr is not None:
                    getattr(self, n).data = vc.copy_array(arr)
                first[n] = vc.copy_array(getattr(self, n).data)
            else:
                arr = vc.array(f"other_{n}", tuple(self.parameters.grid_shape), nan=True) if arr is None else arr
                first[n] = vc.copy_array(arr)
                setattr(self, n, GP(*kind(vc, n), arr, self.parameters))
    if vc.symbolic:
        if not vc.contract(cls, "_build_grid", stub):
            vc.unsupported("_build_grid is gone")
        return True
    if real is not None:
        cls._build_grid = stub
    return real is not None


def make(vc, names, origin):
    contrast_contract(vc)
    first = {}
    known = built(vc, names, first)
    g, m = params(vc, origin=origin)
    diag = vc.choice("diagnostics", [False, True])
    S = vc.mod("Shallot").ShallotGrid(g, vc.int("num", 1) if vc.symbolic else 8, 50, diag)
    return S, m, first, known, diag


def mirrored(vc, n, m, first, i):
    """(value at the mirrored first quadrant cell, does the tilt turn?, on an axis?)"""
    ny, nx = m["ny"], m["nx"]
    y, x, r = i
    jy, jx = vc.ite(y >= ny - 1, y - (ny - 1), (ny - 1) - y), vc.ite(x >= nx - 1, x - (nx - 1), (nx - 1) - x)
    turn = vc.or_(vc.and_(y > ny - 1, x < nx - 1), vc.and_(y < ny - 1, x > nx - 1))
    return vc.at(first[n], (jy, jx, r)), turn, vc.or_(y == ny - 1, x == nx - 1)


def extended(vc, names):
    S, m, first, known, diag = make(vc, names, True)
    ny, nx, nr = m["ny"], m["nx"], m["nr"]
    shape = (2 * ny - 1, 2 * nx - 1, 2 * nr - 1)
    p = S.parameters
    x0 = y0 = 0
    e = dict(m, ny=shape[0], nx=shape[1], x0=-m["x1"], y0=-m["y1"])
    # (one row or column stays a single point)
    if vc.symbolic:
        dy, dx, rfa = p.get_vectors()
        vc.check("axis lengths agree with the properties", vc.and_(vc.shape_is(dy, (shape[0],)), vc.shape_is(dx, (shape[1],)), vc.shape_is(rfa, (shape[2],))))
        vc.forall("x axis", (nx,), lambda k: vc.check("the x axis is mirrored", vc.and_(vc.eq(vc.at(dx, nx - 1 + k), -vc.at(dx, nx - 1 - k)), vc.eq(vc.at(dx, nx - 1 + k), m["x1"] * k / vc.ite(nx == 1, 1, nx - 1)))))
        vc.forall("y axis", (ny,), lambda k: vc.check("the y axis is mirrored", vc.and_(vc.eq(vc.at(dy, ny - 1 + k), -vc.at(dy, ny - 1 - k)), vc.eq(vc.at(dy, ny - 1 + k), m["y1"] * k / vc.ite(ny == 1, 1, ny - 1)))))
    else:
        axes_are(vc, p, e, "extended axes")
    vc.check("grid shape", vc.and_(*[a == b for a, b in zip(p.grid_shape, shape)], *[a == b for a, b in zip(p.slice_shape, shape[:2])]))
    # (a single cell at the origin is its own mirror image)
    vc.check("the extended grid is not extended again", vc.or_(vc.not_(p.extendable), vc.and_(ny == 1, nx == 1)))
    if hasattr(S, "shear") and hasattr(S, "circular_radius"):
        helpers(vc, S, p, shape)
    if diag:
        vc.check("diagnostics are extended (closed)", S.diagnostics is not None and closed(vc, S))
    else:
        vc.check("no diagnostics", S.diagnostics is None)
    for n in names:
        q = getattr(S, n)
        N, U = kind(vc, n)
        vc.check("name and unit are kept", q.name is N and q.unit is U)
        vc.check("an extended property has no mask", q.mask is None)
        vc.check(f"{n}: shape", vc.shape_is(q.data, shape))

        def cell(i):
            got = vc.at(q.data, i)
            if known:
                want, turn, axis = mirrored(vc, n, m, first, i)
            else:
                want, turn, axis = mirrored(vc, n, m, {n: q.data[ny - 1:, nx - 1:]}, i)
            if n != "tilt":
                vc.check(f"{n} of the mirrored cell", vc.eq(got, want))
            else:
                # on the axes a direction and its supplement are the same
                vc.check("tilt of the mirrored cell or its supplement", vc.or_(
                    vc.and_(vc.or_(vc.not_(turn), axis), vc.eq(got, want)), vc.and_(vc.or_(turn, axis), vc.eq(got, 180 - want))))
        vc.forall(n, shape, cell)


def helpers(vc, S, p, shape):
    vc.check("the helper grids have the extended shape", vc.and_(vc.shape_is(S.circular_radius, (shape[0], 1, 1)), vc.shape_is(S.shear, (shape[0], shape[1], 1))))
    vc.forall("shear", shape[:2], lambda t: vc.check("the shear belongs to the extended axes", vc.eq(vc.at(S.shear, (t[0], t[1], 0)), shear(vc, p, t))))


def closed(vc, S):
    a = vc.pyarray([1.0])
    return not vc.call(S.diagnostics.save_diagnostic, 0, 0, a, a).ok


def shear(vc, p, t):
    x, y = vc.at(p.get_vectors()[1], t[1]), vc.at(p.get_vectors()[0], t[0])
    return vc.ite(y == 0, vc.ite(x == 0, 0.0, float("nan")), -x / vc.ite(y == 0, 1, y))


@harness(functions=EXT, runs=40, weight=3)
def radius_and_inclination(vc):
    extended(vc, ("disk_radius", "inclination"))


@harness(functions=EXT, runs=40, weight=3)
def tilt(vc):
    extended(vc, ("tilt",))


@harness(functions=EXT, runs=40, weight=3)
def stretch(vc):
    extended(vc, ("fx_map", "fy_map"))


@harness(functions=EXT, runs=60, weight=3)
def not_extended(vc):
    """a grid that does not start at the origin is left as built"""
    S, m, first, known, diag = make(vc, NAMES, False)
    axes_are(vc, S.parameters, m, "axes")
    vc.check("not extendable", vc.not_(S.parameters.extendable))
    if diag:
        vc.check("diagnostics are not extended", S.diagnostics is not None and not closed(vc, S))
    for n in NAMES:
        if known:
            same_array(vc, getattr(S, n).data, first[n], f"{n} stays as built")
        vc.check("shape as built", vc.shape_is(getattr(S, n).data, m["shape"]))

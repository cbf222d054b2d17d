"""shared by the grid specifications"""


def grid(vc, p="", ny=None, nx=None, nr=None, origin=None, small=4, lo=-5, hi=5, min_y=1, min_x=1, rf1=None, low1=None, hi_r=5):
    """grid parameters of arbitrary size; -> (object, description)"""
    GP = vc.mod("GridParameters").GridParameters
    ny = vc.int(p + "ny", min_y, small=small - 1) if ny is None else ny
    nx = vc.int(p + "nx", min_x, small=small - 1) if nx is None else nx
    nr = vc.int(p + "nr", 1, small=small - 1) if nr is None else nr
    lo, hi = (None, None) if vc.symbolic else (lo, hi)
    if origin is True:
        x0 = y0 = 0
    else:
        x0, y0 = vc.real(p + "x0", lo, hi), vc.real(p + "y0", lo, hi)
    # (the concrete mode draws the upper end above the lower one)
    def upper(n, z0):
        if vc.symbolic:
            return vc.real(p + n, 0 if origin is True else lo, hi)
        # (drawn above the lower end, or mirrored)
        if z0 < 0 and -z0 >= (low1 or 0) and vc.choice(f"{p}{n} symmetric", [False, True]):
            return vc.real_is(p + n, -z0)
        return vc.real(p + n, max(z0 + 0.01, low1 or z0), hi + 2)
    x1, y1 = upper("x1", x0), upper("y1", y0)
    vc.assume(vc.and_(x0 < x1, y0 < y1))
    if not vc.symbolic:
        vc.assume(x1 - x0 > 1e-3 and y1 - y0 > 1e-3)
    if origin is False:
        vc.assume(vc.or_(vc.not_(x0 == 0), vc.not_(y0 == 0)))
    r1 = vc.real(p + "r1", 1, None if vc.symbolic else hi_r) if rf1 is None else rf1
    g = GP(x0, x1, nx, y0, y1, ny, r1, nr)
    return g, {"ny": ny, "nx": nx, "nr": nr, "x0": x0, "x1": x1, "y0": y0, "y1": y1, "r1": r1,
               "shape": (ny, nx, 2 * nr - 1)}


def contrast_contract(vc):
    """set_contrast_parameters without limits: any colour limits, nothing else
    changes (its contract is proved in C12)"""
    if not vc.symbolic:
        return
    cls = vc.mod("GridProperty").GridProperty

    def stub(self, vmin=None, vmax=None, color_map=None, num_colors=None):
        self.vmin = vc.fresh_real("vmin") if vmin is None else vmin
        self.vmax = vc.fresh_real("vmax") if vmax is None else vmax
        self.color_map = "viridis" if color_map is None else color_map
        self.num_colors = 11 if num_colors is None else num_colors
    vc.contract(cls, "set_contrast_parameters", stub)


def lin(vc, a, b, n, k):
    """k-th of n evenly spaced values from a to b"""
    return vc.ite(n == 1, a, a + (b - a) * k / vc.ite(n == 1, 1, n - 1))


def axes_are(vc, g, m, what):
    """the vectors and shapes of the grid are those described"""
    dy, dx, rfa = g.get_vectors()
    ny, nx, nr = m["ny"], m["nx"], m["nr"]
    vc.check(what + ": axis lengths", vc.and_(vc.shape_is(dy, (ny,)), vc.shape_is(dx, (nx,)), vc.shape_is(rfa, (2 * nr - 1,)), vc.shape_is(g.rf, (nr,))))
    vc.check(what + ": grid and slice shape", vc.and_(
        vc.length(g.grid_shape) == 3, vc.length(g.slice_shape) == 2,
        g.grid_shape[0] == ny, g.grid_shape[1] == nx, g.grid_shape[2] == 2 * nr - 1, g.slice_shape[0] == ny, g.slice_shape[1] == nx))
    sx, sy = abs(m["x0"]) + abs(m["x1"]), abs(m["y0"]) + abs(m["y1"])
    vc.forall(what + ": x axis", (nx,), lambda k: vc.check(what + ": x axis", vc.eq_abs(vc.at(dx, k), lin(vc, m["x0"], m["x1"], nx, k), sx)))
    vc.forall(what + ": y axis", (ny,), lambda k: vc.check(what + ": y axis", vc.eq_abs(vc.at(dy, k), lin(vc, m["y0"], m["y1"], ny, k), sy)))
    vc.forall(what + ": rf axis", (nr,), lambda k: vc.check(what + ": rf axis", vc.eq(vc.at(g.rf, k), lin(vc, 1, m["r1"], nr, k))))
    vc.forall(what + ": full rf axis", (nr,), lambda k: vc.check(what + ": full rf axis runs down to one and back", vc.and_(
        vc.eq(vc.at(rfa, nr - 1 + k), lin(vc, 1, m["r1"], nr, k)), vc.eq(vc.at(rfa, nr - 1 - k), lin(vc, 1, m["r1"], nr, k)))))


def same_grid(vc, a, b, what):
    """two grid parameter objects with equal axes and shapes"""
    for k, n in enumerate(["y axis", "x axis", "rf axis"]):
        u, v = a.get_vectors()[k], b.get_vectors()[k]
        same_array(vc, u, v, f"{what}: {n}")
    same_array(vc, a.rf, b.rf, what + ": rf")
    vc.check(what + ": shapes", vc.and_(*[p == q for p, q in zip(tuple(a.grid_shape) + tuple(a.slice_shape), tuple(b.grid_shape) + tuple(b.slice_shape))]))
    vc.check(what + ": extendable", vc.iff(a.extendable, b.extendable))


def same_array(vc, a, b, what, tol=None):
    """equal shape and values (NaN equal to NaN)"""
    vc.check(what + ": shape", vc.shape_is(a, vc.dims(b)))
    if vc.symbolic and vc.identical(a, b):
        vc.check(what, True)
        return
    vc.forall(what, vc.dims(b), lambda i: vc.check(what, vc.eq(vc.at(a, i), vc.at(b, i), tol)))


def values_are(vc, a, shape, f, what, tol=None):
    """a has the shape and the values f(index)"""
    vc.check(what + ": shape", vc.shape_is(a, shape))
    vc.forall(what, shape, lambda i: vc.check(what, vc.eq(vc.at(a, i), f(i), tol)))

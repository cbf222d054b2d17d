"""C24: every cell carries the radius factor sequence of its own disk family."""
from dv.common import harness
from specs.gridlib import contrast_contract
from specs.shallotlib import shallot, private, NAMES
from specs.buildlib import Built, Ghost, shear_at, disk_contract, factor_contract, position_contract, along
from specs.c15 import through, shear_and_radius
from specs.c16 import numeric

S_ = "Shallot.ShallotGrid."
D_ = "GridDiagnostics.GridDiagnostics."


@harness(functions=[S_ + "_build_grid", S_ + "__init__"], runs=20)
def column(vc):
    """radius, inclination and tilt of an arbitrary cell of an arbitrary grid
    are those of the stretch factors stored with it, with the shear and the
    circle radius of its own position; the stretch factors are those of its
    own family, which is also what the diagnostics keep"""
    keep = vc.choice("keep diagnostics", [False, True])
    kept = Ghost()

    def more(G):
        def save(self, y, x, fy, disk_radius):
            if vc.branch(vc.and_(y == G.cell[0], x == G.cell[1])):
                kept.value = (fy, disk_radius)
        G.known = vc.contract(vc.mod("GridDiagnostics").GridDiagnostics, "save_diagnostic", save) and G.known
    G = Built(vc, keep, [kept], True, more)
    if not G.known:
        vc.unsupported("other private functions")
        return
    y, x = G.cell
    dy, dx, _ = G.S.parameters.get_vectors()
    v, u = vc.at(dy, y), vc.at(dx, x)
    k = vc.int("k", 0, None if vc.symbolic else G.m["shape"][2] - 1)
    vc.assume(k < G.m["shape"][2])
    a, b, r, i, t = [G.at(n, k) for n in ("fx_map", "fy_map", "disk_radius", "inclination", "tilt")]
    if not vc.symbolic:
        s = shear_at(vc, u, v)
        if vc.isnan(s):
            vc.check("a cell without shear stays empty", all(vc.isnan(z) for z in (a, b, r, i, t)))
        elif not vc.isnan(a) and b > 0:
            numeric(vc, a, b, s, (0.25 + v * v) ** 0.5, r, i, t)
            vc.check("ellipse relation", through(vc, a, b, u, v))
        return
    s, R = vc.at(G.S.shear, (y, x, 0)), vc.at(G.S.circular_radius, (y, 0, 0))
    undefined = vc.isnan(s)
    vc.check("a cell without shear stays empty", vc.implies(undefined, vc.and_(*[vc.isnan(z) for z in (a, b, r, i, t)])))
    if vc.branch(undefined):
        vc.check("nothing is kept for a cell without shear", kept.value is None)
        return
    vc.check("computed once", vc.length(G.columns) == 1 and len(G.families) == 2)
    (F, D, row, fx, fy), (h, w) = G.columns[0], G.families
    vc.check("the family is that of the cell", vc.and_(h[1] == "horizontal", w[1] == "vertical", *[vc.and_(f[2] == x, f[3] == y) for f in (h, w)], row == y))
    n = vc.dims(h[4])[0]
    q = vc.int("q", 0)
    vc.assume(q < n + vc.dims(w[4])[0])
    vc.check("the family is passed on whole", vc.and_(vc.shape_is(F, (n + vc.dims(w[4])[0],)), vc.shape_is(D, (n + vc.dims(w[4])[0],))))
    for got, e in ((F, 4), (D, 5)):
        want = vc.ite(q < n, vc.at(h[e], vc.ite(q < n, q, 0)), vc.at(w[e], vc.ite(q < n, 0, q - n)))
        vc.check("the family is passed on unchanged", vc.eq(vc.at(got, q), want))
        if keep:
            vc.check("the diagnostics keep the family of the cell", kept.value is not None and vc.eq(vc.at(kept.value[e - 4], q), want))
    vc.check("stretch factors", vc.and_(vc.eq(a, vc.at(fx, k)), vc.eq(b, vc.at(fy, k))))
    for got, name in ((r, "radius_of"), (i, "inclination_of"), (t, "tilt_of")):
        vc.check(name[:-3] + " of the stored stretch factors", vc.eq(got, G.disk_of[name](a, b, s, R)))


@harness(functions=[S_ + "_determine_shear", S_ + "_determine_circular_radius", S_ + "__init__"], runs=60)
def position(vc):
    """the shear and the circle radius are those of the cell's own position;
    the shear is undefined on the transit line only"""
    shear_and_radius(vc)


def family(vc, n, p):
    """a disk family with its smallest disk at p: growing away from it, equal
    radii being the same disk; -> stretch factors, radii over the smallest
    one, smallest radius"""
    least = vc.real("least", 0, None if vc.symbolic else 2, lo_open=True)
    if vc.symbolic:
        F, G = [vc.recorded(vc.array(k, (n,))) for k in "FG"]
        vc.record((p,))
        vc.assume(vc.at(G, p) == 1)
        vc.assume_all((n,), lambda i: vc.at(G, i) >= 1)
        same = lambda i: vc.implies(vc.at(G, i[0]) == vc.at(G, i[1]), vc.at(F, i[0]) == vc.at(F, i[1]))
        vc.assume_pairs(n, lambda i: vc.implies(vc.and_(i[0] < i[1], p <= i[0]), vc.and_(vc.at(G, i[0]) <= vc.at(G, i[1]), same(i))))
        vc.assume_pairs(n, lambda i: vc.implies(vc.and_(i[0] < i[1], i[1] <= p), vc.and_(vc.at(G, i[1]) <= vc.at(G, i[0]), same(i))))
        return F, G, least
    import numpy as np
    F, d = vc.array("F", (n,), lo=0.2, hi=4), vc.array("growth", (n,), lo=0, hi=1)
    return np.sort(F), np.array([1 + sum(d[j] + 1e-3 for j in (range(p + 1, i + 1) if i > p else range(i, p))) for i in range(n)]), least


@harness(functions=[S_ + "_interpolate_scale_values"], runs=60)
def interpolated(vc):
    """the stretch factors of a column are those of the family at its radius
    factors (a family with one smallest disk)"""
    vc.option("opaque_products", True)
    S, m = shallot(vc, which=())
    if not private(vc, S, "_interpolate_scale_values", 3):
        return
    n, p, y = vc.int("n", 1, None if vc.symbolic else 9), vc.int("p", 0, None if vc.symbolic else 8), vc.int("y", 0, None if vc.symbolic else 2)
    vc.assume(vc.and_(p < n, y < m["ny"]))
    F, G, least = family(vc, n, p)
    D = vc.scale(least, G, p)
    if vc.symbolic:
        fx_of = factor_contract(vc, type(S))
        if fx_of is None:
            vc.unsupported("other private functions")
            return
    else:
        def fx_of(b, v):
            d = b * b * (1 + 4 * v * v) - 4 * v * v
            return b / d ** 0.5 if d > 0 else float("nan")
    at = lambda a, i: vc.at(a, i)
    fx, fy = S._interpolate_scale_values(F, D, y)
    nr = m["nr"]
    vc.check("one pair per radius factor", vc.and_(vc.shape_is(fx, (2 * nr - 1,)), vc.shape_is(fy, (2 * nr - 1,))))
    rf, dy = S.parameters.rf, S.parameters.get_vectors()[0]

    def cell(k):
        vc.check("fx belongs to fy on the own row", vc.eq(vc.at(fx, k), fx_of(vc.at(fy, k), vc.at(dy, y))))
        right = vc.branch(k >= nr - 1)
        f = vc.at(rf, k - (nr - 1) if right else nr - 1 - k)
        b = vc.at(fy, k)
        if vc.branch(k == nr - 1):
            vc.check("the middle is the smallest disk", vc.eq(b, at(F, p)))
            return
        # two neighbours of the family around the radius f * least
        q = vc.int("q", 0, None if vc.symbolic else n - 1)
        z = q + 1 if right else q - 1
        vc.assume(vc.and_(q < n, 0 <= z, z < n, p <= q if right else q <= p))
        vc.record((q,))
        vc.record((z,))
        vc.assume(vc.and_(at(G, q) <= f, f <= at(G, z)))
        vc.check("interpolated between the neighbours in the family", vc.eq((b - at(F, q)) * (at(G, z) - at(G, q)), (at(F, z) - at(F, q)) * (f - at(G, q)), 1e-7))
    vc.forall("column", (2 * nr - 1,), cell)


def extension(vc, which):
    """any number of rounds of the loop extending the family of a cell: every
    pair (fy, radius) is that of an ellipse of the cell's own family, and the
    largest radius factor of the grid is reached"""
    vc.option("opaque_products", True)
    S, m = shallot(vc, which=(), shear=True)
    name = "_extend_grid_" + which
    if not private(vc, S, name, 4):
        return
    y, x = vc.int("y", 0, None if vc.symbolic else m["ny"] - 1), vc.int("x", 0, None if vc.symbolic else m["nx"] - 1)
    vc.assume(vc.and_(y < m["ny"], x < m["nx"]))
    if not vc.symbolic:
        return concrete_extension(vc, S, which, y, x)
    cls = type(S)
    X, Y = factor_contract(vc, cls), vertical_contract(vc, cls)
    of = disk_contract(vc, cls)
    if X is None or Y is None or of is None or not hasattr(S, "shear") or not hasattr(S, "circular_radius"):
        vc.unsupported("other private functions")
        return
    s, R, v = vc.at(S.shear, (y, x, 0)), vc.at(S.circular_radius, (y, 0, 0)), vc.at(S.parameters.get_vectors()[0], y)
    member = vc.predicate("member", 2)
    stub = cls._determine_disk_parameters

    def disks(self, fx, fy, shear, radius):
        out = stub(self, fx, fy, shear, radius)
        out = (vc.recorded(out[0]),) + out[1:]

        def fact(i):
            a, b, r = vc.at(fx, i), vc.at(fy, i), vc.at(out[0], i)
            own = vc.and_(vc.eq(shear, s), vc.eq(radius, R), vc.or_(vc.eq(a, X(b, v)), vc.eq(b, Y(a, v))))
            return vc.and_(vc.implies(own, member(b, r)), vc.or_(vc.isnan(r), r > 0))
        vc.assume_all((vc.dims(fy)[0],), fact)
        return out
    cls._determine_disk_parameters = disks
    largest = vc.at(S.parameters.rf, m["nr"] - 1)
    n0 = 0 if which == "horizontally" else vc.int("n0", 1)
    F0, D0 = (vc.pyarray([], "float64"), vc.pyarray([], "float64")) if which == "horizontally" else (vc.array("F0", (n0,), nan=True), vc.array("D0", (n0,), nan=True))
    if which == "vertically":
        vc.assume_all((n0,), lambda i: vc.and_(member(vc.at(F0, i), vc.at(D0, i)), vc.or_(vc.isnan(vc.at(D0, i)), vc.at(D0, i) > 0)))

    def state(F, D, more, final, use):
        """the invariant, stated with `use` (an obligation or an assumption)"""
        if not (vc.is_array(F, 1) and vc.is_array(D, 1)):
            vc.unsupported("other variables")
            return
        n = vc.dims(F)[0]
        use("as many radii as stretch factors", vc.and_(vc.dims(D)[0] == n, n >= n0))
        use.all("every pair is an ellipse of the cell's family", n, lambda i: vc.and_(member(vc.at(F, i), vc.at(D, i)), vc.or_(vc.isnan(vc.at(D, i)), vc.at(D, i) > 0)))
        if which == "horizontally":
            use.all("the circle comes last", n, lambda i: vc.implies(i == n - 1, vc.eq(vc.at(F, i), Y(1.0, v))))
        else:
            use.all("the first part stays", n, lambda i: vc.implies(i < n0, vc.and_(vc.eq(vc.at(F, i), vc.at(F0, vc.ite(i < n0, i, 0))), vc.eq(vc.at(D, i), vc.at(D0, vc.ite(i < n0, i, 0))))))
            use.all("the circle comes first", n, lambda i: vc.implies(i == n0, vc.eq(vc.at(F, i), 1.0)))
        if more is not None:
            first = (n == n0)
            use("nothing yet in the first round", vc.iff(first, vc.and_(more[0] == 0, more[1])))
            use("rounds", more[0] >= 0)
        if final is not False:
            # the end of the family is not below the largest radius factor
            if not vc.branch(n >= 1):
                use("the largest radius factor is reached", vc.not_(final))
                return
            end = vc.at(D, 0 if which == "horizontally" else n - 1)
            use("the largest radius factor is reached", vc.implies(final, vc.not_(end / vc.least(D) < largest)))

    class Check:
        def __call__(self, name, c):
            vc.check(name, c)

        def all(self, name, n, p):
            vc.forall(name, (n,), lambda i: vc.check(name, p(i)))

    class Assume:
        def __call__(self, name, c):
            vc.assume(c)

        def all(self, name, n, p):
            vc.assume_all((n,), p)

    role = {}

    def inv(loc, mode):
        """the variables are told apart by what they hold at the entry: the
        family so far, a count of the rounds, perhaps a flag to go on"""
        if mode == "entry":
            role.update(F=[k for k, o in loc.items() if o is F0], D=[k for k, o in loc.items() if o is D0],
                        shift=[k for k, o in loc.items() if type(o) is int], repeat=[k for k, o in loc.items() if o is True])
            if [len(role[k]) for k in ("F", "D", "shift")] != [1, 1, 1] or len(role["repeat"]) > 1:
                vc.unsupported("a loop with other variables")
                return
            role["start"] = loc[role["shift"][0]]
        F, D, shift = [loc[role[k][0]] for k in ("F", "D", "shift")]
        repeat = loc[role["repeat"][0]] if role["repeat"] else True
        if not role["repeat"]:
            final = False
        else:
            final = vc.not_(repeat)
        state(F, D, (shift - role["start"], repeat), final, Assume() if mode == "assume" else Check())
    vc.loop(name, inv)
    out = vc.call(getattr(S, name), F0, D0, x, y)
    if not out.ok:
        vc.check("only a family that does not reach the radius factor is refused", out.raised(AttributeError))
        return
    F, D = out.value
    state(F, D, None, True, Check())


def vertical_contract(vc, cls):
    """fy is a function of fx and of dy, element by element (which: C15)"""
    f = vc.function("fy_of", 2)

    def stub(self, fx):
        dy = self.parameters.get_vectors()[0]
        n, at = along(vc, fx)
        return vc.mkarray((vc.dims(dy)[0], 1, n), lambda i: f(at(i[2]), vc.at(dy, i[0])))
    return f if vc.contract(cls, "_determine_fy", stub) else None


def concrete_extension(vc, S, which, y, x):
    import numpy as np
    dy, dx, _ = S.parameters.get_vectors()
    v, u = float(dy.ravel()[y]), float(dx.ravel()[x])
    vc.assume(abs(v) > 1e-6)
    e = np.array([])
    F0, D0 = S._extend_grid_horizontally(e, e, x, y)
    F, D = (F0, D0) if which == "horizontally" else S._extend_grid_vertically(F0, D0, x, y)
    vc.check("as many radii as stretch factors", F.shape == D.shape and len(F) >= len(F0))
    in_family(vc, F, D, v, u)
    vc.check("the circle", abs(F0[-1] - 1) < 1e-9 and (F is F0 or abs(F[len(F0)] - 1) < 1e-9))
    vc.check("the first part stays", np.array_equal(F[:len(F0)] if F is not F0 else F, F0))
    vc.check("the largest radius factor is reached", (D[0] if F is F0 else D[-1]) >= S.parameters.rf[-1] * np.nanmin(D) * (1 - 1e-9))


def in_family(vc, F, D, v, u):
    """the radii are those of the ellipses with the given fy"""
    import numpy as np
    c, s, R = 1 + 4 * v * v, -u / v, np.hypot(0.5, v)
    A = F / np.sqrt(F * F * c - 4 * v * v)
    big = [np.linalg.svd(R * np.array([[p, -s * q], [0.0, q]]))[1][0] for p, q in zip(A, F)]
    vc.check("every pair is an ellipse of the cell's family", np.allclose(D, big, rtol=1e-6))


@harness(functions=[S_ + "_extend_grid_horizontally", S_ + "_generate_fxy_array"], runs=30)
def flat_family(vc):
    extension(vc, "horizontally")


@harness(functions=[S_ + "_extend_grid_vertically", S_ + "_generate_fxy_array"], runs=30)
def tall_family(vc):
    extension(vc, "vertically")


@harness(functions=[S_ + "diagnose_fxfy_resolution", S_ + "__init__", S_ + "_extend_grid"], runs=40)
def resolution(vc):
    """the resolution map is the radius over the smallest one of the column
    minus the expected factor"""
    when = vc.choice("computed", ["at construction", "on demand"])
    S, m = shallot(vc, which=("disk_radius",), data=when == "on demand", bounds={"disk_radius": (0.01, None if vc.symbolic else 9)}, extend=vc.choice("extended", [False, True]))
    if when == "on demand":
        S.diagnose_fxfy_resolution()
    resolution_is(vc, S, m, when != "on demand")


def resolution_is(vc, S, m, positive):
    data = S.disk_radius.data
    if positive:
        vc.assume_all(m["shape"], lambda i: vc.or_(vc.isnan(vc.at(data, i)), vc.at(data, i) > 0))
    q = S.diagnostic_map
    N, U = vc.mod("GridPropertyName").GridPropertyName, vc.mod("GridPropertyUnit").GridPropertyUnit
    vc.check("name", q.name is N.DIAGNOSTIC_MAP)
    vc.check("no mask", q.mask is None)
    vc.check("shape", vc.shape_is(q.data, m["shape"]))
    rf = S.parameters.get_vectors()[2]

    def cell(i):
        vc.record((i[0], i[1], m["nr"] - 1))
        least = vc.at(data, (i[0], i[1], m["nr"] - 1))
        want = vc.at(data, i) / least - vc.at(rf, i[2])
        vc.check("radius factor minus the expected one", vc.eq(vc.at(q.data, i), want) if vc.symbolic else vc.eq(vc.at(q.data, i) + vc.at(rf, i[2]), vc.at(data, i) / least))
    vc.forall("cell", m["shape"], cell)


@harness(functions=[S_ + "diagnose_fxfy_resolution", S_ + "load", S_ + "_load_grid_attributes", S_ + "_extend_grid"], runs=40)
def resolution_loaded(vc):
    """the resolution map of a loaded grid is that of the grid as loaded,
    whether its building was complete or is completed by loading it (then a
    grid that starts at the origin is only extended at the end)"""
    cls = vc.mod("Shallot").ShallotGrid
    partly, extend = vc.choice("interrupted", [False, True]), vc.choice("extended", [False, True])
    import inspect
    whole = cls.__dict__.get("_extend_grid")
    if partly:
        f = cls.__dict__.get("save")
        if whole is None or f is None or list(inspect.signature(f).parameters) != ["self", "directory", "y_value"]:
            vc.unsupported("other private functions")
            return
        cls._extend_grid = lambda self: None
    S, m = shallot(vc, which=("disk_radius",), data=not partly, bounds={"disk_radius": (0.01, None if vc.symbolic else 9)}, extend=extend)
    if partly:
        S.save("part", 0)
        cls._extend_grid = whole
    else:
        S.save("part")
    out = vc.call(cls.load, "part")
    vc.check("loading succeeds", out.ok)
    L = out.value
    vc.check("the shape of the grid", L.parameters.grid_shape == m["shape"] if not vc.symbolic else vc.and_(*[vc.eq(a, b) for a, b in zip(L.parameters.grid_shape, m["shape"])]))
    resolution_is(vc, L, m, True)


@harness(functions=[S_ + "_build_grid", S_ + "diagnose_fxfy_resolution", S_ + "load", D_ + "get_diagnostic"], sym=False, runs=200, weight=1, cseconds=15)
def of_the_grid(vc):
    """(concrete) every cell of a built grid, its resolution map and the
    diagnostics kept with it"""
    import numpy as np, os
    keep = vc.choice("keep diagnostics", [False, True])
    extend = vc.choice("extended", [False, False, True])
    S, m = shallot(vc, which=(), data=False, num=vc.int("num", 60, 160), extend=extend, keep_diagnostics=keep)
    if vc.choice("loaded", [False, True]):
        d = os.path.join(vc.tmpdir(), "grid")
        S.save(d)
        S = type(S).load(d)
    dy, dx, rfa = [v.ravel() for v in S.parameters.get_vectors()]
    mid = m["nr"] - 1
    for y in range(m["ny"]):
        for x in range(m["nx"]):
            v, u = float(dy[y]), float(dx[x])
            r = S.disk_radius.data[y, x]
            want = r / r[mid] - rfa
            vc.check("resolution map", np.allclose(S.diagnostic_map.data[y, x], want, equal_nan=True, atol=1e-9))
            if abs(v) < 1e-9:
                continue
            vc.check("the radius factors of the column", bool(np.nanmax(np.abs(want)) < 0.05))
            vc.check("the middle is the smallest disk", bool(r[mid] <= np.nanmin(r) * (1 + 1e-9)))
            b = S.fy_map.data[y, x]
            vc.check("flat disks first, tall disks last", bool(np.all(np.diff(b) > -1e-9)))
            a, i, t = [getattr(S, p).data[y, x] for p in ("fx_map", "inclination", "tilt")]
            for k in range(len(r)):
                numeric(vc, a[k], b[k], -u / v, float(np.hypot(0.5, v)), r[k], i[k], t[k])
            if not keep or extend:
                continue        # (the keys of extended diagnostics: C11)
            F, D = S.diagnostics.get_diagnostic(y, x)
            in_family(vc, np.asarray(F), np.asarray(D), v, u)

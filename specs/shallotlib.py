"""a ShallotGrid in an arbitrary state, shared by the specifications"""
from specs.gridlib import grid, contrast_contract

PROPS = [("disk_radius", "DISK_RADIUS", "ECLIPSE_DURATION"), ("inclination", "INCLINATION", "DEGREE"), ("tilt", "TILT", "DEGREE"),
         ("fx_map", "FX_MAP", "NONE"), ("fy_map", "FY_MAP", "NONE")]
NAMES = [p[0] for p in PROPS]


def kind(vc, name):
    for n, a, b in PROPS:
        if n == name:
            return getattr(vc.mod("GridPropertyName").GridPropertyName, a), getattr(vc.mod("GridPropertyUnit").GridPropertyUnit, b)


def params(vc, p="", **k):
    """grid parameters that the concrete mode can build"""
    if vc.symbolic:
        return grid(vc, p, **k)
    k.setdefault("small", 3)
    k.setdefault("hi", 0.4)
    k.setdefault("lo", -2)
    k.setdefault("low1", 1.06)
    k.setdefault("hi_r", 3)
    for n in ("min_x", "min_y"):
        k.setdefault(n, 2)
    return grid(vc, p, **k)


def build_contract(vc, make):
    """_build_grid under contract: the properties get the arrays make() gives"""
    if not vc.symbolic:
        return False
    cls, GP = vc.mod("Shallot").ShallotGrid, vc.mod("GridProperty").GridProperty

    def stub(self, intermittent_saving=False, start_y=0):
        for n in NAMES:
            setattr(self, n, GP(*kind(vc, n), make(self, n), self.parameters))
    vc.contract(cls, "_build_grid", stub)


def shear_contract(vc):
    """the shear is an arbitrary array of slice shape (its values are those
    of C15; the functions specified with this contract do not read them)"""
    if not vc.symbolic:
        return

    def stub(self):
        ny, nx = self.parameters.slice_shape
        self.shear = vc.array("shear", (ny, nx, 1), nan=True)
    vc.contract(vc.mod("Shallot").ShallotGrid, "_determine_shear", stub)


def shallot(vc, p="", nan=True, extend=False, data=True, which=NAMES, bounds=None, keep_diagnostics=False, num=None, shear=False, **k):
    """-> (grid object, description m with the arrays m["data"])

    extend: False (no extension), True (extended), None (either); the arrays
    are arbitrary after construction (and after the extension)"""
    contrast_contract(vc)
    cls = vc.mod("Shallot").ShallotGrid
    g, m = params(vc, p, origin=extend, **k)
    if vc.symbolic:
        build_contract(vc, lambda self, n: vc.array(f"{p}built_{n}", self.parameters.grid_shape, nan=True))
        if not shear:
            shear_contract(vc)
    num = (vc.int(p + "num", 1) if vc.symbolic else 8) if num is None else num
    S = cls(g, num, 50, keep_diagnostics)
    m["num"] = num
    if extend:
        m["ny"], m["nx"] = 2 * m["ny"] - 1, 2 * m["nx"] - 1
    m["shape"] = (m["ny"], m["nx"], 2 * m["nr"] - 1)
    m["data"] = {}
    for n in (which if data else []):
        lo, hi = (bounds or {}).get(n, (None, None))
        a = vc.array(p + n, m["shape"], nan=nan, lo=lo, hi=hi)
        m["data"][n] = vc.copy_array(a)
        getattr(S, n).data = a
    return S, m


def masks(vc, S, m, which=("disk_radius", "inclination", "tilt"), p="", full=True):
    """arbitrary own masks; -> {name: mask or None}"""
    out = {}
    for n in which:
        if vc.choice(f"{p}{n} has mask", [True, False] if full else [True]):
            M = vc.array(f"{p}{n}_mask", m["shape"], kind="b")
            out[n] = vc.copy_array(M)
            getattr(S, n).set_mask(M)
        else:
            out[n] = None
    return out


def any_gradients(vc, S, m, p="", cell=False, measured=False, masked=None):
    """any number of gradients with arbitrary data and masks (see dv.vlist)

    -> (number, {what: array with one entry per gradient}, mask of the cells
    hidden by one of them); loops that combine the masks are described by
    "is the cell hidden by one of the first k gradients?", whatever the kind
    of the array"""
    n = vc.int(p + "any number", 1)
    G = vc.mod("GridProperty").GridGradient
    A = {"data": vc.array(p + "gs", (n, *m["shape"]), nan=True), "mask": vc.array(p + "gs_mask", (n, *m["shape"]), kind="b"),
         "has": vc.array(p + "gs_has_mask", (n,), kind="b"), "pos": vc.array(p + "gs_pos", (n,))}
    if measured:
        A["scaled"], A["error"] = vc.array(p + "gs_scaled", (n,), lo=0, hi=1), vc.array(p + "gs_error", (n,), lo=0)
    some = vc.array(p + "gs_some", (n + 1, *m["shape"]), kind="b")
    count = vc.array(p + "gs_count", (n + 1, *m["shape"]), lo=1)
    many = vc.array(p + "gs_many", (n + 1, *m["shape"]), kind="i", lo=1)

    def item(k):
        o = G(vc.mkarray(m["shape"], lambda i: vc.at(A["data"], (k, *i))), S.parameters, vc.at(A["pos"], k))
        if measured:
            o.determine_mask(vc.at(A["scaled"], k), 1.0, 1.0, vc.at(A["error"], k))
        if measured or vc.branch(vc.at(A["has"], k)):
            o.set_mask(vc.mkarray(m["shape"], lambda i: vc.at(A["mask"], (k, *i)), "bool"))
        return o

    def true(a, x):
        return x if a.dtype.kind == "b" else x >= 1

    def entry(a, i, x0):
        return True if a.dtype.kind == "b" else vc.or_(vc.eq(x0, 0), x0 >= 1)

    def state(a, k, i, x0):
        h = vc.or_(vc.at(some, (k, *i)), true(a, x0))
        if a.dtype.kind == "b":
            return h
        return vc.ite(h, vc.at(count, (k, *i)), 0.0) if a.dtype.kind == "f" else vc.ite(h, vc.at(many, (k, *i)), 0)

    def step(a, k, i, x0, x):
        mine = vc.at(A["mask"], (k, *i))
        if not measured:
            mine = vc.and_(vc.at(A["has"], k), mine)
        h = vc.or_(vc.at(some, (k, *i)), true(a, x0), mine)
        return vc.and_(vc.iff(true(a, x), h), entry(a, i, x))
    K = vc.int(p + "one of them", 0, n - 1) if cell else None
    S.gradients = vc.vlist(n, item, (entry, state, step), K)
    A["one"] = K
    return n, A, vc.mkarray(m["shape"], lambda i: vc.at(some, (n, *i)), "bool")


def add_plain_gradients(vc, S, m, lo=0, hi=2, p="", unbounded=False):
    """gradients with arbitrary data and masks; -> [(object, data, mask)]

    unbounded: (None, None, mask) stands for any number of gradients hiding
    the cells of the mask"""
    if unbounded and vc.symbolic and vc.choice(p + "any number of gradients", [True, False]):
        return [(None, None, any_gradients(vc, S, m, p)[2])]
    n = vc.seq(p + "gradients", lo, hi)
    G = vc.mod("GridProperty").GridGradient
    out = []
    for k in range(n):
        a = vc.array(f"{p}g{k}", m["shape"], nan=True)
        o = G(a, S.parameters, vc.real(f"{p}g{k}pos"))
        M = None
        if vc.choice(f"{p}g{k} has mask", [True, False]):
            M = vc.array(f"{p}g{k}_mask", m["shape"], kind="b")
            o.set_mask(vc.copy_array(M))
        out.append((o, vc.copy_array(a), M))
    if n:
        S.gradients = [o for o, _, _ in out]
    return out


def private(vc, S, name, n):
    """is there a private function of this name with n parameters?  (it may
    be renamed or merged into its caller: then its harness is skipped)"""
    f = getattr(S, name, None)
    if f is None:
        vc.unsupported(f"{name} is gone")
        return False
    import inspect
    try:
        k = len(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        k = n
    if k != n:
        vc.unsupported(f"{name} takes other arguments")
        return False
    return True

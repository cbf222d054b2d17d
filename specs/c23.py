"""C23: a saved grid loads back equal, and an interrupted build resumes to the same grid."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, params, masks, kind, NAMES
from specs.buildlib import Ghost, family_contract, disk_contract, factor_contract, interpolation_contract
from specs.c10 import same_gradient, same_diagnostics

S_ = "Shallot.ShallotGrid."
FUNCTIONS = [S_ + n for n in ("save", "load", "_load_grid_attributes", "__init__")]


def gradients(vc, S, m, many):
    """up to two gradients in the order of their positions"""
    G = vc.mod("GridProperty").GridGradient
    n = vc.seq("gradients", 0, many)
    out, last = [], None
    for k in range(n):
        pos = vc.real(f"g{k}pos", -9, 9)
        if last is not None:
            vc.assume(pos - last > 0.001)
        last = pos
        o = G(vc.array(f"g{k}", m["shape"], nan=True, lo=0, hi=1), S.parameters, pos)
        if vc.choice(f"g{k} measured", [False, True]):
            mg, os_, tc, me = vc.real(f"g{k}mg", 0, 1), vc.real(f"g{k}os", 0), vc.real(f"g{k}tc", 0, 1), vc.real(f"g{k}me", 0)
            vc.assume(vc.and_(tc > 0, mg * os_ <= tc))
            if not vc.symbolic:
                vc.assume(tc > 1e-6 and mg * os_ / tc <= 1 - 1e-9)
            o.determine_mask(mg, os_, tc, me)
        elif vc.choice(f"g{k} masked", [False, True]):
            o.set_mask(vc.array(f"g{k}mask", m["shape"], kind="b"))
        out.append(o)
    if n:
        S.gradients = out
    return out


def same_arrays(vc, pairs, what):
    """each pair of equal shape and values; the pairs share their shape"""
    pairs = list(pairs)
    for a, b in pairs:
        vc.check(what + ": shape", vc.shape_is(a, vc.dims(b)))
    pairs = [(a, b) for a, b in pairs if not (vc.symbolic and vc.identical(a, b))]
    if pairs:
        vc.forall(what, vc.dims(pairs[0][1]), lambda i: vc.check(what, vc.and_(*[vc.eq(vc.at(a, i), vc.at(b, i)) for a, b in pairs])))


def same_properties(vc, T, S, names, what):
    """values, masks and grids of properties, and the grids of the objects"""
    P = [(getattr(T, n), getattr(S, n)) for n in names]
    for a, b in P:
        vc.check(what + ": name and unit", a.name == b.name and a.unit == b.unit)
        vc.check(what + ": mask kept", (a.mask is None) == (b.mask is None))
    same_arrays(vc, [(a.data, b.data) for a, b in P] + [(a.mask, b.mask) for a, b in P if b.mask is not None], what + ": values and masks")
    G = [(T.parameters, S.parameters)] + [(a.grid_parameters, b.grid_parameters) for a, b in P]
    for k, n in enumerate(["y axis", "x axis", "rf axis"]):
        same_arrays(vc, [(a.get_vectors()[k], b.get_vectors()[k]) for a, b in G], f"{what}: {n}")
    same_arrays(vc, [(a.rf, b.rf) for a, b in G], what + ": rf")
    for a, b in G:
        vc.check(what + ": shapes", vc.and_(*[p == q for p, q in zip(tuple(a.grid_shape) + tuple(a.slice_shape), tuple(b.grid_shape) + tuple(b.slice_shape))]))
        vc.check(what + ": extendable", vc.iff(a.extendable, b.extendable))


def same_shallot(vc, T, S, what, diag=None):
    same_properties(vc, T, S, NAMES, what)
    if S.gradients is None:
        vc.check(what + ": no gradients", T.gradients is None)
    else:
        vc.check(what + ": gradients", T.gradients is not None and len(T.gradients) == len(S.gradients))
        for a, b in zip(T.gradients, S.gradients):
            same_gradient(vc, a, b, what + ": gradient")
    vc.check(what + ": diagnostics kept", (T.diagnostics is None) == (S.diagnostics is None))
    if S.diagnostics is not None and diag is not None:
        same_diagnostics(vc, T.diagnostics, S.diagnostics, diag, False, what + ": diagnostics")
    vc.check(what + ": number of stretch factors", T.num_fxfy == S.num_fxfy)


def saving(vc, maskable, many, extend, points):
    keep = points is not None
    S, m = shallot(vc, nan=True, extend=extend, keep_diagnostics=keep, which=NAMES if maskable else ("tilt", "fy_map"), **({"min_x": 2, "min_y": 2} if extend else {}))
    masks(vc, S, m, which=maskable)
    gradients(vc, S, m, many)
    quad = {"ny": m["ny"], "nx": m["nx"]}
    if keep:
        for k in range(points):
            y, x = vc.int(f"py{k}", 0, m["ny"] - 1), vc.int(f"px{k}", 0, m["nx"] - 1)
            if not extend:
                n = vc.int(f"pn{k}", 0, small=4)
                S.diagnostics.save_diagnostic(y, x, vc.array(f"fy{k}", (n,), nan=True), vc.array(f"r{k}", (n,), nan=True))
    d = vc.tmpdir() + "/a"
    out = vc.call(S.save, d)
    vc.check("saving succeeds", out.ok)
    out = vc.call(type(S).load, d)
    vc.check("loading succeeds", out.ok)
    T = out.value
    same_shallot(vc, T, S, "loaded", quad if keep and not extend else None)


@harness(functions=FUNCTIONS, runs=60, weight=3)
def saved_masks(vc):
    """properties with and without masks, extended or not (a grid of one row
    or column through the origin can not be built)"""
    saving(vc, vc.choice("masks of", [("disk_radius", "inclination"), ("tilt", "fx_map"), ("fy_map",)]), 0, vc.choice("extended", [False, True]), None)


@harness(functions=FUNCTIONS, bound="up to two gradients", runs=60, weight=3)
def saved_gradients(vc):
    """gradients with and without a measurement or a mask"""
    saving(vc, (), 2, False, None)


@harness(functions=FUNCTIONS, bound="up to two stored points", runs=60, weight=2)
def saved_diagnostics(vc):
    saving(vc, (), 0, False, vc.seq("points", 0, 2))


def temporary(vc):
    """the temporary directory, or None if the code has none of that name"""
    return getattr(vc.mod("Shallot"), "TEMP_SAVE_DIR", None)


@harness(functions=[S_ + "_build_grid", S_ + "_create_temp_save_dir", S_ + "_delete_temp_save_dir", S_ + "_initialise_grid_properties"], conc=False)
def resumed(vc):
    """a build started at any row: the rows before keep their values, every
    other cell becomes that of an uninterrupted build (C24, column); each row
    is saved when it is complete; the temporary directory, whether it was
    there or not, is gone at the end and everything else is still there"""
    T = temporary(vc)
    cls = vc.mod("Shallot").ShallotGrid
    build, save = cls.__dict__.get("_build_grid"), cls.__dict__.get("save")
    import inspect
    if T is None or build is None or list(inspect.signature(build).parameters) != ["self", "intermittent_saving", "start_y"]:
        vc.unsupported("other private functions")
        return
    keep = vc.choice("keep diagnostics", [False, True])
    S, m = shallot(vc, nan=True, keep_diagnostics=keep)
    families, columns, rows = [], [], []
    saved, kept = Ghost(), Ghost()
    known = family_contract(vc, cls, lambda *a: families.append(a))
    of, fx_of = disk_contract(vc, cls), factor_contract(vc, cls)
    if not known or of is None or fx_of is None or not interpolation_contract(vc, cls, fx_of, columns):
        vc.unsupported("other private functions")
        return
    y, x = vc.int("y", 0), vc.int("x", 0)
    vc.assume(vc.and_(y < m["ny"], x < m["nx"]))
    shear, radius = vc.array("the_shear", (m["ny"], m["nx"], 1), nan=True), vc.array("the_radius", (m["ny"], 1, 1))
    if not hasattr(S, "shear") or not hasattr(S, "circular_radius"):
        vc.unsupported("other attributes")
    S.shear, S.circular_radius = shear, radius
    s, R = vc.at(shear, (y, x, 0)), vc.at(radius, (y, 0, 0))
    k = vc.int("k", 0)
    vc.assume(k < m["shape"][2])
    start = vc.int("start", 0)
    vc.assume(start <= m["ny"] - 1)
    before = [vc.at(getattr(S, n).data, (y, x, k)) for n in NAMES]
    # an interrupted build: what is not built is NaN
    vc.assume(vc.implies(vc.or_(vc.isnan(s), y > start), vc.and_(*[vc.isnan(v) for v in before])))

    def stub(self, directory, y_value=None):
        if y_value is None or directory != T:
            vc.unsupported("another way to save a row")
        if not vc.os.path.exists(T):
            vc.os.mkdir(T)
        if vc.branch(y_value == y):
            saved.value = [vc.at(getattr(self, n).data, (y, x, k)) for n in NAMES]
    vc.contract(cls, "save", stub)
    if keep:
        def save_d(self, yy, xx, fy, disk_radius):
            if vc.branch(vc.and_(yy == y, xx == x)):
                kept.value = (fy, disk_radius)
        if not vc.contract(vc.mod("GridDiagnostics").GridDiagnostics, "save_diagnostic", save_d):
            vc.unsupported("other functions")
    vc.os.mkdir("other")
    vc.np.save("other/file", vc.np.zeros(2))
    if vc.choice("older", [False, True]):
        vc.os.mkdir(T)
        vc.os.mkdir(T + "/gradient_0")
    S.save = None
    del S.save
    others = vc.fs_files("other")
    vc.cells((y, x), lambda loc: [getattr(loc["self"], n).data for n in NAMES], [saved, kept])
    out = vc.call(build, S, True, start)
    vc.check("the build succeeds", out.ok)
    vc.check("the temporary directory is gone", not vc.os.path.exists(T))
    vc.check("other directories stay", vc.os.path.exists("other") and vc.fs_files("other") == others)
    after = [vc.at(getattr(S, n).data, (y, x, k)) for n in NAMES]
    if vc.branch(y < start):
        vc.check("rows before the start keep their values", vc.and_(*[vc.eq(a, b) for a, b in zip(after, before)]))
        return
    vc.check("the row is saved when complete", saved.value is not None and vc.and_(*[vc.eq(a, b) for a, b in zip(after, saved.value)]))
    if vc.branch(vc.isnan(s)):
        vc.check("a cell without shear stays empty", vc.and_(*[vc.isnan(a) for a in after]))
        return
    vc.check("computed once", len(columns) == 1 and len(families) == 2)
    (F, D, row, fx, fy), (h, w) = columns[0], families
    vc.check("computed for the own cell", vc.and_(h[1] == "horizontal", w[1] == "vertical", *[vc.and_(f[2] == x, f[3] == y) for f in (h, w)], row == y))
    a, b = vc.at(fx, k), vc.at(fy, k)
    want = [of["radius_of"](a, b, s, R), of["inclination_of"](a, b, s, R), of["tilt_of"](a, b, s, R), a, b]
    vc.check("as in an uninterrupted build", vc.and_(*[vc.eq(p, q) for p, q in zip(after, want)]))
    if keep:
        vc.check("its diagnostics are kept", kept.value is not None)


@harness(functions=[S_ + "load", S_ + "save", S_ + "_load_grid_attributes"], conc=False)
def handed_over(vc):
    """loading an intermediate save hands the saved state and the row to the
    building, with intermittent saving; loading a finished save builds
    nothing"""
    T = temporary(vc)
    cls = vc.mod("Shallot").ShallotGrid
    import inspect
    f = cls.__dict__.get("save")
    b = cls.__dict__.get("_build_grid")
    if T is None or f is None or b is None or list(inspect.signature(f).parameters) != ["self", "directory", "y_value"] or list(inspect.signature(b).parameters) != ["self", "intermittent_saving", "start_y"]:
        vc.unsupported("other private functions")
        return
    S, m = shallot(vc, nan=True, which=("disk_radius", "tilt"), shear=True)
    partly, d = vc.choice("interrupted", [(True, T), (True, "elsewhere"), (False, "elsewhere")])
    y = vc.int("row", 0)
    vc.assume(y < m["ny"])
    out = vc.call(S.save, d, y) if partly else vc.call(S.save, d)
    vc.check("saving succeeds", out.ok)
    calls = []
    plain = cls._build_grid

    def stub(self, intermittent_saving=False, start_y=0):
        if not vc.branch(intermittent_saving):
            return plain(self, intermittent_saving, start_y)
        calls.append(start_y)
        same_properties(vc, self, S, NAMES, "handed over")
        same_array(vc, self.shear, S.shear, "handed over: shear")
        same_array(vc, self.circular_radius, S.circular_radius, "handed over: circle radius")
        vc.check("handed over: number of stretch factors", self.num_fxfy == S.num_fxfy)
    cls._build_grid = stub
    out = vc.call(cls.load, d)
    vc.check("loading succeeds", out.ok)
    if partly:
        vc.check("the building goes on at the saved row", len(calls) == 1 and vc.or_(calls[0] == y, calls[0] == y + 1))
    else:
        vc.check("a finished grid is not built again", calls == [])


class Watch:
    """calls back before each file operation of the code"""

    def __init__(self, before):
        self.before, self.on, self.undo = before, False, []

    def __enter__(self):
        import os, shutil, builtins
        import numpy as np
        for mod, names in ((np, ("save", "savetxt", "savez")), (os, ("mkdir", "makedirs", "remove", "rename", "replace", "rmdir")), (shutil, ("rmtree", "move", "copy")), (builtins, ("open",))):
            for n in names:
                self.patch(mod, n)
        return self

    def patch(self, mod, n):
        f = getattr(mod, n)

        def g(*a, **k):
            write = n != "open" or (len(a) > 1 and any(c in str(a[1]) for c in "wax+"))
            if not (self.on and write):
                return f(*a, **k)
            self.on = False
            try:
                self.before()
                return f(*a, **k)
            finally:
                self.on = True
        setattr(mod, n, g)
        self.undo.append((mod, n, f))

    def __exit__(self, *a):
        for mod, n, f in reversed(self.undo):
            setattr(mod, n, f)


@harness(functions=[S_ + "_build_grid", S_ + "load", S_ + "save", S_ + "_create_temp_save_dir", S_ + "_delete_temp_save_dir"], sym=False, runs=25, weight=2, cseconds=30)
def interrupted(vc):
    """(concrete) builds cut off after a saved row, or at a file operation of
    a later intermediate save, then resumed"""
    import os, shutil
    import numpy as np
    T = temporary(vc)
    if T is None:
        vc.assume(False)
    cls = vc.mod("Shallot").ShallotGrid
    keep = vc.choice("keep diagnostics", [False, True])
    origin = vc.choice("origin", [False, True])
    n = vc.int("num", 10, 30)
    p, m = params(vc, origin=origin)
    again = lambda: copy_of(vc, m)
    for d in ("grid", "temp_shallot", ".temp", ".temp_shallot2"):
        os.mkdir(d)
        open(d + "/f", "w").close()
    older = vc.choice("older", ["none", "file", "build"])
    if older == "file":
        os.mkdir(T)
        open(T + "/y_value.npy", "w").close()
    elif older == "build":
        # left by an interrupted build of another kind
        cls(again(), n, 50, True).save(T, y_value=0)
    here = sorted(f for f in os.listdir(".") if f != os.path.basename(T))
    whole = cls(again(), n, 50, keep)
    snaps = []
    done, seen = [0], [0]
    # (a save takes about 30 file operations)
    after = [0]
    wanted = {vc.int(f"point{i}", 0, 30 * m["ny"]) for i in range(4)}

    def snapshot():
        if not (done[0] and os.path.isdir(T)):
            return
        seen[0] += 1
        if seen[0] - 1 in wanted or after[0] != done[0]:
            # (always right after a saved row)
            after[0] = done[0]
            d = f"snap{len(snaps)}"
            shutil.copytree(T, d)
            snaps.append((d, done[0]))
    plain = cls.save

    def save(self, directory, *a, **k):
        plain(self, directory, *a, **k)
        if os.path.realpath(directory) == os.path.realpath(T):
            done[0] += 1
    cls.save = save
    with Watch(snapshot) as w:
        w.on = True
        S = cls(p, n, 50, keep, intermittent_saving=True)
        w.on = False
    cls.save = plain
    vc.check("intermittent saving changes nothing", equal(S, whole))
    vc.check("the temporary directory is gone", not os.path.exists(T))
    left = sorted(f for f in os.listdir(".") if not f.startswith("snap"))
    vc.check("other directories stay", left == here and all(os.path.isfile(d + "/f") for d in ("grid", "temp_shallot", ".temp", ".temp_shallot2")))
    for i, (d, rows) in enumerate(snaps):
        if os.path.exists(T):
            shutil.rmtree(T)
        shutil.copytree(d, T)
        where = T
        if vc.choice(f"moved{i}", [False, True]):
            where = "moved"
            shutil.move(T, where)
        mark = None
        if rows > 1 and not origin and vc.choice(f"marked{i}", [False, True]):
            # a mark in a row before the last saved one must survive
            P = vc.mod("GridProperty").GridProperty
            q = P.load(where, *kind(vc, "inclination"))
            q.data[0, 0, 0] = mark = 12.345
            q.save(where)
        R = cls.load(where, 50)
        if where != T:
            shutil.rmtree(where)
        if mark is not None:
            vc.check("rows before the last saved one are kept", R.inclination.data[0, 0, 0] == mark)
            R.inclination.data[0, 0, 0] = whole.inclination.data[0, 0, 0]
        vc.check("resumed: the same grid", equal(R, whole))
        vc.check("resumed: the temporary directory is gone", not os.path.exists(T))
        left = sorted(f for f in os.listdir(".") if not f.startswith("snap"))
        vc.check("resumed: other directories stay", left == here and all(os.path.isfile(d + "/f") for d in ("grid", "temp_shallot", ".temp", ".temp_shallot2")))


def copy_of(vc, m):
    return vc.mod("GridParameters").GridParameters(m["x0"], m["x1"], m["nx"], m["y0"], m["y1"], m["ny"], m["r1"], m["nr"])


def equal(a, b):
    """(concrete) two grids with the same contents"""
    import numpy as np
    for n in NAMES + ["diagnostic_map"]:
        p, q = getattr(a, n), getattr(b, n)
        if p.name != q.name or p.unit != q.unit or p.data.shape != q.data.shape or not np.allclose(p.data, q.data, rtol=1e-12, atol=0 if n != "diagnostic_map" else 1e-12, equal_nan=True):
            return False
        if (p.mask is None) != (q.mask is None) or (p.mask is not None and not np.array_equal(p.mask, q.mask)):
            return False
    if any(not np.array_equal(u, v) for u, v in zip(a.parameters.get_vectors(), b.parameters.get_vectors())):
        return False
    if (a.diagnostics is None) != (b.diagnostics is None) or a.gradients != b.gradients:
        return False
    if a.diagnostics is not None:
        ny, nx = b.parameters.slice_shape
        for y in range(ny):
            for x in range(nx):
                u, v = [got(o.diagnostics, y, x) for o in (a, b)]
                if (u is None) != (v is None) or (u is not None and not all(np.array_equal(p, q, equal_nan=True) for p, q in zip(u, v))):
                    return False
    return True


def got(D, y, x):
    try:
        return D.get_diagnostic(y, x)
    except Exception:
        return None

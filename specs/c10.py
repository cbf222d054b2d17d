"""C10: saving and loading grid objects is lossless."""
from dv.common import harness
from specs.gridlib import grid, same_grid, same_array, contrast_contract

PARS = ["GridParameters.GridParameters.save", "GridParameters.GridParameters.load"]
PROP = ["GridProperty.GridProperty.save", "GridProperty.GridProperty.load"] + PARS
GRAD = ["GridProperty.GridGradient.save_gradient", "GridProperty.GridGradient.load"] + PROP
DIAG = ["GridDiagnostics.GridDiagnostics.save", "GridDiagnostics.GridDiagnostics.load"]


def kinds(vc):
    """a property name and a unit"""
    N, U = vc.mod("GridPropertyName").GridPropertyName, vc.mod("GridPropertyUnit").GridPropertyUnit
    return vc.choice("kind", [(N.DISK_RADIUS, U.ECLIPSE_DURATION), (N.TILT, U.DEGREE), (N.FX_MAP, U.NONE)])


def prop(vc, p, g, m, kind, mask):
    GP = vc.mod("GridProperty").GridProperty
    q = GP(kind[0], kind[1], vc.array(p + "data", m["shape"], nan=True), g)
    if mask:
        q.set_mask(vc.array(p + "mask", m["shape"], kind="b"))
    return q


def gradient(vc, p, g, m, measured, position=None):
    """a gradient, possibly with a measurement and its mask"""
    GG = vc.mod("GridProperty").GridGradient
    pos = position if position is not None else vc.real(p + "pos", -9, 9)
    q = GG(vc.array(p + "data", m["shape"], nan=True, lo=0, hi=1), g, pos)
    if measured:
        mg, os_, tc, me = vc.real(p + "mg", 0, 1), vc.real(p + "os", 0), vc.real(p + "tc", 0, 1), vc.real(p + "me", 0)
        vc.assume(vc.and_(tc > 0, mg * os_ <= tc))
        if not vc.symbolic:
            vc.assume(tc > 1e-6 and mg * os_ / tc <= 1 - 1e-9)
        q.determine_mask(mg, os_, tc, me)
    return q


def same_mask(vc, a, b, what):
    if b is None:
        vc.check(what + ": no mask", a is None)
    else:
        vc.check(what + ": mask kept", a is not None)
        if a is not None:
            same_array(vc, a, b, what + ": mask")


def same_property(vc, a, b, what):
    vc.check(what + ": name and unit", a.name == b.name and a.unit == b.unit)
    same_array(vc, a.data, b.data, what + ": values")
    same_mask(vc, a.mask, b.mask, what)
    same_grid(vc, a.grid_parameters, b.grid_parameters, what + ": grid")


def same_gradient(vc, a, b, what):
    same_property(vc, a, b, what)
    vc.check(what + ": position", vc.eq(a.position, b.position))
    for n in ("measured_gradient", "measured_error", "orbital_scale", "transmission_change"):
        u, v = getattr(a, n), getattr(b, n)
        if v is None:
            vc.check(what + ": no measurement", u is None)
        else:
            vc.check(what + ": measurement", u is not None and vc.eq(u, v))


def load_error(vc, out):
    return (not out.ok) and isinstance(out.exc, vc.mod("errors").LoadError)


def gradient_dirs(vc, d):
    return [d + "/" + f for f in vc.fs_files(d) if vc.os.path.isdir(d + "/" + f)]


@harness(functions=PARS, runs=300, weight=2)
def parameters(vc):
    GP = vc.mod("GridParameters").GridParameters
    d = vc.tmpdir() + "/a"
    again = vc.choice("older", ["none", "older save"])
    if again != "none":
        grid(vc, "o")[0].save(d)
    g, m = grid(vc, origin=vc.choice("origin", [None, True]))
    if vc.choice("extended", [False, True]):
        vc.assume(g.extendable)
        g.extend_grid()
    out = vc.call(g.save, d)
    vc.check("saving succeeds", out.ok)
    out = vc.call(GP.load, d)
    vc.check("loading succeeds", out.ok)
    same_grid(vc, out.value, g, "loaded")


@harness(functions=PARS, runs=150, weight=1)
def parameters_missing(vc):
    GP = vc.mod("GridParameters").GridParameters
    d = vc.tmpdir()
    out = vc.call(GP.load, d + "/nowhere")
    vc.check("a missing directory is a load error", load_error(vc, out))
    out = vc.call(GP.load, d)
    vc.check("an empty directory is a load error", load_error(vc, out))
    g, m = grid(vc)
    g.save(d + "/a")
    files = vc.fs_files(d + "/a")
    k = vc.choice("file", list(range(6)))
    vc.assume(k < len(files))
    vc.os.remove(d + "/a/" + files[k])
    out = vc.call(GP.load, d + "/a")
    vc.check("a missing file is a load error", load_error(vc, out) or out.ok)
    if out.ok:
        same_grid(vc, out.value, g, "loaded without a redundant file")


@harness(functions=PROP, runs=300, weight=3)
def property_(vc):
    contrast_contract(vc)
    GP = vc.mod("GridProperty").GridProperty
    d = vc.tmpdir() + "/a"
    kind = kinds(vc)
    if vc.choice("older", [False, True]):
        g, m = grid(vc, "o", small=3)
        prop(vc, "o", g, m, kind, vc.choice("oldmask", [False, True])).save(d)
    g, m = grid(vc, small=3)
    p = prop(vc, "", g, m, kind, vc.choice("mask", [False, True]))
    out = vc.call(p.save, d)
    vc.check("saving succeeds", out.ok)
    out = vc.call(GP.load, d, *kind)
    vc.check("loading succeeds", out.ok)
    same_property(vc, out.value, p, "loaded")


@harness(functions=PROP, runs=200, weight=2)
def two_properties(vc):
    """properties of one grid share a directory"""
    contrast_contract(vc)
    GP = vc.mod("GridProperty").GridProperty
    N, U = vc.mod("GridPropertyName").GridPropertyName, vc.mod("GridPropertyUnit").GridPropertyUnit
    d = vc.tmpdir() + "/a"
    g, m = grid(vc, small=3)
    ks = [(N.DISK_RADIUS, U.ECLIPSE_DURATION), (N.INCLINATION, U.DEGREE), (N.TILT, U.DEGREE)]
    j = vc.choice("pair", [(0, 1), (1, 2)])
    ps = [prop(vc, f"p{i}", g, m, ks[i], i == j[0]) for i in j]
    for p in ps:
        p.save(d)
    for i, p in zip(j, ps):
        out = vc.call(GP.load, d, *ks[i])
        vc.check("loading succeeds", out.ok)
        same_property(vc, out.value, p, "loaded")


@harness(functions=PROP, runs=200, weight=2)
def property_bad(vc):
    contrast_contract(vc)
    GP = vc.mod("GridProperty").GridProperty
    d = vc.tmpdir()
    kind = kinds(vc)
    out = vc.call(GP.load, d + "/nowhere", *kind)
    vc.check("a missing directory is a load error", load_error(vc, out))
    g, m = grid(vc, small=3)
    p = prop(vc, "", g, m, kind, False)
    p.save(d + "/a")
    N, U = vc.mod("GridPropertyName").GridPropertyName, vc.mod("GridPropertyUnit").GridPropertyUnit
    out = vc.call(GP.load, d + "/a", N.GRADIENT_FIT, U.NONE)
    vc.check("a property that was not saved is a load error", load_error(vc, out))
    files = vc.fs_files(d + "/a")
    k = vc.choice("file", list(range(7)))
    vc.assume(k < len(files))
    vc.os.remove(d + "/a/" + files[k])
    out = vc.call(GP.load, d + "/a", *kind)
    vc.check("a missing file is a load error", load_error(vc, out) or out.ok)
    if out.ok:
        same_property(vc, out.value, p, "loaded without a redundant file")


@harness(functions=PROP, runs=200, weight=2)
def property_inconsistent(vc):
    """values or mask of another grid than the one saved last"""
    contrast_contract(vc)
    GP = vc.mod("GridProperty").GridProperty
    d = vc.tmpdir() + "/a"
    kind = kinds(vc)
    g, m = grid(vc, "o", small=3)
    p = prop(vc, "", g, m, kind, vc.choice("mask", [False, True]))
    p.save(d)
    h, n = grid(vc, small=3)
    vc.assume(vc.not_(vc.and_(*[a == b for a, b in zip(m["shape"], n["shape"])])))
    h.save(d)
    out = vc.call(GP.load, d, *kind)
    vc.check("values that do not fit the grid are a load error", load_error(vc, out))


@harness(functions=PROP, runs=200, weight=2)
def mask_inconsistent(vc):
    contrast_contract(vc)
    GP = vc.mod("GridProperty").GridProperty
    d = vc.tmpdir() + "/a"
    kind = kinds(vc)
    g, m = grid(vc, "o", small=3)
    p = prop(vc, "o", g, m, kind, True)
    p.save(d)
    before = vc.fs_files(d)
    h, n = grid(vc, small=3)
    q = prop(vc, "", h, n, kind, False)
    e = vc.tmpdir2()
    q.save(e)
    vc.assume(vc.not_(vc.and_(*[a == b for a, b in zip(m["shape"], n["shape"])])))
    # everything of the second save except the mask, which is the older one's
    extra = [f for f in before if f not in vc.fs_files(e)]
    vc.assume(len(extra) == 1)
    vc.os.rename(d + "/" + extra[0], e + "/" + extra[0])
    out = vc.call(GP.load, e, *kind)
    vc.check("a mask that does not fit the values is a load error", load_error(vc, out))


@harness(functions=GRAD, runs=300, weight=4)
def gradient_(vc):
    contrast_contract(vc)
    GG = vc.mod("GridProperty").GridGradient
    d = vc.tmpdir() + "/a"
    vc.os.mkdir(d)
    pos = vc.real("pos", -9, 9)
    if vc.choice("older", [False, True]):
        g, m = grid(vc, "o", small=3)
        q = gradient(vc, "o", g, m, vc.choice("oldmeasured", [False, True]), pos)
        q.save_gradient(d)
    g, m = grid(vc, small=3)
    q = gradient(vc, "", g, m, vc.choice("measured", [False, True]), pos)
    own = vc.choice("own mask", [False, True])
    if own:
        q.set_mask(vc.array("mask", m["shape"], kind="b"))
    out = vc.call(q.save_gradient, d)
    vc.check("saving succeeds", out.ok)
    ds = gradient_dirs(vc, d)
    vc.check("one directory per gradient position", len(ds) == 1)
    out = vc.call(GG.load, ds[0])
    vc.check("loading succeeds", out.ok)
    same_gradient(vc, out.value, q, "loaded")


@harness(functions=GRAD, runs=200, weight=2)
def gradient_bad(vc):
    contrast_contract(vc)
    GG = vc.mod("GridProperty").GridGradient
    d = vc.tmpdir()
    vc.check("a missing directory is a load error", load_error(vc, vc.call(GG.load, d + "/nowhere")))
    g, m = grid(vc, small=3)
    q = gradient(vc, "", g, m, False)
    q.save_gradient(d)
    ds = gradient_dirs(vc, d)
    vc.check("one directory", len(ds) == 1)
    files = vc.fs_files(ds[0])
    k = vc.choice("file", list(range(8)))
    vc.assume(k < len(files))
    vc.os.remove(ds[0] + "/" + files[k])
    out = vc.call(GG.load, ds[0])
    vc.check("a missing file is a load error", load_error(vc, out) or out.ok)
    if out.ok:
        same_gradient(vc, out.value, q, "loaded without a redundant file")


def diagnostics(vc, p, g, m, points):
    """diagnostics with entries for some arbitrary points"""
    D = vc.mod("GridDiagnostics").GridDiagnostics(g)
    for k in range(points):
        y, x = vc.int(f"{p}py{k}", 0, m["ny"] - 1), vc.int(f"{p}px{k}", 0, m["nx"] - 1)
        n = vc.int(f"{p}pn{k}", 0, small=4)
        D.save_diagnostic(y, x, vc.array(f"{p}fy{k}", (n,), nan=True), vc.array(f"{p}r{k}", (n,), nan=True))
    return D


def same_diagnostics(vc, a, b, m, extended, what):
    ny, nx = (2 * m["ny"] - 1, 2 * m["nx"] - 1) if extended else (m["ny"], m["nx"])
    y, x = vc.int("gy", -2, ny + 2), vc.int("gx", -2, nx + 2)
    u, v = vc.call(a.get_diagnostic, y, x), vc.call(b.get_diagnostic, y, x)
    vc.check(what + ": the same points are known", u.ok == v.ok)
    if u.ok and v.ok:
        same_array(vc, u.value[0], v.value[0], what + ": stretch factors")
        same_array(vc, u.value[1], v.value[1], what + ": disk radius")
    w = vc.np.zeros(2)
    u, v = vc.call(a.save_diagnostic, y, x, w, w), vc.call(b.save_diagnostic, y, x, w, w)
    vc.check(what + ": storing is refused for the same points", u.ok == v.ok)


@harness(functions=DIAG, bound="up to two stored points", runs=400, weight=4)
def diagnostics_(vc):
    GD = vc.mod("GridDiagnostics").GridDiagnostics
    d = vc.tmpdir() + "/a"
    if vc.choice("older", [False, True]):
        g, m = grid(vc, "o", small=3)
        D = diagnostics(vc, "o", g, m, 1)
        if vc.choice("oldext", [False, True]):
            D.extend()
        D.save(d)
    g, m = grid(vc, small=3)
    D = diagnostics(vc, "", g, m, vc.seq("points", 0, 2))
    ext = vc.choice("extended", [False, True])
    if ext:
        D.extend()
    out = vc.call(D.save, d)
    vc.check("saving succeeds", out.ok)
    out = vc.call(GD.load, d)
    vc.check("loading succeeds", out.ok)
    same_diagnostics(vc, out.value, D, m, ext, "loaded")


@harness(functions=DIAG, runs=200, weight=2)
def diagnostics_bad(vc):
    GD = vc.mod("GridDiagnostics").GridDiagnostics
    d = vc.tmpdir()
    vc.check("a missing directory is a load error", load_error(vc, vc.call(GD.load, d + "/nowhere")))
    g, m = grid(vc, small=3)
    D = diagnostics(vc, "", g, m, 1)
    D.save(d + "/a")
    files = vc.fs_files(d + "/a")
    k = vc.choice("file", list(range(6)))
    vc.assume(k < len(files))
    vc.os.remove(d + "/a/" + files[k])
    out = vc.call(GD.load, d + "/a")
    vc.check("a missing file is a load error", load_error(vc, out) or out.ok)
    if out.ok:
        same_diagnostics(vc, out.value, D, m, False, "loaded without a redundant file")

"""the building of the grid around one arbitrary cell, shared by C15 and C24"""
from dv.common import *
from specs.gridlib import contrast_contract
from specs.shallotlib import shallot, params, NAMES


class Ghost:
    """specification state: what the code did for the cell of interest"""

    def __init__(self):
        self.value = None


def family_contract(vc, cls, seen=None):
    """the families of ellipses of a cell: any number of pairs (fy, radius)
    that hold the circle (fx = fy = 1, the last of the first half); what else
    they hold is specified at the functions generating them (C24)"""
    def grow(which):
        def stub(self, fy_full, disk_radius_full, x, y):
            n = vc.int(which + "_length", 1)
            fy, r = vc.array(which + "_fy", (n,), nan=True), vc.array(which + "_radius", (n,), nan=True)
            if seen is not None:
                seen(self, which, x, y, fy, r)
            if which == "horizontal":
                vc.record((n - 1,))
                vc.assume(vc.and_(vc.at(fy, n - 1) == 1, vc.not_(vc.isnan(vc.at(r, n - 1)))))
            if which == "horizontal":
                return fy, r
            np = vc.np
            return np.concatenate((fy_full, fy)), np.concatenate((disk_radius_full, r))
        return stub
    return vc.contract(cls, "_extend_grid_horizontally", grow("horizontal")) & vc.contract(cls, "_extend_grid_vertically", grow("vertical"))


def disk_contract(vc, cls):
    """radius, inclination and tilt are functions of the stretch factors, the
    shear and the circle radius, element by element (which ones: C16)"""
    out = {n: vc.function(n, 4) for n in ("radius_of", "inclination_of", "tilt_of")}

    def stub(self, fx, fy, shear, radius):
        n = vc.dims(fx)[0]
        return tuple(vc.mkarray((n,), lambda i, f=out[k]: f(vc.at(fx, i), vc.at(fy, i), shear, radius)) for k in out)
    return out if vc.contract(cls, "_determine_disk_parameters", stub) else None


def along(vc, a):
    """(length, element function) of an array of stretch factors, as it is or
    along the third axis"""
    if vc.is_array(a, 3):
        return vc.dims(a)[2], lambda k: vc.at(a, (0, 0, k))
    if not vc.is_array(a, 1):
        vc.unsupported("stretch factors of another shape")
    return vc.dims(a)[0], lambda k: vc.at(a, k)


def factor_contract(vc, cls):
    """fx is a function of fy and of dy, element by element (which: C15)"""
    f = vc.function("fx_of", 2)

    def stub(self, fy):
        dy = self.parameters.get_vectors()[0]
        n, at = along(vc, fy)
        return vc.mkarray((vc.dims(dy)[0], 1, n), lambda i: f(at(i[2]), vc.at(dy, i[0])))
    return f if vc.contract(cls, "_determine_fx", stub) else None


def position_contract(vc, cls):
    """arbitrary shear and circle radii (their values: C15)"""
    def shear(self):
        ny, nx = self.parameters.slice_shape
        self.shear = vc.array("shear", (ny, nx, 1), nan=True)

    def radius(self):
        self.circular_radius = vc.array("circular_radius", (self.parameters.slice_shape[0], 1, 1))
    return vc.contract(cls, "_determine_shear", shear) & vc.contract(cls, "_determine_circular_radius", radius)


def shear_at(vc, x, y):
    return vc.ite(y == 0, vc.ite(x == 0, 0.0, float("nan")), -x / vc.ite(y == 0, 1, y))


def interpolation_contract(vc, cls, fx_of, seen):
    """one pair of stretch factors per radius factor (which: C24)"""
    def stub(self, fy_full, disk_radius_full, y):
        n = 2 * vc.dims(self.parameters.rf)[0] - 1
        b = vc.array("fy_valid", (n,), nan=True)
        dy = vc.at(self.parameters.get_vectors()[0], y)
        a = vc.mkarray((n,), lambda i: fx_of(vc.at(b, i), dy))
        seen.append((fy_full, disk_radius_full, y, a, b))
        return a, b
    return vc.contract(cls, "_interpolate_scale_values", stub)


class Built:
    """a grid built by the real code, seen from one arbitrary cell; the
    functions the building rests on are under contract"""

    def __init__(self, vc, keep=False, recorded=(), interpolation=False, more=None):
        self.vc = vc
        self.fx_of = self.disk_of = None
        self.known = True       # are all contracts in force?
        if not vc.symbolic:
            self.S, m = shallot(vc, which=(), data=False, num=vc.int("num", 20, 60), keep_diagnostics=keep)
            self.m, self.keep = m, keep
            self.cell = vc.int("y", 0, m["ny"] - 1), vc.int("x", 0, m["nx"] - 1)
            return
        contrast_contract(vc)
        cls = vc.mod("Shallot").ShallotGrid
        p, m = params(vc, origin=False)
        self.m = m
        y, x = self.cell = vc.int("y", 0), vc.int("x", 0)
        vc.assume(vc.and_(y < m["ny"], x < m["nx"]))
        self.families = []
        self.known = family_contract(vc, cls, lambda *a: self.families.append(a))
        self.disk_of, self.fx_of = disk_contract(vc, cls), factor_contract(vc, cls)
        self.known = self.known and position_contract(vc, cls) and self.disk_of is not None and self.fx_of is not None
        self.columns = []
        if interpolation and self.fx_of is not None:
            self.known = interpolation_contract(vc, cls, self.fx_of, self.columns) and self.known
        if more:
            more(self)
        vc.cells((y, x), lambda loc: [getattr(loc["self"], n).data for n in NAMES], recorded)
        self.S = cls(p, vc.int("num", 1), 50, keep)

    def at(self, name, k):
        return self.vc.at(getattr(self.S, name).data, self.cell + (k,))

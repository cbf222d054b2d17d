"""C18: disk gradients and the orbital scale follow the ellipse slope and the
limb darkening."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot
from specs.c20 import eclipse, scale

S_ = "Shallot.ShallotGrid."
GRAD = [S_ + "add_gradients", S_ + "_determine_disk_gradients", S_ + "_determine_shear", S_ + "_determine_circular_radius"]
SCALE = [S_ + "add_gradients", S_ + "_determine_orbital_scale", S_ + "_set_measured_gradients_and_masks", S_ + "set_eclipse_parameters"]
MAPS = ("fx_map", "fy_map")


def system(vc, extend=False):
    S, m = shallot(vc, which=MAPS, shear=True, extend=extend, bounds={} if vc.symbolic else {"fx_map": (0.2, 3), "fy_map": (0.2, 3)})
    return S, m


def slope(vc, S, m, position, i):
    """(numerator, denominator, undefined?) of the slope dy/dx of the ellipse
    ((X + s Y) / fx)^2 + (Y / fy)^2 = const centred at the cell, at (position, 0)"""
    dy, dx, _ = S.parameters.get_vectors()
    x, y = vc.at(dx, i[1]), vc.at(dy, i[0])
    none = vc.and_(y == 0, vc.not_(x == 0))
    s = vc.ite(y == 0, 0, -x / vc.ite(y == 0, 1, y))
    X, Y = position - x, -y
    fx, fy = vc.at(m["data"]["fx_map"], i), vc.at(m["data"]["fy_map"], i)
    dFdX = fy * fy * (X + s * Y)                    # the derivatives of the left side, times (fx fy)^2 / 2
    dFdY = s * (fy * fy * (X + s * Y)) + fx * fx * Y
    return -dFdX, dFdY, vc.or_(none, vc.isnan(fx), vc.isnan(fy))


def is_gradient(vc, S, m, a, position, what):
    vc.check(what + ": shape", vc.shape_is(a, m["shape"]))

    def cell(i):
        on = vc.branch(vc.at(S.parameters.get_vectors()[0], i[0]) == 0)
        num, den, none = slope(vc, S, m, position, i)
        got = vc.at(a, i)
        if not vc.symbolic:
            vc.assume(none or den == 0 and num == 0 or abs(den) > 1e-9 * (1 + abs(num)))
        vc.lemma(what + ": NaN exactly where there is no ellipse or it is vertical", vc.iff(vc.isnan(got), vc.or_(none, den == 0)))
        vc.assume(vc.not_(vc.or_(none, den == 0)))
        if vc.symbolic:
            t = num / den
            vc.check(what + ": absolute sine of the slope angle", vc.and_(got >= 0, vc.eq(got * got * (1 + t * t), t * t)))
        else:
            vc.check(what + ": sine of the slope angle", vc.eq(got, abs(num) / vc.sqrt(num * num + den * den), 1e-6))
    vc.forall(what, m["shape"], cell)


def times(vc, n):
    ts = [vc.real(f"time{k}", None if vc.symbolic else -3, None if vc.symbolic else 3) for k in range(n)]
    return ts, vc.pyarray(ts)


@harness(functions=GRAD, bound="two measurements (one or two in the concrete runs)", runs=80, weight=4)
def disk_gradients(vc):
    S, m = system(vc, extend=False if vc.symbolic else vc.choice("extended", [False, True]))
    D, v, u = eclipse(vc, S)
    n = vc.seq("measurements", 2 if vc.symbolic else 1, 2)
    ts, ta = times(vc, n)
    # (small enough for the scaled gradient to be a sine)
    gs = vc.pyarray([0.0 if vc.symbolic else vc.real(f"g{k}", 0, 1) / (1 + scale(vc, v, u)) for k in range(n)])
    t0 = vc.copy_array(ta)
    S.add_gradients(ta, gs)
    vc.check("one gradient for each measurement", S.gradients is not None and vc.length(S.gradients) == n)
    for k, o in enumerate(S.gradients):
        p = -ts[k] / D
        vc.check("the position is minus the time over the duration", vc.eq(o.position, p))
        is_gradient(vc, S, m, o.data, o.position, "disk gradient")
    same_array(vc, ta, t0, "the times stay")
    for q in MAPS:
        same_array(vc, getattr(S, q).data, m["data"][q], f"{q} stays")


@harness(functions=SCALE, bound="one measurement", runs=60, weight=2)
def orbital_scale(vc):
    vc.option("opaque_products", False)
    S, m = shallot(vc, which=MAPS)
    if vc.symbolic:
        G = vc.mod("GridProperty").GridGradient

        def stub(self, positions):
            self.gradients = list(self.gradients or []) + [G(vc.array("new", self.parameters.grid_shape, nan=True), self.parameters, positions[k]) for k in range(vc.length(positions))]
        vc.contract(vc.mod("Shallot").ShallotGrid, "_determine_disk_gradients", stub)
    D, v, u = eclipse(vc, S)
    ts, ta = times(vc, 1)
    g = vc.real("g", 0, None if vc.symbolic else 1)
    s = scale(vc, v, u)
    vc.assume(g * s < 1)
    e = vc.real("e", 0, None if vc.symbolic else 1)
    S.add_gradients(ta, vc.pyarray([g]), vc.pyarray([e]))
    o = S.gradients[0]
    pi = vc.pi if not callable(vc.pi) else vc.pi()
    vc.check("orbital scale", vc.eq(o.orbital_scale, s))
    vc.check("the scale is positive", o.orbital_scale > 0)
    vc.check("measured gradient, error and no transmission change", vc.and_(vc.eq(o.measured_gradient, g), vc.eq(o.measured_error, e), vc.eq(o.transmission_change, 1)))
    vc.check("the scaled gradient is the measured one times the scale", vc.eq(o.get_scaled_gradient(), g * s))
    vc.check("position", vc.eq(o.position, -ts[0] / D))


@harness(functions=[S_ + "set_eclipse_parameters", S_ + "add_gradients"], runs=40, weight=1)
def parameters_needed(vc):
    """without the eclipse parameters no gradient is computed; invalid ones are refused"""
    S, m = shallot(vc, which=MAPS)
    if vc.choice("case", ["missing", "invalid"]) == "missing":
        vc.call(S.add_gradients, vc.pyarray([vc.real("t")]), vc.pyarray([vc.real("g", 0)]))
        vc.check("no gradient without eclipse parameters", S.gradients is None)
        return
    bad = vc.choice("bad", ["duration", "velocity", "low darkening", "high darkening"])
    D = vc.real("D", None, 0, hi_open=True) if bad == "duration" else vc.real("D", 0)
    v = vc.real("v", None, 0, hi_open=True) if bad == "velocity" else vc.real("v", 0)
    u = vc.real("u", None, 0, hi_open=True) if bad == "low darkening" else vc.real("u", 1, None, lo_open=True) if bad == "high darkening" else vc.real("u", 0, 1)
    vc.check("refused", not vc.call(S.set_eclipse_parameters, D, v, u).ok)

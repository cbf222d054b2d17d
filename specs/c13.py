"""C13: a gradient's scaled value and mask follow its measurement and data."""
from dv.common import harness
from specs.gridlib import grid, contrast_contract, same_array

FUN = ["GridProperty.GridGradient.__init__", "GridProperty.GridGradient.determine_mask", "GridProperty.GridGradient.get_scaled_gradient"]
ORD = ["GridProperty.GridGradient.__lt__"]
REP = ["GridProperty.GridGradient.__repr__", "GridProperty.GridProperty.__repr__"]


def new(vc, p="", g=None, cc=True, **k):
    if cc:
        contrast_contract(vc)
    if g is None:
        g, m = grid(vc, p, small=3)
    else:
        g, m = g
    data = vc.array(p + "data", m["shape"], nan=True, **({} if vc.symbolic else {"lo": 0, "hi": 1}))
    keep = vc.copy_array(data)
    pos = vc.real(p + "position")
    return vc.mod("GridProperty").GridGradient(data, g, pos), m, keep, pos


def measurement(vc, p="", valid=False):
    """measured gradient, orbital scale, transmission change, error"""
    lo, hi = (0, 1) if valid else (-0.5, 1.5)
    if vc.symbolic and not valid:
        lo = hi = None
    mg, os_ = vc.real(p + "mg", lo, None if vc.symbolic else 0.7), vc.real(p + "os", lo, None if vc.symbolic else 1.3)
    tc, er = vc.real(p + "tc", lo, hi), vc.real(p + "er", lo, None if vc.symbolic else 1.5)
    vc.assume(vc.not_(tc == 0))
    if not vc.symbolic:
        vc.assume(abs(tc) > 1e-3)
    return mg, os_, tc, er


def scaled(vc, mm):
    return mm[0] * mm[1] / mm[2]


def valid(vc, mm):
    s = scaled(vc, mm)
    vc.assume(vc.not_(vc.near(s, 1)))
    return vc.and_(mm[0] >= 0, mm[1] >= 0, mm[2] >= 0, mm[2] <= 1, mm[3] >= 0, s <= 1)


def state_is(vc, G, m, keep, mm, what):
    """the state that belongs to the measurement mm (None: unmeasured)"""
    same_array(vc, G.data, keep, what + ": stored data")
    out = vc.call(G.get_scaled_gradient)
    vc.check(what + ": the scaled gradient can be read", out.ok)
    if mm is None:
        vc.check(what + ": no scaled gradient without a measurement", out.value is None)
        vc.check(what + ": no mask without a measurement", G.mask is None)
        read = lambda i: vc.at(keep, i)
    else:
        s = scaled(vc, mm)
        vc.check(what + ": scaled gradient", vc.eq(out.value, s))
        vc.check(what + ": measured values", vc.and_(vc.eq(G.measured_gradient, mm[0]), vc.eq(G.orbital_scale, mm[1]),
                                                     vc.eq(G.transmission_change, mm[2]), vc.eq(G.measured_error, mm[3])))
        vc.check(what + ": mask", vc.is_array(G.mask, 3, "b") and vc.shape_is(G.mask, m["shape"]))

        def bit(i):
            x = vc.at(keep, i)
            vc.assume(vc.or_(vc.isnan(x), vc.not_(vc.near(x, s))))
            vc.check(what + ": masked exactly where NaN or smaller than the scaled gradient", vc.iff(vc.at(G.mask, i), vc.or_(vc.isnan(x), x < s)))
        vc.forall(what + ": mask", m["shape"], bit)


@harness(functions=FUN, runs=500, weight=4)
def measure(vc):
    """from any state: accepted exactly when valid, else without effect"""
    G, m, keep, pos = new(vc)
    old = None
    if vc.choice("measured before", [False, True]):
        old = measurement(vc, "old", True)
        vc.assume(valid(vc, old))
        vc.check("a valid measurement is accepted", vc.call(G.determine_mask, *old).ok)
    mm = measurement(vc)
    form = vc.choice("form", ["all", "keywords", "no change", "no error", "neither"])
    if form in ("no change", "neither"):
        mm = (mm[0], mm[1], 1, mm[3])
    if form in ("no error", "neither"):
        mm = mm[:3] + (1,)
    names = ["measured_gradient", "orbital_scale", "transmission_change", "measured_error"]
    kw = {k: v for k, v in zip(names, mm)}
    if form == "all":
        out = vc.call(G.determine_mask, *mm)
    else:
        if form in ("no change", "neither"):
            del kw["transmission_change"]
        if form in ("no error", "neither"):
            del kw["measured_error"]
        out = vc.call(G.determine_mask, **kw)
    ok = valid(vc, mm)
    vc.check("accepted exactly when the values are valid and the scaled gradient is at most one", vc.iff(out.ok, ok))
    if not out.ok:
        vc.check("refused by a value error", type(out.exc) is ValueError)
    state_is(vc, G, m, keep, mm if out.ok else old, "after the measurement" if out.ok else "after the refused measurement")
    vc.check("position unchanged", vc.eq(G.position, pos))


@harness(functions=FUN, runs=200, weight=2)
def wrong_type(vc):
    G, m, keep, pos = new(vc)
    old = None
    if vc.choice("measured before", [False, True]):
        old = measurement(vc, "old", True)
        vc.assume(valid(vc, old))
        G.determine_mask(*old)
    mm = list(measurement(vc, "", True))
    vc.assume(valid(vc, mm))
    mm[vc.choice("which", [0, 1, 2, 3])] = vc.choice("bad", ["1", [0.5], (0.5,), float("nan")])
    out = vc.call(G.determine_mask, *mm)
    vc.check("values that are no number are refused", not out.ok)
    state_is(vc, G, m, keep, old, "after refused values")


@harness(functions=FUN, runs=200, weight=2)
def unmeasured(vc):
    G, m, keep, pos = new(vc)
    state_is(vc, G, m, keep, None, "a new gradient")
    vc.check("position", vc.eq(G.position, pos))
    for a in ("measured_gradient", "orbital_scale", "transmission_change", "measured_error"):
        vc.check("nothing measured", getattr(G, a) is None)
    vc.check("name and unit", G.name is vc.mod("GridPropertyName").GridPropertyName.GRADIENT and G.unit is vc.mod("GridPropertyUnit").GridPropertyUnit.NONE)


@harness(functions=FUN, runs=200, weight=2)
def masked_read(vc):
    """the mask of the measurement is that of masked reads"""
    G, m, keep, pos = new(vc)
    mm = measurement(vc, "", True)
    vc.assume(valid(vc, mm))
    G.determine_mask(*mm)
    s = scaled(vc, mm)
    a = G.get_data(True)

    def cell(i):
        x = vc.at(keep, i)
        vc.assume(vc.or_(vc.isnan(x), vc.not_(vc.near(x, s))))
        vc.check("masked read", vc.eq(vc.at(a, i), vc.ite(vc.or_(vc.isnan(x), x < s), float("nan"), x)))
    vc.forall("masked read", m["shape"], cell)


@harness(functions=ORD, runs=200, weight=2)
def order(vc):
    """gradients order by position, whatever their other attributes are"""
    g = grid(vc, small=2)
    A, B = new(vc, "a", g), new(vc, "b", g)
    for k, X in enumerate((A, B)):
        if vc.choice(f"measured{k}", [False, True]):
            mm = measurement(vc, f"m{k}", True)
            vc.assume(valid(vc, mm))
            X[0].determine_mask(*mm)
    vc.check("less than", vc.iff(A[0] < B[0], A[3] < B[3]))
    vc.check("greater than", vc.iff(A[0] > B[0], A[3] > B[3]))


@harness(functions=ORD, bound="up to four gradients", runs=200, weight=2)
def sort(vc):
    g = grid(vc, small=2)
    n = vc.seq("gradients", 0, 3 if vc.symbolic else 4)
    L = [new(vc, f"g{k}", g)[0] for k in range(n)]
    S = sorted(L)
    vc.check("sorting keeps the gradients", len(S) == n and all(any(a is b for b in S) for a in L))
    for a, b in zip(S, S[1:]):
        vc.check("sorted by position", a.position <= b.position)


@harness(functions=REP, runs=200, weight=3)
def printable(vc):
    """in every state"""
    G, m, keep, pos = new(vc, cc=False)
    if vc.choice("all nan", [False, True]):
        nothing = vc.array("none", m["shape"])
        nothing[nothing == nothing] = float("nan")
        G = vc.mod("GridProperty").GridGradient(nothing, G.grid_parameters, pos)
    how = vc.choice("state", ["new", "measured", "mask only"])
    if how == "measured":
        mm = measurement(vc, "", True)
        vc.assume(valid(vc, mm))
        G.determine_mask(*mm)
    elif how == "mask only":
        G.set_mask(vc.array("mask", m["shape"], kind="b"))
    for f in (repr, str):
        out = vc.call(f, G)
        vc.check("a gradient can be printed", out.ok and type(out.value) is str)

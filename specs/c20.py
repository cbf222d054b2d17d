"""C20: gradients are added, removed and rescaled consistently or not at all."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, any_gradients
from specs.c13 import measurement, valid

S_ = "Shallot.ShallotGrid."
MASK = ["GridProperty.GridGradient.determine_mask", "GridProperty.GridGradient.get_scaled_gradient"]
ADD = [S_ + "add_gradients", S_ + "_set_measured_gradients_and_masks", S_ + "_determine_orbital_scale", S_ + "_reset_gradient_fit"] + MASK
REM = [S_ + "remove_gradients", S_ + "_reset_gradient_fit"]
SET = [S_ + "set_eclipse_parameters", S_ + "_reset_gradient_fit"]
RES = [S_ + "update_gradient_scaling", S_ + "_rescale_gradients", S_ + "_determine_orbital_scale", S_ + "_reset_gradient_fit"] + MASK
ATTR = ["measured_gradient", "orbital_scale", "transmission_change", "measured_error"]


def scale(vc, v, u):
    """orbital scale of velocity v and limb darkening u"""
    pi = vc.pi if not callable(vc.pi) else vc.pi()
    return (6 - 2 * u) / (12 - 12 * u + 3 * pi * u) * (pi / v)


def system(vc, lo=0, hi=1, form=("measured",)):
    """a grid with a number of gradients and perhaps a gradient fit -> (grid, description, [state of each gradient])

    a gradient is measured (with its own scale and transmission change) or not"""
    S, m = shallot(vc, which=("fx_map", "fy_map"))
    n = vc.seq("gradients", lo, hi if vc.symbolic else 3)
    G = vc.mod("GridProperty").GridGradient
    L = []
    for k in range(n):
        o = G(vc.array(f"old{k}", m["shape"], nan=True, **({} if vc.symbolic else {"lo": 0, "hi": 1})), S.parameters, vc.real(f"oldpos{k}"))
        if len(form) == 1 or vc.choice(f"old{k} measured", list(form)) == "measured":
            mm = measurement(vc, f"old{k}", True)
            vc.assume(valid(vc, mm))
            o.determine_mask(*mm)
        L.append(o)
    if n:
        S.gradients = L
    if vc.choice("has fit", [True, False]):
        S.gradient_fit = old_fit(vc, S, m)
    return S, m, [look(vc, o) for o in L]


def old_fit(vc, S, m):
    N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
    return vc.mod("GridProperty").GridProperty(N, U, vc.array("fit", m["shape"], nan=True), S.parameters)


def look(vc, o):
    """the state of a gradient"""
    return {"o": o, "pos": o.position, "data": vc.copy_array(o.data), "mm": None if o.measured_gradient is None else tuple(getattr(o, a) for a in ATTR),
            "mask": None if o.mask is None else vc.copy_array(o.mask)}


def is_state(vc, o, s, what):
    vc.check(what + ": position", vc.eq(o.position, s["pos"]))
    same_array(vc, o.data, s["data"], what + ": disk gradient")
    if s["mm"] is None:
        vc.check(what + ": no measurement", o.measured_gradient is None and o.orbital_scale is None and o.transmission_change is None and o.measured_error is None)
    else:
        vc.check(what + ": measurement", vc.and_(*[vc.eq(getattr(o, a), x) for a, x in zip(ATTR, s["mm"])]))
    if s["mask"] is None:
        vc.check(what + ": no mask", o.mask is None)
    else:
        same_array(vc, o.mask, s["mask"], what + ": mask")


def gradients_are(vc, S, states, what):
    if not states:
        vc.check(what + ": no gradients", S.gradients is None or vc.length(S.gradients) == 0)
        return
    vc.check(what + ": number of gradients", S.gradients is not None and vc.length(S.gradients) == len(states))
    for k, s in enumerate(states):
        vc.check(what + ": same gradients in order", S.gradients[k] is s["o"])
        is_state(vc, S.gradients[k], s, what)


def unchanged(vc, S, states, fit, what):
    gradients_are(vc, S, states, what)
    vc.check(what + ": the fit stays", S.gradient_fit is fit)


def measured_as(vc, m, o, data, mm, what):
    """o has the disk gradient, the measurement mm and the mask belonging to it"""
    same_array(vc, o.data, data, what + ": disk gradient")
    vc.check(what + ": measured gradient", vc.eq(o.measured_gradient, mm[0]))
    vc.check(what + ": orbital scale", vc.eq(o.orbital_scale, mm[1]))
    vc.check(what + ": transmission change", vc.eq(o.transmission_change, mm[2]))
    vc.check(what + ": measured error", vc.eq(o.measured_error, mm[3]))
    s = mm[0] * mm[1] / mm[2]
    vc.check(what + ": mask", vc.is_array(o.mask, 3, "b") and vc.shape_is(o.mask, m["shape"]))

    def bit(i):
        x = vc.at(data, i)
        vc.assume(vc.or_(vc.isnan(x), vc.not_(vc.near(x, s))))
        vc.check(what + ": masked where NaN or smaller than the scaled gradient", vc.iff(vc.at(o.mask, i), vc.or_(vc.isnan(x), x < s)))
    vc.forall(what + ": mask", m["shape"], bit)


def eclipse(vc, S, p=""):
    """set eclipse parameters directly (keeping the gradients); -> D, v, u"""
    keep = S.gradients, S.gradient_fit
    D, v, u = vc.real(p + "D", 0, None if vc.symbolic else 5, lo_open=True), vc.real(p + "v", 0, None if vc.symbolic else 9, lo_open=True), vc.real(p + "u", 0, 1)
    if not vc.symbolic:
        vc.assume(D > 1e-2 and v > 1e-2)
    S.set_eclipse_parameters(D, v, u)
    S.gradients, S.gradient_fit = keep
    return D, v, u


def gradient_contract(vc):
    """the disk gradients of C18: one gradient per position, arbitrary data"""
    if not vc.symbolic:
        return
    cls, G = vc.mod("Shallot").ShallotGrid, vc.mod("GridProperty").GridGradient
    made = []

    def stub(self, positions):
        self.gradients = [] if self.gradients is None else self.gradients.copy()
        for k in range(vc.length(positions)):
            a = vc.array(f"new{len(made)}", self.parameters.grid_shape, nan=True)
            made.append(a)
            self.gradients.append(G(a, self.parameters, positions[k]))
    vc.contract(cls, "_determine_disk_gradients", stub)


def series(vc, p, n, lo, hi):
    xs = [vc.real(f"{p}{k}", None if vc.symbolic and lo is not None and lo < 0 else lo, None if vc.symbolic else hi) for k in range(n)]
    return xs, vc.pyarray(xs)


def new_measurements(vc, n, scaling):
    lo = 0 if n > 1 else -1
    t, ta = series(vc, "time", n, -3, 3)
    g, ga = series(vc, "lc", n, lo, 1)
    args = {}
    e, c = [1] * n, [1] * n
    if vc.choice("errors", [True, False]):
        e, args["light_curve_gradient_errors"] = series(vc, "err", n, lo, 2)
    if vc.choice("changes", [True, False]):
        c, args["transmission_changes"] = series(vc, "tc", n, lo, 1.2)
        for x in c:
            vc.assume(vc.not_(x == 0) if vc.symbolic else abs(x) > 1e-3)
    mms = [(g[k], scaling, c[k], e[k]) for k in range(n)]
    return t, ta, ga, args, mms


@harness(functions=ADD, bound="up to one existing and two new gradients", runs=80, weight=6)
def add(vc):
    gradient_contract(vc)
    S, m, old = system(vc)
    D, v, u = eclipse(vc, S)
    fit = S.gradient_fit
    n = vc.seq("new", 1, 2 if vc.symbolic else 3)
    t, ta, ga, args, mms = new_measurements(vc, n, scale(vc, v, u))
    out = vc.call(S.add_gradients, ta, ga, **args)
    vc.check("accepted exactly when all measurements are valid", vc.iff(out.ok, vc.and_(*[valid(vc, x) for x in mms])))
    if not out.ok:
        unchanged(vc, S, old, fit, "after a refused addition")
        return
    vc.check("the fit is discarded", S.gradient_fit is None)
    vc.check("one gradient per time is appended", vc.length(S.gradients) == len(old) + n)
    keep = list(S.gradients)
    for k, s in enumerate(old):
        vc.check("existing gradients stay", keep[k] is s["o"])
        is_state(vc, keep[k], s, "existing gradients stay")
    for k in range(n):
        o = keep[len(old) + k]
        vc.check("a gradient", isinstance(o, vc.mod("GridProperty").GridGradient))
        vc.check("position", vc.eq(o.position, -t[k] / D))
        measured_as(vc, m, o, o.data, mms[k], "new gradient")
        vc.check("gradients are distinct", all(o is not x for j, x in enumerate(keep) if j != len(old) + k))


@harness(functions=ADD, bound="one or two new gradients", conc=False, weight=4)
def add_to_any_number(vc):
    """any number of gradients are there already; one arbitrary of them"""
    gradient_contract(vc)
    S, m = shallot(vc, which=("fx_map", "fy_map"))
    N, A, _ = any_gradients(vc, S, m, cell=True, measured=True)
    if vc.choice("has fit", [True, False]):
        S.gradient_fit = old_fit(vc, S, m)
    L, one = S.gradients, S.gradients[A["one"]]
    state = look(vc, one)
    D, v, u = eclipse(vc, S)
    S.gradients = L
    fit = S.gradient_fit
    n = vc.seq("new", 1, 2)
    t, ta, ga, args, mms = new_measurements(vc, n, scale(vc, v, u))
    out = vc.call(S.add_gradients, ta, ga, **args)
    vc.check("accepted exactly when all measurements are valid", vc.iff(out.ok, vc.and_(*[valid(vc, x) for x in mms])))
    vc.check("number of gradients", vc.length(S.gradients) == (N + n if out.ok else N))
    vc.check("existing gradients stay in order", S.gradients[A["one"]] is one)
    is_state(vc, one, state, "existing gradients stay")
    vc.items_untouched()
    if not out.ok:
        vc.check("the fit stays", S.gradient_fit is fit)
        return
    vc.check("the fit is discarded", S.gradient_fit is None)
    for k in range(n):
        o = S.gradients[N + k]
        vc.check("a gradient", isinstance(o, vc.mod("GridProperty").GridGradient))
        vc.check("position", vc.eq(o.position, -t[k] / D))
        measured_as(vc, m, o, o.data, mms[k], "new gradient")


@harness(functions=ADD, bound="up to one existing gradient", runs=60, weight=3)
def add_wrong(vc):
    gradient_contract(vc)
    S, m, old = system(vc)
    fit = S.gradient_fit
    miss = vc.choice("parameters", [True, False])
    if miss:
        D, v, u = eclipse(vc, S)
    bad = vc.choice("bad", ["none", "list", "integers", "two dimensions", "NaN", "length", "text"])
    which = vc.choice("which", ["times", "gradients", "errors", "changes"])
    vc.assume(miss or bad == "none")
    n = 2
    a = {w: vc.pyarray([vc.real(f"{w}{k}", 0.01 if w != "gradients" else 0, 1 if w != "gradients" else 0) for k in range(n)]) for w in ["times", "gradients", "errors", "changes"]}
    if bad == "list":
        a[which] = [0.5, 0.5]
    elif bad == "integers":
        a[which] = vc.pyarray([1, 1], dtype="int64")
    elif bad == "two dimensions":
        a[which] = vc.mkarray((2, 1), lambda i: 0.5)
    elif bad == "NaN":
        vc.assume(which != "times")
        a[which] = vc.pyarray([0.5, float("nan")])
    elif bad == "length":
        a[which] = vc.pyarray([0.5, 0.5, 0.5])
    elif bad == "text":
        a[which] = "0.5"
    out = vc.call(S.add_gradients, a["times"], a["gradients"], a["errors"], a["changes"])
    if miss and bad == "none":
        vc.check("a valid addition", out.ok and vc.length(S.gradients) == len(old) + n)
        return
    if miss:
        vc.check("invalid input is refused", not out.ok)
    unchanged(vc, S, old, fit, "after a refused addition" if miss else "without eclipse parameters")


@harness(functions=REM, bound="up to three gradients", runs=120, weight=3)
def remove(vc):
    S, m, old = system(vc, 0, 3, ("measured", "plain") if not vc.symbolic else ("measured",))
    fit = S.gradient_fit
    n = vc.seq("indices", 1, 3)
    ks = [vc.int(f"k{j}", -1 if j == 0 else 0, 3 if j == 0 else max(0, len(old) - 1), small=3) for j in range(n)]
    out = vc.call(S.remove_gradients, vc.pyarray(ks, dtype="int64"))
    if not old:
        vc.check("nothing to remove", out.ok)
        unchanged(vc, S, old, fit, "without gradients")
        return
    ok = all(vc.branch(vc.and_(k >= 0, k < len(old))) for k in ks)
    vc.check("accepted exactly when all indices exist", out.ok == ok)
    if not ok:
        unchanged(vc, S, old, fit, "after a refused removal")
        return
    gone = [j for j in range(len(old)) if any(vc.branch(k == j) for k in ks)]
    gradients_are(vc, S, [s for j, s in enumerate(old) if j not in gone], "after the removal")
    vc.check("the fit is discarded", S.gradient_fit is None)


@harness(functions=REM, bound="up to three indices", conc=False, weight=4)
def remove_from_any_number(vc):
    """any number of gradients are there; one arbitrary of those that stay"""
    S, m = shallot(vc, which=("fx_map", "fy_map"))
    N, A, _ = any_gradients(vc, S, m, measured=True)
    fit = S.gradient_fit = old_fit(vc, S, m)
    n = vc.seq("indices", 1, 3)
    ks = [vc.int(f"k{j}") for j in range(n)]
    L, K = S.gradients, vc.int("one of them", 0, N - 1)
    one = L[K]
    state = look(vc, one)
    out = vc.call(S.remove_gradients, vc.pyarray(ks, dtype="int64"))
    ok = vc.and_(*[vc.and_(k >= 0, k < N) for k in ks])
    vc.check("accepted exactly when all indices exist", vc.iff(out.ok, ok))
    is_state(vc, one, state, "no gradient is changed")
    vc.items_untouched()
    if not out.ok:
        vc.check("the same gradients", vc.length(S.gradients) == N and S.gradients[K] is one)
        vc.check("the fit stays", S.gradient_fit is fit)
        return
    vc.check("the fit is discarded", S.gradient_fit is None)
    new = [all(vc.branch(vc.not_(k == j)) for j in ks[:i]) for i, k in enumerate(ks)]
    vc.check("number of gradients", vc.length(S.gradients) == N - sum(new))
    if any(vc.branch(k == K) for k in ks):
        return
    before = sum(1 for k, f in zip(ks, new) if f and vc.branch(k < K))
    vc.check("all others stay in order", S.gradients[K - before] is one)


@harness(functions=REM, bound="up to two gradients", runs=60, weight=2)
def remove_wrong(vc):
    S, m, old = system(vc, 1, 2)
    fit = S.gradient_fit
    bad = vc.choice("bad", ["list", "number", "floats", "two dimensions", "none", "text"])
    v = {"list": [0], "number": 0, "floats": vc.pyarray([0.0]), "two dimensions": vc.mkarray((1, 1), lambda i: 0, "int64"), "none": None, "text": "0"}[bad]
    out = vc.call(S.remove_gradients, v)
    vc.check("invalid indices are refused", not out.ok)
    unchanged(vc, S, old, fit, "after a refused removal")


def in_use(vc, S, D, v, u, what):
    """the eclipse parameters in use are those of the next added gradient"""
    t = vc.real("probe time", *(() if vc.symbolic else (-2, 2)))
    vc.check(what + ": a gradient can be added", vc.call(S.add_gradients, vc.pyarray([t]), vc.pyarray([0.0])).ok)
    o = S.gradients[-1]
    vc.check(what + ": duration in use", vc.eq(o.position, -t / D))
    vc.check(what + ": velocity and limb darkening in use", vc.eq(o.orbital_scale, scale(vc, v, u)))


@harness(functions=SET, bound="up to two gradients", runs=80, weight=3)
def parameters(vc):
    gradient_contract(vc)
    S, m, old = system(vc, 0, 2 if not vc.symbolic else 1)
    fit = S.gradient_fit
    before = eclipse(vc, S, "before") if vc.choice("set before", [True, False]) else None
    lo = None if vc.symbolic else -1
    D, v, u = vc.real("D", lo, None if vc.symbolic else 5), vc.real("v", lo, None if vc.symbolic else 9), vc.real("u", lo, None if vc.symbolic else 2)
    out = vc.call(S.set_eclipse_parameters, D, v, u)
    vc.check("accepted exactly when inside the bounds", vc.iff(out.ok, vc.and_(D >= 0, v >= 0, u >= 0, u <= 1)))
    if out.ok:
        gradients_are(vc, S, [], "new eclipse parameters")
        if old:
            vc.check("the fit is discarded", S.gradient_fit is None)
        vc.assume(vc.and_(D > (0 if vc.symbolic else 0.01), v > (0 if vc.symbolic else 0.01)))
        in_use(vc, S, D, v, u, "new eclipse parameters")
    else:
        unchanged(vc, S, old, fit, "refused eclipse parameters")
        if before:
            in_use(vc, S, *before, "refused eclipse parameters")


@harness(functions=SET, bound="up to one gradient", runs=60, weight=2)
def parameters_wrong(vc):
    gradient_contract(vc)
    S, m, old = system(vc)
    fit = S.gradient_fit
    before = eclipse(vc, S, "before") if vc.choice("set before", [True, False]) else None
    a = [vc.real("D", 0.1, 5), vc.real("v", 0.1, 5), vc.real("u", 0, 1)]
    a[vc.choice("which", [0, 1, 2])] = vc.choice("bad", ["1", None, [1.0], float("nan")])
    out = vc.call(S.set_eclipse_parameters, *a)
    vc.check("values that are no number are refused", not out.ok)
    unchanged(vc, S, old, fit, "refused eclipse parameters")
    if before:
        in_use(vc, S, *before, "refused eclipse parameters")


@harness(functions=RES, bound="up to two gradients", runs=120, weight=6)
def rescale(vc):
    gradient_contract(vc)
    S, m, old = system(vc, 0, 2, ("measured",))
    D, v, u = eclipse(vc, S)
    fit = S.gradient_fit
    args = {}
    lo = None if vc.symbolic else -0.3
    if vc.choice("velocity given", [True, False]):
        args["transverse_velocity"] = vc.real("v2", lo, None if vc.symbolic else 9)
        vc.assume(vc.not_(args["transverse_velocity"] == 0) if vc.symbolic else abs(args["transverse_velocity"]) > 0.01)
    if vc.choice("darkening given", [True, False]):
        args["limb_darkening"] = vc.real("u2", lo, None if vc.symbolic else 1.2)
    cs = None
    if vc.choice("changes given", [True, False]):
        n = len(old) if not vc.symbolic else max(len(old), 1)
        cs, args["transmission_changes"] = series(vc, "tc", n, -0.2, 1.2)
        for c in cs:
            vc.assume(vc.not_(c == 0) if vc.symbolic else abs(c) > 1e-3)
    out = vc.call(S.update_gradient_scaling, **args)
    if not old:
        vc.check("nothing to rescale", out.ok)
        unchanged(vc, S, old, fit, "without gradients")
        return
    if not args:
        vc.check("nothing to change", out.ok)
        unchanged(vc, S, old, fit, "without new values")
        return
    v2, u2 = args.get("transverse_velocity", v), args.get("limb_darkening", u)
    ok, mms = False, []
    if vc.branch(vc.and_(v2 >= 0, u2 >= 0, u2 <= 1)):
        for k, s in enumerate(old):
            mm = s["mm"]
            mms.append((mm[0], scale(vc, v2, u2) if len(args) > (1 if cs is not None else 0) else mm[1], cs[k] if cs is not None else mm[2], mm[3]))
        ok = vc.and_(*[valid(vc, x) for x in mms])
    vc.check("accepted exactly when every new value is valid", vc.iff(out.ok, ok))
    if not out.ok:
        unchanged(vc, S, old, fit, "after a refused rescaling")
        in_use(vc, S, D, v, u, "after a refused rescaling")
        return
    vc.check("the fit is discarded", S.gradient_fit is None)
    vc.check("the same gradients", vc.length(S.gradients) == len(old) and all(S.gradients[k] is s["o"] for k, s in enumerate(old)))
    for k, s in enumerate(old):
        vc.check("position", vc.eq(s["o"].position, s["pos"]))
        measured_as(vc, m, s["o"], s["data"], mms[k], "rescaled gradient")
    in_use(vc, S, D, v2, u2, "after the rescaling")


@harness(functions=RES, bound="two gradients", runs=60, weight=3)
def rescale_wrong(vc):
    """refused values, or a gradient without measurement, leave everything as it was"""
    gradient_contract(vc)
    bad = vc.choice("bad", ["velocity", "darkening", "changes type", "changes number", "changes list", "unmeasured"])
    S, m, old = system(vc, 2, 2, ("measured", "plain") if bad == "unmeasured" else ("measured",))
    D, v, u = eclipse(vc, S)
    fit = S.gradient_fit
    args = {}
    if bad == "velocity":
        args = {"transverse_velocity": vc.choice("value", ["1", [1.0], float("nan")])}
    elif bad == "darkening":
        args = {"transverse_velocity": 2.0, "limb_darkening": vc.choice("value", ["1", [1.0], float("nan")])}
    elif bad == "changes type":
        args = {"limb_darkening": 0.5, "transmission_changes": vc.pyarray([1, 1], dtype="int64")}
    elif bad == "changes number":
        args = {"limb_darkening": 0.5, "transmission_changes": vc.pyarray([0.5])}
    elif bad == "changes list":
        args = {"transverse_velocity": 3.0, "transmission_changes": [0.5, 0.5]}
    else:
        vc.assume(any(s["mm"] is None for s in old))
        args = {"transverse_velocity": vc.real("v2", 1, 5)}
    out = vc.call(S.update_gradient_scaling, **args)
    vc.check("invalid values are refused", not out.ok)
    unchanged(vc, S, old, fit, "after a refused rescaling")
    in_use(vc, S, D, v, u, "after a refused rescaling")

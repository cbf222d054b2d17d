"""C19: masks combine as a union; masked reads hide exactly their cells."""
from dv.common import harness
from specs.gridlib import same_array, values_are
from specs.shallotlib import shallot, masks, add_plain_gradients, any_gradients, NAMES, kind

S_ = "Shallot.ShallotGrid."
COMB = [S_ + "get_combined_mask"]
READ = [S_ + "get_" + n for n in NAMES + ["diagnostic_map"]] + COMB
GRAD = [S_ + "get_gradients"] + COMB
FIT = [S_ + "get_gradient_fit"] + COMB
HILL = [S_ + "generate_hill_radius_mask"]
MASKED = ("disk_radius", "inclination", "tilt")


def union(vc, own, grads, i):
    """is the cell i in the combined mask?"""
    bits = [vc.at(own[n], i) for n in MASKED if own.get(n) is not None] + [vc.at(M, i) for _, _, M in grads if M is not None]
    return vc.or_(*bits) if bits else False


def state(vc, lo=0, hi=2, full=True):
    S, m = shallot(vc)
    own = masks(vc, S, m, full=full)
    return S, m, own, add_plain_gradients(vc, S, m, lo, hi, unbounded=True)


def unchanged(vc, S, m, own, grads, what):
    for n, a in m["data"].items():
        same_array(vc, getattr(S, n).data, a, f"{what}: stored {n}")
    for n in own:
        if own[n] is None:
            vc.check(f"{what}: {n} keeps no mask", getattr(S, n).mask is None)
        else:
            same_array(vc, getattr(S, n).mask, own[n], f"{what}: mask of {n}")
    for o, a, M in grads:
        if o is None:
            vc.items_untouched()
            continue
        same_array(vc, o.data, a, f"{what}: stored gradient")
        if M is not None:
            same_array(vc, o.mask, M, f"{what}: gradient mask")


@harness(functions=COMB, runs=80, weight=6)
def combined(vc):
    S, m, own, grads = state(vc)
    a = S.get_combined_mask()
    vc.check("the combined mask is a boolean array", vc.is_array(a, 3, "b") and vc.shape_is(a, m["shape"]))
    vc.forall("union", m["shape"], lambda i: vc.check("the combined mask is the union", vc.iff(vc.at(a, i), union(vc, own, grads, i))))
    # it is a copy
    k = tuple(vc.int(f"k{j}", 0, n - 1) for j, n in enumerate(m["shape"]))
    a[k[0], k[1], k[2]] = True
    b = S.get_combined_mask()
    vc.forall("again", m["shape"], lambda i: vc.check("changing the result changes no mask", vc.iff(vc.at(b, i), union(vc, own, grads, i))))
    unchanged(vc, S, m, own, grads, "combining masks")


def reader(name):
    def read(vc):
        S, m = shallot(vc, which=MASKED if name in MASKED + ("diagnostic_map",) else MASKED + (name,))
        own = masks(vc, S, m, full=not vc.symbolic, which=MASKED if not vc.symbolic else tuple(n for n in MASKED if n == name) or MASKED[:1])
        grads = add_plain_gradients(vc, S, m, 0, 1, unbounded=True)
        p = getattr(S, name)
        if name not in MASKED and vc.choice("own mask", [False, True]):
            M = vc.array("own_mask", m["shape"], kind="b")
            own[name] = vc.copy_array(M)
            p.set_mask(M)
        mine = own.get(name)
        keep = vc.copy_array(p.data)
        form = vc.choice("form", ["default", "half", "positional", "keyword"])
        a, b = (True, True) if form == "default" else (vc.choice("masked", [True, False]), True) if form == "half" else (vc.choice("masked", [True, False]), vc.choice("property_masked", [True, False]))
        f = getattr(S, "get_" + name)
        r = f() if form == "default" else f(a) if form == "half" else f(a, b) if form == "positional" else f(masked=a, property_masked=b)

        def hidden(i):
            h = []
            if a:
                h.append(union(vc, own, grads, i))
            if b and mine is not None:
                h.append(vc.at(mine, i))
            return vc.or_(*h) if h else False
        values_are(vc, r, m["shape"], lambda i: vc.ite(hidden(i), float("nan"), vc.at(keep, i)), "masked cells are NaN, all others the stored values")
        k = tuple(vc.int(f"k{j}", 0, n - 1) for j, n in enumerate(m["shape"]))
        r[k[0], k[1], k[2]] = 77.5
        same_array(vc, p.data, keep, "the stored values are unchanged")
        m["data"].pop(name, None)
        unchanged(vc, S, m, own, grads, "reading")
    read.__name__ = "read_" + name
    harness(functions=READ, runs=60, weight=4)(read)
    read.__globals__["read_" + name] = read


for _n in NAMES + ["diagnostic_map"]:
    reader(_n)


@harness(functions=READ, runs=60, weight=2)
def wrong_flag(vc):
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=not vc.symbolic)
    f = getattr(S, "get_" + vc.choice("read", NAMES + ["diagnostic_map"]))
    bad = vc.choice("bad", [1, "no", None])
    out = vc.call(f, bad) if vc.choice("which", [0, 1]) else vc.call(f, True, bad)
    vc.check("flags must be booleans", (not out.ok) and type(out.exc) is TypeError)
    unchanged(vc, S, m, own, [], "a refused read")


@harness(functions=HILL, runs=120, weight=4)
def hill(vc):
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=True)
    limit = vc.real("limit", 0, None if vc.symbolic else 4)
    out = vc.call(S.generate_hill_radius_mask, limit)
    vc.check("a limit is accepted", out.ok)
    R = m["data"]["disk_radius"]
    a = S.disk_radius.mask
    vc.check("a mask is set", vc.is_array(a, 3, "b") and vc.shape_is(a, m["shape"]))
    vc.forall("hill mask", m["shape"], lambda i: vc.check("the mask holds exactly the cells without a disk or above the limit", vc.iff(
        vc.at(a, i), vc.or_(vc.isnan(vc.at(R, i)), vc.at(R, i) > limit))))
    own.pop("disk_radius")
    unchanged(vc, S, m, own, [], "the hill mask")


@harness(functions=HILL, runs=60, weight=2)
def hill_refused(vc):
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=not vc.symbolic)
    bad = vc.choice("bad", ["negative", "text", "none", "nan"])
    v = vc.real("v", None, 0, hi_open=True) if bad == "negative" else {"text": "1", "none": None, "nan": float("nan")}[bad]
    vc.check("an invalid limit is refused", not vc.call(S.generate_hill_radius_mask, v).ok)
    unchanged(vc, S, m, own, [], "a refused limit")


@harness(functions=GRAD, bound="one or two measured gradients", runs=80, weight=5)
def gradients(vc):
    """reading the gradients"""
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=not vc.symbolic, which=MASKED if not vc.symbolic else MASKED[1:2])
    grads = add_plain_gradients(vc, S, m, 1, 2)
    want = []
    for k, (o, a, M) in enumerate(grads):
        s, e = vc.real(f"s{k}", 0, 1), vc.real(f"e{k}", 0, None if vc.symbolic else 3)
        o.determine_mask(s, 1.0, 1.0, e)
        if M is None:
            M = vc.mkarray(m["shape"], lambda i, a=a, s=s: vc.or_(vc.isnan(vc.at(a, i)), vc.at(a, i) < s), "bool")
        o.set_mask(vc.copy_array(M))
        grads[k] = (o, a, M)
        want.append((o.position, s, e))
    form = vc.choice("form", ["default", "half", "given"])
    x, y = (False, True) if form == "default" else (True, True) if form == "half" else (vc.choice("masked", [True, False]), vc.choice("property_masked", [True, False]))
    r = S.get_gradients() if form == "default" else S.get_gradients(masked=x) if form == "half" else S.get_gradients(x, property_masked=y)
    vc.check("four arrays", vc.length(r) == 4 and all(vc.shape_is(r[k], (len(grads),)) is not False for k in range(3)))
    for k, (pos, s, e) in enumerate(want):
        vc.check("position, scaled gradient and error", vc.and_(vc.eq(vc.at(r[0], k), pos), vc.eq(vc.at(r[1], k), s), vc.eq(vc.at(r[2], k), e)))
    vc.check("shape", vc.shape_is(r[3], (len(grads),) + m["shape"]))
    for k, (o, a, M) in enumerate(grads):
        def cell(i, a=a, M=M, k=k):
            h = vc.or_(vc.and_(x, union(vc, own, grads, i)), vc.and_(y, vc.at(M, i)))
            vc.check("masked cells are NaN, all others the stored values", vc.eq(vc.at(r[3], (k,) + i), vc.ite(h, float("nan"), vc.at(a, i))))
        vc.forall("gradient data", m["shape"], cell)
    unchanged(vc, S, m, own, grads, "reading gradients")


@harness(functions=GRAD, conc=False, weight=3)
def any_number_of_gradients(vc):
    """reading any number of gradients: one arbitrary entry of the result"""
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=False, which=MASKED[1:2])
    n, A, E = any_gradients(vc, S, m, cell=True, measured=True)
    form = vc.choice("form", ["default", "half", "given"])
    x, y = (False, True) if form == "default" else (True, True) if form == "half" else (vc.choice("masked", [True, False]), vc.choice("property_masked", [True, False]))
    r = S.get_gradients() if form == "default" else S.get_gradients(masked=x) if form == "half" else S.get_gradients(x, property_masked=y)
    K = A["one"]
    vc.check("four arrays", vc.length(r) == 4 and vc.and_(*[vc.shape_is(r[k], (n,)) for k in range(3)]))
    vc.check("position, scaled gradient and error", vc.and_(*[vc.eq(vc.at(r[j], K), vc.at(A[q], K)) for j, q in enumerate(("pos", "scaled", "error"))]))
    vc.check("shape", vc.shape_is(r[3], (n,) + m["shape"]))

    def cell(i):
        h = vc.or_(vc.and_(x, union(vc, own, [(None, None, E)], i)), vc.and_(y, vc.at(A["mask"], (K,) + i)))
        vc.check("masked cells are NaN, all others the stored values", vc.eq(vc.at(r[3], (K,) + i), vc.ite(h, float("nan"), vc.at(A["data"], (K,) + i))))
    vc.forall("gradient data", m["shape"], cell)
    unchanged(vc, S, m, own, [(None, None, E)], "reading gradients")


@harness(functions=FIT, runs=80, weight=4)
def fit(vc):
    """reading the gradient fit"""
    S, m = shallot(vc, which=MASKED)
    own = masks(vc, S, m, full=not vc.symbolic, which=MASKED if not vc.symbolic else MASKED[2:])
    grads = add_plain_gradients(vc, S, m, 0, 1, unbounded=True)
    vc.check("without a fit nothing is read", S.get_gradient_fit() is None)
    a = vc.array("fit", m["shape"], nan=True)
    N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
    S.gradient_fit = vc.mod("GridProperty").GridProperty(N, U, vc.copy_array(a), S.parameters)
    M = None
    if vc.choice("own mask", [True, False]):
        M = vc.array("own_mask", m["shape"], kind="b")
        S.gradient_fit.set_mask(vc.copy_array(M))
    form = vc.choice("form", ["default", "half", "given"])
    x, y = (True, True) if form == "default" else (False, True) if form == "half" else (vc.choice("masked", [True, False]), vc.choice("property_masked", [True, False]))
    r = S.get_gradient_fit() if form == "default" else S.get_gradient_fit(x) if form == "half" else S.get_gradient_fit(x, property_masked=y)

    def cell(i):
        h = vc.or_(vc.and_(x, union(vc, own, grads, i)), vc.and_(y, False if M is None else vc.at(M, i)))
        return vc.ite(h, float("nan"), vc.at(a, i))
    values_are(vc, r, m["shape"], cell, "masked cells are NaN, all others the stored values")
    same_array(vc, S.gradient_fit.data, a, "the stored fit is unchanged")
    unchanged(vc, S, m, own, grads, "reading the fit")

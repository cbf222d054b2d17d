"""C21: the gradient fit is the weighted misfit and solutions come best first."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, masks
from specs.c13 import measurement, valid

S_ = "Shallot.ShallotGrid."
FIT = [S_ + "determine_gradient_fit"]
EXT = [S_ + "extract_solutions", S_ + "get_gradient_fit", S_ + "get_combined_mask"]
OWN = ("disk_radius", "inclination", "tilt")
LEVEL = "other"
EXPLANATION = ("contracts discharged by the verifier for grids of every size and all values; the number of gradients (fit) and of solutions "
               "extracted is bounded per harness as stated")


def measured(vc, S, m, lo, hi):
    """measured gradients with data, measurement and error -> [(object, data, (scaled, error))]"""
    n = vc.seq("gradients", lo, hi)
    G = vc.mod("GridProperty").GridGradient
    out = []
    for k in range(n):
        a = vc.array(f"g{k}", m["shape"], nan=True, **({} if vc.symbolic else {"lo": 0, "hi": 1}))
        o = G(a, S.parameters, vc.real(f"pos{k}"))
        mm = measurement(vc, f"m{k}", True)
        vc.assume(valid(vc, mm))
        vc.assume(mm[3] > (0 if vc.symbolic else 1e-2))
        o.determine_mask(*mm)
        if vc.choice(f"g{k} own mask", [False, True]) if k == 0 or not vc.symbolic else k == 1:
            o.set_mask(vc.array(f"g{k}mask", m["shape"], kind="b"))
        out.append((o, vc.copy_array(a), (mm[0] * mm[1] / mm[2], mm[3])))
    if n:
        S.gradients = [o for o, _, _ in out]
    return out


@harness(functions=FIT, bound="up to two gradients (three in the concrete runs)", runs=120, weight=4)
def misfit(vc):
    S, m = shallot(vc, which=())
    L = measured(vc, S, m, 1, 2 if vc.symbolic else 3)
    keep = [vc.copy_array(o.mask) for o, _, _ in L]
    if vc.choice("older fit", [False, True]) if not vc.symbolic or len(L) == 1 else True:
        N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
        S.gradient_fit = vc.mod("GridProperty").GridProperty(N, U, vc.array("old", m["shape"]), S.parameters)
    form = vc.choice("form", ["default", "weighted", "unweighted", "keyword"])
    if form == "default":
        S.determine_gradient_fit()
    elif form == "keyword":
        S.determine_gradient_fit(weighted=False)
    else:
        S.determine_gradient_fit(form == "weighted")
    w = form in ("default", "weighted")
    F = S.gradient_fit
    vc.check("a fit is stored", F is not None and vc.shape_is(F.data, m["shape"]))
    N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
    vc.check("name and unit", F.name is N and F.unit is U)
    vc.check("the mask of the fit", vc.is_array(F.mask, 3, "b") and vc.shape_is(F.mask, m["shape"]))

    def cell(i):
        nan = vc.or_(*[vc.isnan(vc.at(a, i)) for _, a, _ in L])
        x = vc.at(F.data, i)
        vc.check("NaN exactly where a disk gradient is", vc.iff(vc.isnan(x), nan))
        vc.check("masked exactly where NaN", vc.iff(vc.at(F.mask, i), nan))
        vc.assume(vc.not_(nan))
        s = 0
        for _, a, (sc, e) in L:
            d = vc.at(a, i) - sc
            s = s + (d * d / (e * e) if w else d * d)
        vc.check("sum of the squared misfits", vc.eq(x, s, 1e-6))
    vc.forall("fit", m["shape"], cell)
    for (o, a, (sc, e)), k in zip(L, keep):
        same_array(vc, o.data, a, "the disk gradients stay")
        same_array(vc, o.mask, k, "the gradient masks stay")
        vc.check("the measurements stay", vc.and_(vc.eq(o.get_scaled_gradient(), sc), vc.eq(o.measured_error, e)))


@harness(functions=FIT, conc=False, weight=3)
def misfit_of_any_number(vc):
    """any number n of gradients: with P(0) = 0 and P(k + 1) = P(k) + the
    weighted squared misfit of gradient k (NaN from the first NaN on), the
    fit is P(n)"""
    S, m = shallot(vc, which=())
    n = vc.int("gradients", 1)
    data, P = vc.array("g", (n, *m["shape"]), nan=True), vc.array("sum", (n + 1, *m["shape"]), nan=True)
    par = [vc.array(x, (n,)) for x in ("pos", "measured", "scale", "change", "error")]
    w = vc.choice("form", ["default", "weighted", "unweighted"])
    G = vc.mod("GridProperty").GridGradient

    def values(k):
        mm = tuple(vc.at(a, k) for a in par[1:])
        vc.assume(vc.and_(mm[2] > 0, mm[3] > 0))
        vc.assume(valid(vc, mm))
        return mm

    def item(k):
        o = G(vc.mkarray(m["shape"], lambda i: vc.at(data, (k, *i))), S.parameters, vc.at(par[0], k))
        o.determine_mask(*values(k))
        return o

    def entry(a, i, x0):
        if a.dtype.kind != "f":
            vc.unsupported("another accumulator")
        return vc.eq(x0, 0)

    def state(a, k, i, x0):
        return vc.at(P, (k, *i))

    def step(a, k, i, x0, x):
        mm = values(k)
        d = vc.at(data, (k, *i)) - mm[0] * mm[1] / mm[2]
        return vc.eq(x, vc.at(P, (k, *i)) + (d * d if w == "unweighted" else d * d / (mm[3] * mm[3])))
    S.gradients = L = vc.vlist(n, item, (entry, state, step))
    if w == "default":
        S.determine_gradient_fit()
    else:
        S.determine_gradient_fit(w == "weighted")
    F = S.gradient_fit
    vc.check("a fit is stored", F is not None and vc.shape_is(F.data, m["shape"]))
    vc.check("the mask of the fit", vc.is_array(F.mask, 3, "b") and vc.shape_is(F.mask, m["shape"]))

    def cell(i):
        vc.check("the fit is the sum over all gradients", vc.eq(vc.at(F.data, i), vc.at(P, (n, *i))))
        vc.check("masked exactly where the sum is NaN", vc.iff(vc.at(F.mask, i), vc.isnan(vc.at(P, (n, *i)))))
    vc.forall("fit", m["shape"], cell)
    vc.check("the gradients stay", S.gradients is L)
    vc.items_untouched()


@harness(functions=FIT, runs=40, weight=1)
def nothing_to_fit(vc):
    S, m = shallot(vc, which=())
    out = vc.call(S.determine_gradient_fit)
    vc.check("without gradients there is no fit", out.ok and S.gradient_fit is None)


@harness(functions=EXT, bound="up to three solutions", runs=150, weight=6)
def solutions(vc):
    vc.option("count_witnesses", 4)
    S, m = shallot(vc, which=OWN)
    own = masks(vc, S, m, full=not vc.symbolic, which=OWN if not vc.symbolic else OWN[:1])
    a = vc.array("fit", m["shape"], nan=True)
    G = vc.mod("GridProperty").GridGradient
    # the cells without a fit are masked, as they are by the gradients
    o = G(vc.array("g", m["shape"], nan=True, **({} if vc.symbolic else {"lo": 0, "hi": 1})), S.parameters, vc.real("pos"))
    more = vc.array("more", m["shape"], kind="b")
    M = vc.mkarray(m["shape"], lambda i: vc.or_(vc.isnan(vc.at(a, i)), vc.at(more, i)), "bool")
    o.set_mask(vc.copy_array(M))
    S.gradients = [o]
    N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
    S.gradient_fit = vc.mod("GridProperty").GridProperty(N, U, vc.copy_array(a), S.parameters)
    S.gradient_fit.set_mask(vc.mkarray(m["shape"], lambda i: vc.isnan(vc.at(a, i)), "bool"))

    def hidden(i):
        return vc.or_(vc.at(M, i), *[vc.at(x, i) for x in own.values() if x is not None])
    used = []
    if vc.symbolic:
        # the data of a grid point (contract proved in C22)
        cls = vc.mod("Shallot").ShallotGrid

        def stub(self, y, x, r, masked=True):
            used.append((y, x, r))
            vals = [vc.at(getattr(self, n).get_data(), (y, x, r)) for n in OWN]
            if masked:
                h = vc.at(self.get_combined_mask(), (y, x, r))
                vals = [vc.ite(h, float("nan"), v) for v in vals]
            dy, dx, rf = self.parameters.get_vectors()
            z = [vc.fresh_real(n) for n in ("fx", "fy", "diagnostic")]
            return (*vals, vc.at(dx, x), vc.at(dy, y)), (vc.at(rf, r), *z), (None, None)
        if not vc.contract(cls, "get_grid_point_data", stub):
            vc.unsupported("get_grid_point_data is gone")
    n = vc.choice("solutions", [0, 1, 2, 3])
    out = vc.call(S.extract_solutions, n) if vc.symbolic or vc.choice("form", ["number", "all"]) == "number" else vc.call(S.extract_solutions)
    if not vc.symbolic:
        cells = [i for i in vc.indices(m["shape"]) if not hidden(i)]
        if len(cells) == 0 and n == 0:
            return
        vc.check("accepted exactly when there are as many unmasked cells", out.ok or n > len(cells))
        if not out.ok:
            return
        k = len(out.value[0])
        vc.check("as many as asked for", k in (n, len(cells)) and all(len(v) == k for v in out.value))
        best = sorted(float(a[i]) for i in cells)[:k]
        vc.check("best first", all(vc.eq(x, y) for x, y in zip(out.value[0], best)))
        dy, dx, _ = S.parameters.get_vectors()
        left = list(cells)
        for j in range(k):
            want = [v[j] for v in out.value]
            hit = [i for i in left if all(vc.eq(x, y) for x, y in zip(want, [a[i]] + [m["data"][q][i] for q in OWN] + [dx[i[1]], dy[i[0]]]))]
            vc.check("values of distinct unmasked cells", len(hit) > 0)
            left.remove(hit[0])
    else:
        if not out.ok:
            # refused: fewer unmasked cells than asked for
            vc.check("a refused number is larger than the number of unmasked cells", type(out.exc) is ValueError and len(used) == 0 and n > 0)
            return
        rms = out.value[0]
        vc.check("six arrays of the number asked for", vc.length(out.value) == 6 and vc.and_(*[vc.shape_is(v, (n,)) for v in out.value]))
        if len(used) != n:
            vc.unsupported("solutions are not read cell by cell")
        dy, dx, _ = S.parameters.get_vectors()
        for j, u in enumerate(used):
            vc.check("an unmasked cell", vc.not_(hidden(u)))
            vc.check("fit of the cell", vc.eq(vc.at(rms, j), vc.at(a, u)))
            for v, q in zip(out.value[1:4], OWN):
                vc.check(f"{q} of the cell", vc.eq(vc.at(v, j), vc.at(m["data"][q], u)))
            vc.check("position of the cell", vc.and_(vc.eq(vc.at(out.value[4], j), vc.at(dx, u[1])), vc.eq(vc.at(out.value[5], j), vc.at(dy, u[0]))))
            for w in used[:j]:
                vc.check("distinct cells", vc.or_(*[vc.not_(p == q) for p, q in zip(u, w)]))
        if n:
            def cell(t):
                vc.assume(vc.not_(hidden(t)))
                for j, u in enumerate(used):
                    other = vc.and_(*[vc.or_(*[vc.not_(p == q) for p, q in zip(t, w)]) for w in used[:j]])
                    vc.check("no better cell is left out", vc.implies(other, vc.at(rms, j) <= vc.at(a, t)))
            vc.forall("best first", m["shape"], cell)
    same_array(vc, S.gradient_fit.data, a, "the stored fit stays")
    same_array(vc, o.mask, M, "the gradient mask stays")
    for q in OWN:
        same_array(vc, getattr(S, q).data, m["data"][q], f"the stored {q} stays")
        if own.get(q) is not None:
            same_array(vc, getattr(S, q).mask, own[q], f"the mask of {q} stays")


@harness(functions=EXT, runs=60, weight=2)
def refused(vc):
    """a number that is no number of solutions"""
    S, m = shallot(vc, which=OWN)
    a = vc.array("fit", m["shape"])
    N, U = vc.mod("GridPropertyName").GridPropertyName.GRADIENT_FIT, vc.mod("GridPropertyUnit").GridPropertyUnit.NONE
    S.gradient_fit = vc.mod("GridProperty").GridProperty(N, U, vc.copy_array(a), S.parameters)
    bad = vc.choice("bad", ["negative", "too many", "real", "text"])
    size = m["shape"][0] * m["shape"][1] * m["shape"][2]
    n = {"negative": -1, "too many": size + 1, "real": 1.5, "text": "1"}[bad]
    out = vc.call(S.extract_solutions, n)
    vc.check("refused", not out.ok)
    same_array(vc, S.gradient_fit.data, a, "the stored fit stays")

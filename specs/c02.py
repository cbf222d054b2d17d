"""C02: array validation."""
import numpy as np
from dv.common import harness

KINDS = {"f": "float64", "i": "int64", "b": "bool"}


def an_array(vc, name, ndim, kind, special=True):
    shape = tuple(vc.int(f"{name}_n{k}", 0, small=4) for k in range(ndim))
    return vc.array(name, shape, kind=kind, nan=special and kind == "f", inf=special and kind == "f")


@harness(functions=["validate.array", "validate._array_bounds", "validate._array_like", "validate._array_dimensions", "validate._array_type"], runs=1500)
def array_bounds_exact(vc):
    V = vc.mod("validate")
    ndim = vc.choice("ndim", [1, 2, 0, 3])
    kind = vc.choice("kind", ["f", "i"])
    a = an_array(vc, "a", ndim, kind)
    old = vc.copy_array(a)
    form = vc.choice("bounds", ["lower", "upper", "both"])
    excl = vc.choice("exclusive", [None, False, True])
    kw = {}
    lo, hi = -np.inf, np.inf
    if form in ("lower", "both"):
        lo = kw["lower_bound"] = vc.real("lo", inf=True)
    if form in ("upper", "both"):
        hi = kw["upper_bound"] = vc.real("hi", inf=True)
    if excl is not None:
        kw["exclusive"] = excl
    r = vc.call(V.array, a, "a", **kw)

    def ok_at(i):
        x = vc.at(a, i)
        return vc.and_(vc.not_(vc.isnan(x)), x > lo, x < hi) if excl else vc.and_(vc.not_(vc.isnan(x)), x >= lo, x <= hi)
    if r.ok:
        vc.reach("accepted")
        vc.check("accepted only with ordered bounds", lo <= hi)
        vc.check("the same object is returned", r.value is a)
        vc.forall("accepted only if every element conforms", vc.dims(a), lambda i: vc.check("accepted only if every element conforms", ok_at(i)))
    else:
        vc.reach("refused")
        vc.check("refusal is a ValueError", type(r.exc) is ValueError)
        vc.check("refused only if an element does not conform or the bounds are not ordered",
                 vc.or_(vc.not_(lo <= hi), vc.not_(vc.all_(vc.dims(a), ok_at))))
    vc.forall("the array is not changed", vc.dims(a), lambda i: vc.check("the array is not changed", vc.eq(vc.at(a, i), vc.at(old, i))))


@harness(functions=["validate.array", "validate._array_dimensions", "validate._array_type"], runs=600)
def array_type_and_dimension(vc):
    V = vc.mod("validate")
    E = vc.mod("errors")
    ndim = vc.choice("ndim", [1, 2, 0, 3])
    kind = vc.choice("kind", ["f", "i", "b"])
    a = an_array(vc, "a", ndim, kind)
    kw = {}
    dt = vc.choice("dtype", [None, "float64", "int64", "bool", "float32"])
    nd = vc.choice("num_dimensions", [None, "free"])
    if dt is not None:
        kw["dtype"] = dt
    if nd is not None:
        nd = vc.int("nd", 0, 4)
        kw["num_dimensions"] = nd
    r = vc.call(V.array, a, "a", **kw)
    okt = dt is None or dt == KINDS[kind]
    okd = True if nd is None else nd == ndim
    vc.check("accepted exactly when type and dimensions agree", vc.iff(r.ok, vc.and_(okt, okd)))
    if r.ok:
        vc.check("the same object is returned", r.value is a)
    elif not vc.branch(okd) :
        vc.check("a wrong number of dimensions is an InvalidDimensionsError", r.raised(E.InvalidDimensionsError) or (not okt and type(r.exc) is TypeError))
    else:
        vc.check("a wrong element type is a TypeError", type(r.exc) is TypeError)


@harness(functions=["validate.array", "validate._array_like"], runs=200)
def array_wrong_kind(vc):
    V = vc.mod("validate")
    k = vc.choice("kind", ["list", "number", "string", "none", "tuple", "type"])
    x = {"list": [1.0, 2.0], "number": vc.real("x"), "string": "ab", "none": None, "tuple": (1.0,), "type": np.ndarray}[k]
    kw = {}
    if vc.choice("with_bounds", [False, True]):
        kw = {"lower_bound": -1.0, "upper_bound": 2.0}
    if vc.choice("with_type", [False, True]):
        kw["dtype"] = "float64"
        kw["num_dimensions"] = 1
    r = vc.call(V.array, x, "x", **kw)
    vc.check("not an array raises TypeError", (not r.ok) and type(r.exc) is TypeError)


@harness(functions=["validate.same_shape_arrays"], runs=1200, bound="up to three arrays of up to two dimensions, every length")
def same_shape(vc):
    V = vc.mod("validate")
    E = vc.mod("errors")
    n = vc.choice("count", [2, 3, 1, 0])
    m = vc.choice("names", ["same", "fewer", "more"])
    arrs, shapes = [], []
    for k in range(n):
        nd = vc.choice(f"ndim{k}", [1, 2, 0])
        shp = tuple(vc.int(f"n{k}_{j}", 0, small=2) for j in range(nd))
        shapes.append(shp)
        arrs.append(vc.array(f"a{k}", shp, kind="f"))
    names = [f"a{k}" for k in range({"same": n, "fewer": max(n - 1, 0), "more": n + 1}[m])]
    r = vc.call(V.same_shape_arrays, arrs, names)
    same = vc.and_(*[len(s) == len(shapes[0]) and vc.and_(*[x == y for x, y in zip(s, shapes[0])]) for s in shapes[1:]]) if n else True
    ok = vc.and_(n >= 2, len(names) == n, same)
    vc.check("accepted exactly when at least two, one name each and equal shapes", vc.iff(r.ok, ok))
    if not r.ok:
        if n < 2 or len(names) != n:
            vc.check("a wrong number of arrays or names is an AttributeError", type(r.exc) is AttributeError)
        else:
            vc.check("unequal shapes are an InvalidShapeError", r.raised(E.InvalidShapeError))


@harness(functions=["validate.same_shape_arrays"], runs=200, bound="up to three arrays")
def same_shape_wrong_kind(vc):
    V = vc.mod("validate")
    n = vc.int("n", 0, small=3)
    arrs = [vc.array("a", (n,), kind="f"), vc.array("b", (n,), kind="f")]
    pos = vc.choice("position", [0, 1, 2])
    bad = vc.choice("bad", ["list", "number", "none"])
    arrs.insert(pos, {"list": [1.0], "number": vc.real("x"), "none": None}[bad])
    r = vc.call(V.same_shape_arrays, arrs, ["a", "b", "c"])
    vc.check("something that is no array is refused", (not r.ok) and type(r.exc) in (TypeError, AttributeError))

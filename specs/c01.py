"""C01: scalar validation."""
from fractions import Fraction
import numpy as np
from dv.common import harness

INTS = [int, bool, np.int8, np.int16, np.int32, np.int64]
FLOATS = [float, np.float16, np.float32, np.float64, np.longdouble]


class Other:
    pass


def wrong(kind):
    return {"string": "1", "none": None, "list": [1.0], "tuple": (1,), "object": Other(), "type": int, "complex": 1j,
            "array": np.array([1.0]), "dict": {}, "npbool": np.True_, "unsigned": np.uint8(3), "fraction": Fraction(1, 2),
            "npcomplex": np.complex128(1), "npstring": np.str_("1"), "bytes": b"1"}[kind]


WRONG = ["string", "none", "list", "tuple", "object", "type", "complex", "array", "dict", "npbool", "unsigned", "fraction", "npcomplex", "npstring", "bytes"]


def a_number(vc, name, tags, inf=True, nan=True):
    t = vc.choice(name + "_type", tags)
    if t is bool:
        return vc.boolean(name), t
    if t in INTS:
        return vc.int(name, -100, 100, tag=t) if not vc.symbolic else vc.int(name, tag=t), t
    return vc.real(name, nan=nan, inf=inf, tag=t), t


def inside(vc, x, lo, hi, exclusive):
    isn = vc.isnan(x)
    if exclusive:
        return vc.and_(vc.not_(isn), x > lo, x < hi)
    return vc.and_(vc.not_(isn), x >= lo, x <= hi)


@harness(functions=["validate.number", "validate._number_type", "validate._number_bounds", "validate._integer_type", "validate._float_type"], runs=1500)
def number_exact(vc):
    V = vc.mod("validate")
    integer = vc.choice("check_integer", [None, False, True])
    x, t = a_number(vc, "x", INTS + FLOATS)
    form = vc.choice("bounds", ["none", "lower", "upper", "both", "both_int", "both_np"])
    excl = vc.choice("exclusive", [None, False, True])
    kw = {}
    lo, hi = -np.inf, np.inf
    if form in ("lower", "both"):
        lo = vc.real("lo", inf=True)
    if form in ("upper", "both"):
        hi = vc.real("hi", inf=True)
    if form == "both_int":
        lo, hi = vc.int("lo"), vc.int("hi")
    if form == "both_np":
        lo, hi = vc.real("lo", tag=np.float64), vc.int("hi", tag=np.int64)
    if form in ("lower", "both", "both_int", "both_np"):
        kw["lower_bound"] = lo
    if form in ("upper", "both", "both_int", "both_np"):
        kw["upper_bound"] = hi
    if excl is not None:
        kw["exclusive"] = excl
    if integer is not None:
        kw["check_integer"] = integer
    r = vc.call(V.number, x, "x", **kw)
    if integer and t in FLOATS:
        vc.check("a float is not an integer", (not r.ok) and type(r.exc) is TypeError)
        return
    order = lo <= hi
    ok = vc.and_(order, inside(vc, x, lo, hi, bool(excl)))
    vc.check("accepted exactly when inside the bounds", vc.iff(r.ok, ok))
    if r.ok:
        vc.reach("accepted")
        vc.check("the value is returned unchanged", vc.and_(type_same(vc, r.value, x), vc.eq(r.value, x)))
    else:
        vc.reach("refused")
        vc.check("out of bounds raises ValueError", type(r.exc) is ValueError)


def type_same(vc, a, b):
    ta = getattr(a, "tag", type(a))
    tb = getattr(b, "tag", type(b))
    return ta is tb


@harness(functions=["validate.number"], runs=500)
def number_wrong_kind(vc):
    V = vc.mod("validate")
    k = vc.choice("kind", WRONG)
    integer = vc.choice("check_integer", [False, True])
    kw = {}
    if vc.choice("with_bounds", [False, True]):
        kw = {"lower_bound": vc.real("lo", -5, 0), "upper_bound": vc.real("hi", 1, 5), "exclusive": vc.choice("exclusive", [False, True])}
    x = wrong(k)
    if vc.symbolic and k == "array":
        x = vc.pyarray([1.0])
    r = vc.call(V.number, x, "x", check_integer=integer, **kw)
    vc.check("not a number raises TypeError", (not r.ok) and type(r.exc) is TypeError)


@harness(functions=["validate.number"], runs=300)
def number_wrong_bounds(vc):
    """bounds that are no numbers, or flags that are no booleans"""
    V = vc.mod("validate")
    x = vc.real("x")
    which = vc.choice("which", ["lower_bound", "upper_bound", "exclusive", "check_integer"])
    k = vc.choice("kind", ["string", "list", "object", "dict"] + (["number"] if which in ("exclusive", "check_integer") else []))
    bad = vc.real("bad") if k == "number" else wrong(k)
    r = vc.call(V.number, x, "x", **{which: bad})
    vc.check("wrong kind of bound or flag raises TypeError", (not r.ok) and type(r.exc) is TypeError)


@harness(functions=["validate.boolean", "validate.string", "validate.class_object"], runs=400)
def instances(vc):
    V = vc.mod("validate")
    f = vc.choice("function", ["boolean", "string", "class_object"])
    k = vc.choice("kind", ["bool", "text", "int", "float", "npbool", "subclass", "instance", "none", "list"])

    class Base:
        pass

    class Sub(Base):
        pass
    class Text(str):
        pass
    x = {"bool": lambda: vc.boolean("x"), "text": lambda: "abc", "int": lambda: vc.int("x"), "float": lambda: vc.real("x", nan=True),
         "npbool": lambda: vc.boolean("x", tag=np.bool_), "subclass": lambda: Sub(), "instance": lambda: Base(),
         "none": lambda: None, "list": lambda: [True]}[k]()
    if f == "boolean":
        r = vc.call(V.boolean, x, "x")
        ok = k == "bool"
    elif f == "string":
        if k == "subclass":
            x, k = Text("a"), "text"
        r = vc.call(V.string, x, "x")
        ok = k == "text"
    else:
        r = vc.call(V.class_object, x, "x", Base, "Base")
        ok = k in ("subclass", "instance")
    vc.check("accepted exactly when an instance of the type", r.ok is ok)
    if ok:
        vc.check("the same object is returned", r.value is x)
    else:
        vc.check("any other kind raises TypeError", type(r.exc) is TypeError)

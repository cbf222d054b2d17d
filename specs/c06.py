"""C06: splitting rings."""
import numpy as np
from dv.common import harness
from specs.ringlib import system, data_is

LEVEL = "other"
EXPLANATION = "contracts discharged path by path for arbitrary ring parameters; the number of rings is bounded per harness, so the harnesses are exhaustive only up to the stated bound"
FUN = ["RingSystem.RingSystem.split_rings"]


def is_split(vc, s, m, divs, what):
    """every ring is replaced by its number of equal ringlets"""
    I, O, T = [], [], []
    for i, o, t, d in zip(m["I"], m["O"], m["T"], divs):
        for j in range(d):
            I.append(i + (o - i) * j / d)
            O.append(i + (o - i) * (j + 1) / d)
            T.append(t)
    data_is(vc, s, I, O, T, m, what)
    gi, go, _ = s.get_rings_data()
    # without gaps or overlaps and over exactly the same range
    p = 0
    for i, o, d in zip(m["I"], m["O"], divs):
        vc.check(what + ": the ringlets start and end with the ring", vc.and_(vc.eq(vc.at(gi, p), i), vc.eq(vc.at(go, p + d - 1), o)))
        for j in range(d - 1):
            vc.check(what + ": neighbouring ringlets touch", vc.eq(vc.at(go, p + j), vc.at(gi, p + j + 1)))
        p += d


@harness(functions=FUN, bound="up to three rings, two to four divisions", runs=300, weight=4)
def split_number(vc):
    n = vc.seq("n", 0, 3)
    s, m = system(vc, n)
    d = vc.seq("d", 2, 4)
    kind = vc.choice("kind", ["int", "np"])
    out = vc.call(s.split_rings, d if kind == "int" else np.int64(d))
    vc.check("a number of at least two is accepted", out.ok)
    is_split(vc, s, m, [d] * n, "split")


@harness(functions=FUN, bound="up to three rings, one to three divisions each", runs=300, weight=6)
def split_array(vc):
    n = vc.seq("n", 1, 3)
    s, m = system(vc, n)
    divs = [vc.seq(f"d{k}", 1, 3) for k in range(n)]
    arr = vc.pyarray(divs, "int64")
    out = vc.call(s.split_rings, arr)
    vc.check("an array of positive numbers, one per ring, is accepted", out.ok)
    is_split(vc, s, m, divs, "split by array")
    for k in range(n):
        vc.check("the given array is not changed", vc.at(arr, k) == divs[k])


@harness(functions=FUN, bound="up to two rings", runs=500, weight=4)
def invalid(vc):
    n = vc.seq("n", 1, 2)
    s, m = system(vc, n)
    k = vc.choice("bad", ["number", "element", "length", "float", "floats", "text", "none", "twodim", "list"])
    if k == "number":
        d = vc.int("d", None, 0)
    elif k == "element":
        d = vc.array("d", (n,), kind="i")
        vc.assume(vc.any_((n,), lambda i: vc.at(d, i) < 1))
    elif k == "length":
        x = vc.int("len", 0, small=5)
        vc.assume(x != n)
        d = vc.array("d", (x,), kind="i", lo=1)
    elif k == "float":
        d = vc.real("d")
    elif k == "floats":
        d = vc.array("d", (n,), kind="f", lo=1)
    elif k == "twodim":
        d = vc.array("d", (n, 1), kind="i", lo=1)
    else:
        d = {"text": "2", "none": None, "list": [2] * n}[k]
    out = vc.call(s.split_rings, d)
    vc.check("an invalid number of divisions is refused", not out.ok)
    data_is(vc, s, m["I"], m["O"], m["T"], m, "refused split")


@harness(functions=FUN, sym=False, runs=250, bound="concrete: up to six rings, up to twelve divisions each, two splits in a row")
def split_many(vc):
    n = vc.seq("n", 1, 6)
    s, m = system(vc, n)
    for step in range(vc.seq("steps", 1, 2)):
        n = len(m["I"])
        if n > 60:
            break
        if vc.choice(f"form{step}", ["number", "array"]) == "number":
            divs = [vc.int(f"d{step}", 2, 12)] * n
            out = vc.call(s.split_rings, divs[0])
        else:
            divs = [int(x) for x in vc.array(f"d{step}", (n,), kind="i", lo=1, hi=12)]
            out = vc.call(s.split_rings, np.array(divs))
        vc.check("a valid number of divisions is accepted", out.ok)
        is_split(vc, s, m, divs, "split")
        gi, go, gt = s.get_rings_data()
        m = dict(m, I=list(gi), O=list(go), T=list(gt))

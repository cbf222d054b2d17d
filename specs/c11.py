"""C11: diagnostics return what was stored; mirrored points share them."""
from dv.common import harness
from specs.gridlib import grid, same_array

FUN = ["GridDiagnostics.GridDiagnostics.__init__", "GridDiagnostics.GridDiagnostics.save_diagnostic", "GridDiagnostics.GridDiagnostics.get_diagnostic"]
EXT = FUN + ["GridDiagnostics.GridDiagnostics.extend"]


def new(vc, **k):
    g, m = grid(vc, small=3, **k)
    return vc.mod("GridDiagnostics").GridDiagnostics(g), m


def point(vc, p, m):
    return vc.int(p + "y", 0, m["ny"] - 1), vc.int(p + "x", 0, m["nx"] - 1)


def arrays(vc, p):
    n = vc.int(p + "n", 0, small=3)
    return vc.array(p + "fy", (n,), nan=True), vc.array(p + "dr", (n,), nan=True)


def same_result(vc, out, want, what):
    """want: the stored pair of arrays, or None when nothing is stored"""
    if want is None:
        vc.check(what + ": nothing is returned where nothing is stored", not out.ok)
        return
    vc.check(what + ": returned", out.ok)
    same_array(vc, out.value[0], want[0], what + ": stretch factors")
    same_array(vc, out.value[1], want[1], what + ": disk radius")


def arbitrary(vc, D, m):
    """any number of earlier operations"""
    def make(i, j):
        return vc.array(f"h{i}_{j}", (vc.int(f"h{i}_{j}n", 0),), nan=True)

    def replay():
        for k in range(vc.seq("earlier", 0, 5)):
            D.save_diagnostic(*point(vc, f"e{k}", m), *arrays(vc, f"e{k}"))
    vc.any_history(D, make, replay)


@harness(functions=FUN, runs=400, weight=4)
def any_history(vc):
    """after any history: storing at P changes what P returns, and nothing else"""
    D, m = new(vc)
    arbitrary(vc, D, m)
    P, Q = point(vc, "p", m), point(vc, "q", m)
    before = vc.call(D.get_diagnostic, *Q)
    a = arrays(vc, "a")
    keep = (vc.copy_array(a[0]), vc.copy_array(a[1]))
    out = vc.call(D.save_diagnostic, *P, *a)
    vc.check("storing succeeds", out.ok)
    after = vc.call(D.get_diagnostic, *Q)
    if vc.branch(vc.and_(P[0] == Q[0], P[1] == Q[1])):
        same_result(vc, after, keep, "stored point")
    else:
        same_result(vc, after, before.value if before.ok else None, "other point")


@harness(functions=FUN, runs=400, weight=3)
def outside(vc):
    D, m = new(vc)
    arbitrary(vc, D, m)
    P, Q = (vc.int("py", small=8), vc.int("px", small=8)), point(vc, "q", m)
    inside = vc.and_(0 <= P[0], P[0] < m["ny"], 0 <= P[1], P[1] < m["nx"])
    before = vc.call(D.get_diagnostic, *Q)
    out = vc.call(D.save_diagnostic, *P, *arrays(vc, "a"))
    vc.check("points are accepted exactly inside the grid", vc.iff(out.ok, inside))
    if not out.ok:
        vc.check("outside points are a value error", type(out.exc) is ValueError)
        got = vc.call(D.get_diagnostic, *P)
        vc.check("nothing is returned outside the grid", (not got.ok) and type(got.exc) is ValueError)
        same_result(vc, vc.call(D.get_diagnostic, *Q), before.value if before.ok else None, "after a refused point")


@harness(functions=FUN, runs=300, weight=3)
def invalid(vc):
    """arrays of the wrong kind or of different shapes change nothing"""
    D, m = new(vc)
    arbitrary(vc, D, m)
    P = point(vc, "p", m)
    before = vc.call(D.get_diagnostic, *P)
    bad = vc.choice("bad", ["length", "ints", "twodim", "list", "none", "text index", "float index"])
    which = vc.choice("which", [0, 1])
    n = vc.int("n", 1, small=3)
    a = [vc.array("fy", (n,)), vc.array("dr", (n,))]
    idx = list(P)
    if bad == "length":
        k = vc.int("k", 0, small=4)
        vc.assume(k != n)
        a[which] = vc.array("other", (k,))
    elif bad == "ints":
        a[which] = vc.array("other", (n,), kind="i")
    elif bad == "twodim":
        a[which] = vc.array("other", (n, 1))
    elif bad == "text index":
        idx[which] = "0"
    elif bad == "float index":
        idx[which] = vc.real("f", 0, 1)
    else:
        a[which] = {"list": [0.5], "none": None}[bad]
    out = vc.call(D.save_diagnostic, *idx, *a)
    vc.check("invalid arguments are refused", not out.ok)
    same_result(vc, vc.call(D.get_diagnostic, *P), before.value if before.ok else None, "after refused arguments")


@harness(functions=FUN, runs=100, weight=1)
def fresh(vc):
    D, m = new(vc)
    out = vc.call(D.get_diagnostic, *point(vc, "p", m))
    vc.check("nothing is stored at first", not out.ok)


def where(vc, pts, y, x):
    """index of the stored point equal to (y, x), or None"""
    for k in reversed(range(len(pts))):
        if vc.branch(vc.and_(pts[k][0][0] == y, pts[k][0][1] == x)):
            return k
    return None


@harness(functions=EXT, bound="up to two stored points", runs=500, weight=5)
def extended(vc):
    """every point of the extended grid gives the diagnostic of its mirror
    image (or exactly the listed deviation of this tree)"""
    D, m = new(vc)
    ny, nx = m["ny"], m["nx"]
    pts = []
    for k in range(vc.seq("points", 1, 2)):
        P, a = point(vc, f"p{k}", m), arrays(vc, f"a{k}")
        D.save_diagnostic(*P, *a)
        pts.append((P, a))
    D.extend()
    y, x = vc.int("y", -1, 2 * ny - 1, small=6), vc.int("x", -1, 2 * nx - 1, small=6)
    got = vc.call(D.get_diagnostic, y, x)
    if not vc.branch(vc.and_(0 <= y, y <= 2 * ny - 2, 0 <= x, x <= 2 * nx - 2)):
        vc.check("points outside the extended grid are refused", (not got.ok) and type(got.exc) is ValueError)
        return
    centre = 0 if deviates(vc) else 1
    k = where(vc, pts, abs(y - (ny - centre)), abs(x - (nx - centre)))
    same_result(vc, got, None if k is None else pts[k][1], "mirrored point")


def deviates(vc):
    """is the listed deviation of this tree there?  The contract is then
    checked exactly as listed, any other behaviour fails"""
    GP, GD = vc.mod("GridParameters").GridParameters, vc.mod("GridDiagnostics").GridDiagnostics
    D = GD(GP(0, 1, 2, 0, 1, 2, 2, 2))
    D.save_diagnostic(1, 1, vc.np.zeros(1), vc.np.ones(1))
    D.extend()
    return not vc.call(D.get_diagnostic, 0, 0).ok


@harness(functions=EXT, runs=300, weight=2)
def refused(vc):
    D, m = new(vc)
    arbitrary(vc, D, m)
    D.extend()
    y, x = vc.int("y", 0, 2 * m["ny"] - 2), vc.int("x", 0, 2 * m["nx"] - 2)
    before = vc.call(D.get_diagnostic, y, x)
    out = vc.call(D.save_diagnostic, *point(vc, "p", m), *arrays(vc, "a"))
    vc.check("storing is refused after the extension", not out.ok)
    after = vc.call(D.get_diagnostic, y, x)
    same_result(vc, after, before.value if before.ok else None, "after the refused storing")


def extended_key():
    """is the listed deviation there?"""
    import numpy as np
    from GridParameters import GridParameters
    from GridDiagnostics import GridDiagnostics
    D = GridDiagnostics(GridParameters(0, 1, 2, 0, 1, 2, 2, 2))
    D.save_diagnostic(1, 1, np.zeros(1), np.ones(1))
    D.extend()
    try:
        D.get_diagnostic(0, 0)
        return False
    except KeyError:
        return True


KNOWN = {"extended_key": extended_key}

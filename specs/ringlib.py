"""shared by the ring specifications"""
import numpy as np

ATTR = ["inner_radius", "outer_radius", "transmission", "inclination", "tilt"]


def same_value(vc, name, got, want):
    """an inner radius of zero becomes a tiny positive one"""
    if name == "inner_radius":
        return vc.ite_(want == 0, lambda: vc.and_(got > 0, got <= 1e-9), lambda: vc.eq(got, want))
    return vc.eq(got, want)


def make_ring(vc, p, hi=None, inc=True):
    """a valid ring with arbitrary parameters"""
    Ring = vc.mod("Ring").Ring
    i = vc.real(p + "in", 0, hi)
    o = vc.real(p + "out", i, hi)
    vc.assume(vc.and_(i < o, vc.or_(i > 0, o > 1e-9)))
    t = vc.real(p + "tr", 0, 1)
    if inc:
        a, b = vc.real(p + "inc", 0, 90), vc.real(p + "tilt", -180, 180)
        return Ring(i, o, t, a, b), (i, o, t, a, b)
    return Ring(i, o, t), (i, o, t, 0, 0)


def ordered_arrays(vc, n, p="", hi=None, touching=True):
    """n radially ordered, non-overlapping rings (touching allowed)"""
    I, O, T = [], [], []
    prev = None
    for k in range(n):
        if vc.symbolic:
            i = vc.real(f"{p}in{k}")
            o = vc.real(f"{p}out{k}")
        else:
            gap = vc.rng.choice([0, 0, 1, 0.3, 1e-7, 1e-5])
            i = vc.real_is(f"{p}in{k}", (prev if prev is not None else 0.1) + gap * vc.rng.random())
            o = vc.real_is(f"{p}out{k}", i + 0.01 + vc.rng.random())
        vc.assume(vc.and_(i > 0 if prev is None else i >= prev, i < o))
        t = vc.real(f"{p}tr{k}", 0, 1)
        I.append(i)
        O.append(o)
        T.append(t)
        prev = o
    return I, O, T


def system(vc, n, p="", planet=None, arrays=None):
    """a ring system of n ordered rings with arbitrary geometry"""
    RS = vc.mod("RingSystem").RingSystem
    I, O, T = arrays or ordered_arrays(vc, n, p)
    pr = vc.real(p + "planet", 0)
    inc, tilt = vc.real(p + "sinc", 0, 90), vc.real(p + "stilt", -180, 180)
    s = RS(pr, vc.pyarray(I, "float64"), vc.pyarray(O, "float64"), vc.pyarray(T, "float64"), inc, tilt, 50)
    return s, {"I": I, "O": O, "T": T, "planet": pr, "inc": inc, "tilt": tilt}


def any_system(vc):
    """a system of any number of rings -> (system, number, arrays of radii
    and transmissions, geometry)"""
    s, m = system(vc, 1)
    if not vc.is_array(s.rings, 1, "O"):
        vc.unsupported("the rings are stored in another way")
    # what is printed in the log file
    vc.contract(vc.mod("RingSystem").RingSystem, "_print_changes", lambda self, *a, **k: "")
    n = vc.int("number", 0)
    I, O, T = [vc.array(x, (n,)) for x in ("inner", "outer", "transmission")]
    vc.assume_all((n,), lambda k: vc.and_(vc.at(I, k) > 0, vc.at(I, k) < vc.at(O, k), vc.at(T, k) >= 0, vc.at(T, k) <= 1))
    vc.assume_all((n - 1,), lambda k: vc.at(O, k) <= vc.at(I, k + 1))
    Ring = vc.mod("Ring").Ring

    def item(k):
        vc.record([k])
        return Ring(vc.at(I, k), vc.at(O, k), vc.at(T, k), m["inc"], m["tilt"])
    s.rings = vc.objects(n, item)
    return s, n, I, O, T, m


def data_is(vc, s, I, O, T, m, what, n=None):
    """the accessors return exactly these rings with the geometry of the system"""
    n = len(I)
    gi, go, gt = s.get_rings_data()
    vc.check(what + ": number of rings", vc.and_(s.get_num_rings() == n, vc.length(gi) == n, vc.length(go) == n, vc.length(gt) == n))
    for k in range(n):
        vc.check(what + ": radii and transmission of every ring",
                 vc.and_(vc.eq(vc.at(gi, k), I[k]), vc.eq(vc.at(go, k), O[k]), vc.eq(vc.at(gt, k), T[k])))
        r = s.rings[k]
        vc.check(what + ": geometry of every ring", vc.and_(vc.eq(r.inclination, m["inc"]), vc.eq(r.tilt, m["tilt"])))
    vc.check(what + ": geometry of the system", vc.and_(vc.eq(s.inclination, m["inc"]), vc.eq(s.tilt, m["tilt"]), vc.eq(s.planet_radius, m["planet"])))


def face_is(vc, patch, colour):
    f = patch.get_facecolor()
    if vc.symbolic:
        return f == colour
    from matplotlib.colors import to_rgba
    return tuple(f[:3]) == tuple(to_rgba(colour)[:3])


def sub_paths(vc, patch):
    """(vertex accessor, number of vertices) of the patch"""
    v = patch.get_path().vertices
    return v


def unit(vc):
    """matplotlib's unit circle path (arbitrary vertices in the symbolic mode)"""
    if vc.symbolic:
        from dv import shims
        return shims.unit_circle().vertices
    from matplotlib.path import Path
    return Path.unit_circle().vertices


def check_annulus(vc, patch, ri, ro, inc, tilt, xs, ys, tr, colour, what="ring"):
    U = unit(vc)
    n = vc.length(U)
    path = patch.get_path()
    V = path.vertices
    vc.check(what + ": two closed curves", vc.shape_is(V, (n + n, 2)))
    codes = path.codes
    vc.check(what + ": one code per vertex", vc.shape_is(codes, (n + n,)))
    phi, i = vc.deg2rad(tilt), vc.deg2rad(inc)
    c, s, ci = vc.cos(phi), vc.sin(phi), vc.cos(i)

    def on(part, R, sa, sb):
        def p(k):
            j = k if part == 0 else k + n
            dx, dy = vc.at(V, (j, 0)) - xs, vc.at(V, (j, 1)) - ys
            a = dx * c + dy * s
            b = dy * c - dx * s
            return vc.and_(vc.eq_abs(a, sa * R * vc.at(U, (k, 0)), R + abs(xs) + abs(ys)), vc.eq_abs(b, sb * R * ci * vc.at(U, (k, 1)), R + abs(xs) + abs(ys)))
        return p
    ok = {}
    combos = [(1, -1), (-1, 1), (1, 1), (-1, -1)]
    for part, R in ((0, ro), (1, ri)):
        ok[part] = []
        for sa, sb in (combos if part == 0 else [(-1, -1), (1, 1), (1, -1), (-1, 1)]):
            if vc.proves_all((n,), on(part, R, sa, sb)):
                ok[part].append(sa * sb)
                if vc.symbolic:
                    break
        if not ok[part]:
            name = what + (": outer" if part == 0 else ": inner") + " boundary is the projected and tilted ellipse"
            vc.check(name, vc.or_(*[vc.all_((n,), on(part, R, sa, sb)) for sa, sb in combos]))
            return
        vc.check(what + ": boundaries are the projected and tilted ellipses", True)
    vc.check(what + ": the boundaries run in opposite directions", any(x == -y for x in ok[0] for y in ok[1]))
    UC = unit_codes(vc)
    vc.forall(what + ": both curves are drawn like the unit circle", (n,), lambda k: vc.check(
        what + ": both curves are drawn like the unit circle",
        vc.and_(vc.at(codes, k) == vc.at(UC, k), vc.at(codes, k + n) == vc.at(UC, k))))
    vc.check(what + ": opacity is one minus the transmission", vc.eq(patch.get_alpha(), 1 - tr))
    vc.check(what + ": face colour", face_is(vc, patch, colour))


def unit_codes(vc):
    if vc.symbolic:
        from dv import shims
        return shims.unit_circle().codes
    from matplotlib.path import Path
    return Path.unit_circle().codes

"""C16: disk radius, inclination and tilt are those of the sheared ellipse."""
from dv.common import harness
from specs.gridlib import same_array
from specs.shallotlib import shallot, private

S_ = "Shallot.ShallotGrid."
PAR = [S_ + "_determine_disk_parameters", S_ + "_calculate_vertex_and_covertex_angles", S_ + "_calculate_xy_from_parameteric_angle"]


def sq(p):
    return p[0] * p[0] + p[1] * p[1]


def point(a, b, s, R, c, g):
    """point of the stretched and sheared circle at the angle with cosine c and sine g"""
    return R * (a * c - s * (b * g)), R * (b * g)


def vertex(a, b, s, r, c1, g1):
    """2 theta is the angle of (den, num) with length r"""
    return [c1 * c1 + g1 * g1 == 1, r >= 0, r * (c1 * c1 - g1 * g1) == (s * s + 1) * (b * b) - a * a, 2 * r * c1 * g1 == 2 * a * b * s]


def size(a, b, s):
    return a * a + (s * s + 1) * (b * b)


def law_times(r, x, y):
    return [x == y], r * x == r * y


def law_perpendicular(a, b, s, R, r, c1, g1):
    p, q = point(a, b, s, R, c1, g1), point(a, b, s, R, -g1, c1)
    return vertex(a, b, s, r, c1, g1), p[0] * q[0] + p[1] * q[1] == 0


def law_shortest(a, b, s, R, r, c1, g1):
    return vertex(a, b, s, r, c1, g1), 2 * sq(point(a, b, s, R, c1, g1)) == R * R * (size(a, b, s) - r)


def law_longest(a, b, s, R, r, c1, g1):
    return vertex(a, b, s, r, c1, g1), 2 * sq(point(a, b, s, R, -g1, c1)) == R * R * (size(a, b, s) + r)


def between(c1, g1, c, g):
    return (c1 * c1 - g1 * g1) * (c * c - g * g) + 4 * c1 * g1 * c * g


def law_any(a, b, s, R, r, c1, g1, c, g):
    return vertex(a, b, s, r, c1, g1) + [c * c + g * g == 1], 2 * sq(point(a, b, s, R, c, g)) == R * R * (size(a, b, s) - r * between(c1, g1, c, g))


def law_cosine(c1, g1, c, g):
    return [c1 * c1 + g1 * g1 == 1, c * c + g * g == 1], between(c1, g1, c, g) <= 1


def law_cosine2(c1, g1, c, g):
    return [c1 * c1 + g1 * g1 == 1, c * c + g * g == 1], between(c1, g1, c, g) >= -1


def law_range(vc):
    def law(R, z, r, k):
        return [r >= 0, k <= 1, k >= -1], vc.and_(R * R * (z - r * k) <= R * R * (z + r), R * R * (z - r * k) >= R * R * (z - r), R * R * (z - r) <= R * R * (z + r))
    return law


def law_on_ellipse(a, b, s, R, c, g):
    x, y = point(a, b, s, R, c, g)
    return [c * c + g * g == 1], on_ellipse(a, b, s, R, x, y)


def on_ellipse(a, b, s, R, x, y):
    """((x + s y) / a)^2 + (y / b)^2 = R^2"""
    u = x + s * y
    return b * b * (u * u) + a * a * (y * y) == R * R * (a * a) * (b * b)


def law_direction(vc):
    """a vector perpendicular to (x1, y1) = d1 (cp, sp) is along (-sp, cp)"""
    def law(x1, y1, d1, cp, sp, x2, y2, d2):
        return ([d1 > 0, d1 * cp == x1, d1 * sp == y1, cp * cp + sp * sp == 1, x1 * x2 + y1 * y2 == 0, d2 >= 0, d2 * d2 == x2 * x2 + y2 * y2],
                vc.or_(vc.and_(x2 == -d2 * sp, y2 == d2 * cp), vc.and_(x2 == d2 * sp, y2 == -d2 * cp)))
    return law


def law_positive(a, b, s, R, c, g):
    """no point of the ellipse is its centre"""
    return [a > 0, b > 0, R > 0, c * c + g * g == 1], sq(point(a, b, s, R, c, g)) > 0


def laws(vc):
    for name, law, n in [("equal factors", law_times, 3), ("the vertices are perpendicular", law_perpendicular, 7), ("shortest distance", law_shortest, 7), ("longest distance", law_longest, 7),
                         ("on the ellipse", law_on_ellipse, 6), ("away from the centre", law_positive, 6), ("range", law_range(vc), 4),
                         ("distance at any angle", law_any, 9), ("cosine", law_cosine, 4), ("cosine below", law_cosine2, 4), ("direction", law_direction(vc), 8),
                         ("same point", law_same_point, 8), ("ratio", law_ratio(vc), 3), ("degrees", law_degrees(vc), 3)]:
        vc.law(name, law, n)


def hints(vc, a, b, s, R, c=None, g=None):
    """the lemmas of the argument; -> the vertices of the argument"""
    num, den = 2 * a * b * s, (s * s + 1) * (b * b) - a * a
    th = vc.arctan2(num, den)
    h = 0.5 * th
    c1, g1 = vc.cos(h), vc.sin(h)
    r = vc.sqrt(num * num + den * den)
    A = (a, b, s, R, r, c1, g1)
    vc.math("equal factors", law_times, r, vc.cos(th), c1 * c1 - g1 * g1)
    vc.math("equal factors", law_times, r, vc.sin(th), 2 * c1 * g1)
    vc.lemma("the vertex angle", vc.and_(*vertex(a, b, s, r, c1, g1)))
    vc.math("the vertices are perpendicular", law_perpendicular, *A)
    vc.math("shortest distance", law_shortest, *A)
    vc.math("longest distance", law_longest, *A)
    for u in ((c1, g1), (-g1, c1)):
        vc.math("on the ellipse", law_on_ellipse, a, b, s, R, *u)
        vc.math("away from the centre", law_positive, a, b, s, R, *u)
    z = size(a, b, s)
    vc.math("range", law_range(vc), R, z, r, 1)
    if c is not None:
        vc.math("distance at any angle", law_any, *A, c, g)
        vc.math("cosine", law_cosine, c1, g1, c, g)
        vc.math("cosine below", law_cosine2, c1, g1, c, g)
        vc.math("range", law_range(vc), R, z, r, between(c1, g1, c, g))
    p, q = point(a, b, s, R, c1, g1), point(a, b, s, R, -g1, c1)
    return p, q


@harness(functions=PAR, runs=100, weight=4)
def disk_parameters(vc):
    """the function computing radius, inclination and tilt of a column"""
    laws(vc)
    vc.option("monomials", True)
    vc.option("sqrt_order", True)
    S, m = shallot(vc, which=())
    if not private(vc, S, "_determine_disk_parameters", 4):
        return
    n = vc.int("n", 1, small=4)
    fx, fy = vc.array("fx", (n,), nan=True, lo=None if vc.symbolic else 0.1, hi=None if vc.symbolic else 4), vc.array("fy", (n,), nan=True, lo=None if vc.symbolic else 0.1, hi=None if vc.symbolic else 4)
    vc.assume_all((n,), lambda k: vc.and_(vc.or_(vc.isnan(vc.at(fx, k)), vc.at(fx, k) > 0), vc.or_(vc.isnan(vc.at(fy, k)), vc.at(fy, k) > 0)))
    s, R = vc.real("shear", None if vc.symbolic else -3, None if vc.symbolic else 3), vc.real("R", 0.5, None if vc.symbolic else 4)
    fx0, fy0 = vc.copy_array(fx), vc.copy_array(fy)
    out = S._determine_disk_parameters(fx, fy, s, R)
    vc.check("three arrays of the same length", vc.length(out) == 3 and vc.and_(*[vc.shape_is(o, (n,)) for o in out]))
    radius, inclination, tilt = out

    def nan(k):
        a, b = vc.at(fx0, k), vc.at(fy0, k)
        x = vc.or_(vc.isnan(a), vc.isnan(b))
        if vc.symbolic and not vc.branch(x):
            p, q = hints(vc, a, b, s, R)
            d1, d2 = vc.sqrt(sq(p)), vc.sqrt(sq(q))
            vc.lemma("the order of the distances", vc.and_(d1 <= d2, d1 > 0))
            vc.lemma("the radius", vc.at(radius, k) == d2)
            ci = vc.cos(vc.deg2rad(vc.at(inclination, k)))
            vc.lemma("the inclination", ci * d2 == d1)
            vc.math("ratio", law_ratio(vc), ci, d2, d1)
        vc.check("NaN exactly for invalid stretch factors", vc.and_(*[vc.iff(vc.isnan(vc.at(o, k)), x) for o in out]))
    vc.forall("invalid", (n,), nan)

    def cell(k):
        a, b = vc.at(fx0, k), vc.at(fy0, k)
        vc.assume(vc.not_(vc.or_(vc.isnan(a), vc.isnan(b))))
        ellipse(vc, a, b, s, R, vc.at(radius, k), vc.at(inclination, k), vc.at(tilt, k))
    vc.forall("ellipse", (n,), cell)
    same_array(vc, fx, fx0, "the stretch factors stay (fx)")
    same_array(vc, fy, fy0, "the stretch factors stay (fy)")


def law_same_point(a, b, s, R, x, y, u, v):
    return [x == u, y == v, on_ellipse(a, b, s, R, u, v)], on_ellipse(a, b, s, R, x, y)


def law_ratio(vc):
    def law(q, r, d):
        return [q * r == d, 0 < d, d <= r], vc.and_(0 < q, q <= 1)
    return law


def law_degrees(vc):
    def law(i, pi, th):
        return [i * pi == 180 * th, pi > 0, th >= 0, th <= pi / 2], vc.and_(i >= 0, i <= 90)
    return law


def ellipse(vc, a, b, s, R, r, i, t):
    """r, i and t are the radius, inclination and tilt of the ellipse with the
    stretch factors a and b, the shear s and the circle radius R"""
    if not vc.symbolic:
        return numeric(vc, a, b, s, R, r, i, t)
    ci = vc.cos(vc.deg2rad(i))
    ct, st = vc.cos(vc.deg2rad(t)), vc.sin(vc.deg2rad(t))
    which = vc.choice("statement", ["largest", "attained", "inclination"])
    c, g = None, None
    if which == "largest":
        c, g = vc.fresh_real("c"), vc.fresh_real("g")
        vc.assume(c * c + g * g == 1)
    p, q = hints(vc, a, b, s, R, c, g)
    d1, d2 = vc.sqrt(sq(p)), vc.sqrt(sq(q))
    vc.lemma("the order of the distances", vc.and_(d1 <= d2, d1 > 0))
    vc.lemma("the radius", r == d2)
    if which == "largest":
        x = point(a, b, s, R, c, g)
        vc.check("no point is farther than the radius", sq(x) <= d2 * d2)
        vc.check("no point is nearer than the smaller axis", sq(x) >= d1 * d1)
        return
    vc.lemma("the inclination", ci * d2 == d1)
    vc.math("ratio", law_ratio(vc), ci, d2, d1)
    if which == "inclination":
        vc.math("degrees", law_degrees(vc), i, vc.pi, vc.deg2rad(i))
        vc.check("the inclination lies in [0, 90]", vc.and_(i >= 0, i <= 90))
        vc.check("the radius is positive", r > 0)
        return
    f = vc.arctan2(p[1], p[0])
    cp, sp = vc.cos(f), vc.sin(f)
    vc.lemma("the direction of a vertex", vc.and_(d1 * cp == p[0], d1 * sp == p[1], cp * cp + sp * sp == 1))
    vc.math("direction", law_direction(vc), p[0], p[1], d1, cp, sp, q[0], q[1], d2)
    vc.lemma("the directions of the other vertex", vc.or_(vc.and_(q[0] == -d2 * sp, q[1] == d2 * cp), vc.and_(q[0] == d2 * sp, q[1] == -d2 * cp)))
    vc.lemma("the tilt", vc.or_(vc.and_(ct == -sp, st == cp), vc.and_(d1 == d2, ct == cp, st == sp)))
    for d in (d1, d2):
        for x, y in ((ct, -sp), (st, cp), (ct, cp), (st, sp)):
            vc.math("equal factors", law_times, d, x, y)
            vc.math("equal factors", law_times, d, -x, -y)
    turned = vc.and_(p[0] == d1 * st, p[1] == -d1 * ct)
    vc.lemma("the direction of the tilt (one vertex)", vc.or_(turned, vc.and_(d1 == d2, p[0] == d1 * ct, p[1] == d1 * st)))
    vc.lemma("the direction of the tilt", vc.or_(vc.and_(turned, vc.or_(vc.and_(q[0] == d2 * ct, q[1] == d2 * st), vc.and_(q[0] == -d2 * ct, q[1] == -d2 * st))),
                                                 vc.and_(d1 == d2, p[0] == d1 * ct, p[1] == d1 * st)))
    for d, x, y in ((d2, ct, st), (d1, st, -ct)):
        for v in (p, q):
            for k in (1, -1):
                vc.math("same point", law_same_point, a, b, s, R, d * x, d * y, k * v[0], k * v[1])
    vc.check("the radius is reached in the direction of the tilt", on_ellipse(a, b, s, R, d2 * ct, d2 * st))
    vc.check("the smallest distance is the cosine of the inclination times the radius", on_ellipse(a, b, s, R, d1 * st, -d1 * ct))


def numeric(vc, a, b, s, R, r, i, t):
    import numpy as np
    M = R * np.array([[a, -s * b], [0.0, b]])
    U, d, _ = np.linalg.svd(M)
    vc.check("disk radius", vc.eq(r, d[0], 1e-6))
    c = np.cos(np.deg2rad(i))
    vc.check("inclination in [0, 90]", -1e-9 <= i <= 90 + 1e-9)
    vc.check("cosine of the inclination", abs(c - d[1] / d[0]) < 1e-6)
    if d[0] - d[1] > 1e-6 * d[0]:
        v = np.array([np.cos(np.deg2rad(t)), np.sin(np.deg2rad(t))])
        # the distance in the direction of the tilt
        w = np.linalg.solve(M, v)
        vc.check("tilt", abs(1 / np.linalg.norm(w) - d[0]) < 1e-4 * (d[0] - d[1]) + 1e-11 * d[0])


@harness(functions=PAR, sym=False, runs=150, weight=1)
def extremes(vc):
    """(concrete) nearly circular, nearly unsheared, flat and tall ellipses,
    among others in one column"""
    import numpy as np
    S, m = shallot(vc, which=())
    if not private(vc, S, "_determine_disk_parameters", 4):
        return
    n = vc.int("n", 1, 5)
    size = lambda p, lo, hi: vc.choice(p + " sign", [1, -1]) * 10 ** vc.real(p, lo, hi)
    s = vc.choice("shear", [0.0, size("small", -5, -1), size("any", -1, 1)])
    a = [10 ** vc.real(f"a{k}", -2, 2) for k in range(n)]
    b = []
    for k in range(n):
        near = a[k] * (1 + size(f"near{k}", -5, -1))
        b.append(vc.choice(f"b{k}", [near, 10 ** vc.real(f"tall{k}", -2, 2), near / (s * s + 1) ** 0.5, float("nan")]))
    R = vc.real("R", 0.5, 4)
    out = S._determine_disk_parameters(np.array(a), np.array(b), s, R)
    for k in range(n):
        v = [o[k] for o in out]
        if np.isnan(b[k]):
            vc.check("NaN for invalid stretch factors", all(np.isnan(z) for z in v))
        else:
            numeric(vc, a[k], b[k], s, R, *v)


@harness(functions=PAR + [S_ + "_build_grid"], sym=False, runs=40, weight=1)
def of_the_grid(vc):
    """(concrete) every cell of a built grid"""
    import numpy as np
    S, m = shallot(vc, which=(), data=False, num=vc.int("num", 20, 60), extend=vc.choice("extended", [False, True]))
    dy, dx, _ = S.parameters.get_vectors()
    for i in vc.indices(m["shape"]):
        y, x = [z if abs(z) > 1e-9 else 0.0 for z in (float(dy.ravel()[i[0]]), float(dx.ravel()[i[1]]))]
        a, b = [float(getattr(S, q).data[i]) for q in ("fx_map", "fy_map")]
        v = [float(getattr(S, q).data[i]) for q in ("disk_radius", "inclination", "tilt")]
        if np.isnan(a) or np.isnan(b) or y == 0 and x != 0:
            vc.check("NaN without stretch factors", all(np.isnan(z) for z in v))
            continue
        numeric(vc, a, b, -x / y if y else 0.0, float(np.hypot(0.5, y)), *v)

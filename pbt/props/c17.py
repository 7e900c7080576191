"""C17 Line utilities agree with exact plane geometry."""
import copy
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib import PathUtilities as PU


def cross(o, a, b):
    return (F(a[0]) - F(o[0])) * (F(b[1]) - F(o[1])) - (F(a[1]) - F(o[1])) * (F(b[0]) - F(o[0]))


def within(p, a, b):
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def on_segment(p, a, b):
    return cross(a, b, p) == 0 and within(p, a, b)


def meet(a, b, c, d):
    """Exact common point of the infinite lines, or None if parallel."""
    ax, ay, bx, by, cx, cy, dx, dy = (F(v) for p in (a, b, c, d) for v in p)
    k = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)
    if k == 0:
        return None
    t = ((cx - ax) * (dy - cy) - (cy - ay) * (dx - cx)) / k
    return (ax + t * (bx - ax), ay + t * (by - ay))


def c_chord(case):
    ps = geom.tup(case["p"])
    arg = [complex(*p) for p in ps] if case["complex"] else list(ps)
    a0 = list(arg)
    (x0, y0), (x1, y1) = ps[0], ps[-1]
    dx, dy = F(x1) - F(x0), F(y1) - F(y0)
    sc = max(1e-300, abs(x0), abs(y0), abs(x1), abs(y1))
    t = 1e-15 * 4 * sc
    # rounding of the coordinate differences matters for angles of short chords
    h = math.hypot(float(dx), float(dy))
    rel = 1e-13 + (4e-16 * sc / h if h else 0)
    require(tuple(num(v) for v in seq(PU.endPoints(arg), "endPoints", 4)) == (x0, y0, x1, y1), "endPoints(%r) is %r", ps, PU.endPoints(arg))
    g = point(PU.getDeltas(arg), "getDeltas")
    require(pclose(g, (float(dx), float(dy)), t), "getDeltas(%r) is %r", ps, g)
    require(close(num(PU.length(arg)), h, 2 * t + 1e-15 * h), "length(%r) is %r, expected %r", ps, PU.length(arg), h)
    require(pclose(point(PU.midpoint(arg)), (float((F(x0) + F(x1)) / 2), float((F(y0) + F(y1)) / 2)), t), "midpoint(%r) is %r", ps, PU.midpoint(arg))
    s = PU.slope(arg)
    if dx == 0:
        require(s == math.inf, "slope(%r) is %r, expected inf", ps, s)
    else:
        w = float(dy / dx)
        e = abs(w) * (1e-14 + 4e-16 * sc / abs(float(dx))) + 4e-16 * sc / abs(float(dx))
        require(close(num(s), w, e), "slope(%r) is %r, expected %r", ps, s, w)
    if h > 0:
        r = num(PU.rawSlopeAngle(arg))
        w = math.degrees(math.atan2(float(dy), float(dx)))
        # the angle is defined up to full turns
        require(abs(math.remainder(r - w, 360)) <= 60 * rel * 4, "rawSlopeAngle(%r) is %r, expected %r", ps, r, w)
        require(-180 <= r <= 180, "rawSlopeAngle(%r) is %r", ps, r)
        r = num(PU.slopeAngle(arg))
        w = math.degrees(math.atan2(abs(float(dx)), abs(float(dy))))
        require(close(r, w, 60 * rel * 4), "slopeAngle(%r) is %r, expected %r", ps, r, w)
    line = len(ps) == 2
    for f, w in ((PU.isVerticalLine, line and dx == 0), (PU.isHorizontalLine, line and dy == 0), (PU.isDiagonalLine, line and dx != 0 and dy != 0)):
        require(bool(f(arg)) == w, "%s(%r) is %r", f.__name__, ps, f(arg))
    require(arg == a0, "the segment was modified")
    return "*%s%s" % ("line" if line else "curve", " vertical" if dx == 0 else " horizontal" if dy == 0 else "")


def exact_intersection(l1, l2, what):
    (a, b), (c, d) = l1, l2
    got = PU.intersectionPoint(l1, l2)
    m = meet(a, b, c, d)
    if m is None or a == b or c == d:
        require(got is None, "intersectionPoint(%r, %r) is %r although the lines are parallel", l1, l2, got)
        return "*parallel"
    if not (within(m, a, b) and within(m, c, d)):
        require(got is None, "intersectionPoint(%r, %r) is %r although the lines do not meet", l1, l2, got)
        return "*apart"
    require(got is not None, "intersectionPoint(%r, %r) is None, both contain %r", l1, l2, geom.fr and (float(m[0]), float(m[1])))
    sc = max(1, *(abs(v) for p in (a, b, c, d) for v in p))
    h = math.hypot(b[0] - a[0], b[1] - a[1]) * math.hypot(d[0] - c[0], d[1] - c[1])
    k = abs(float((F(b[0]) - F(a[0])) * (F(d[1]) - F(c[1])) - (F(b[1]) - F(a[1])) * (F(d[0]) - F(c[0]))))
    tol = 1e-14 * sc * max(1, h / k) * 4 + 1e-15 * sc ** 3 / k
    require(pclose(point(got), (float(m[0]), float(m[1])), tol), "intersectionPoint(%r, %r) is %r, expected %r", l1, l2, got, (float(m[0]), float(m[1])))
    return "*at an end" if m in ((a[0], a[1]), (b[0], b[1]), (c[0], c[1]), (d[0], d[1])) else "*crossing"


def c_meet_exact(case):
    """integers and halves: the decision is exact"""
    q = geom.tup(case["q"])
    l1, l2 = [q[0], q[1]], [q[2], q[3]]
    lab = []
    for x, y in ((l1, l2), (l2, l1), (l1[::-1], l2)):
        lab.append(exact_intersection(x, y, "exact"))
    return lab[0]


def c_meet_built(case):
    """lines built around a common lattice point, which may be an end of either"""
    x, y = case["x"]
    (ux, uy), (vx, vy) = case["u"], case["v"]
    i, j, k, l = case["n"]
    f = case["half"]
    def P(dx, dy, m):
        return ((x + dx * m) / 2, (y + dy * m) / 2) if f else (x + dx * m, y + dy * m)
    l1, l2 = [P(ux, uy, i), P(ux, uy, j)], [P(vx, vy, k), P(vx, vy, l)]
    if l1[0] == l1[1] or l2[0] == l2[1]:
        return "point"
    return exact_intersection(l1, l2, "built")


def c_meet_float(case):
    """arbitrary floats: proper crossings and clear misses, with a margin"""
    a, b = geom.tup(case["l"])
    r, s = case["r"], case["s"]
    # the second line passes the point at r along the first, which lies at s along the second
    x = (a[0] + (b[0] - a[0]) * r, a[1] + (b[1] - a[1]) * r)
    v = case["v"]
    L = math.hypot(*v)
    h = math.hypot(b[0] - a[0], b[1] - a[1])
    if L == 0 or h == 0:
        return "point"
    sc = max(abs(t) for p in (a, b, x) for t in p) + L
    k = abs((b[0] - a[0]) * v[1] - (b[1] - a[1]) * v[0])
    if k < 1e-3 * h * L or min(h, L) < 1e-4 * sc:
        return "nearly parallel or short"
    c, d = (x[0] - v[0] * s, x[1] - v[1] * s), (x[0] + v[0] * (1 - s), x[1] + v[1] * (1 - s))
    if case["axis"]:
        # axis-parallel lines as outlines have them: exactly equal coordinates
        if abs(v[0]) < abs(v[1]):
            d = (c[0], d[1])
        else:
            d = (d[0], c[1])
        v = (d[0] - c[0], d[1] - c[1])
    m = meet(a, b, c, d)
    if m is None:
        return "parallel"
    vv = (b[0] - a[0], b[1] - a[1])
    tr = float((m[0] - F(a[0])) * F(vv[0]) + (m[1] - F(a[1])) * F(vv[1])) / (vv[0] ** 2 + vv[1] ** 2)
    ts = float((m[0] - F(c[0])) * F(v[0]) + (m[1] - F(c[1])) * F(v[1])) / (v[0] ** 2 + v[1] ** 2)
    inside = all(1e-4 <= t <= 1 - 1e-4 for t in (tr, ts))
    outside = any(t <= -1e-4 or t >= 1 + 1e-4 for t in (tr, ts))
    lab = "axis parallel " if a[0] == b[0] or a[1] == b[1] or c[0] == d[0] or c[1] == d[1] else ""
    for l1, l2 in (([a, b], [c, d]), ([c, d], [a, b]), ([b, a], [c, d])):
        got = PU.intersectionPoint(l1, l2)
        if inside:
            require(got is not None, "intersectionPoint(%r, %r) is None, they cross at %r", l1, l2, (float(m[0]), float(m[1])))
            tol = 1e-12 * sc * h * L / k + 1e-14 * sc ** 3 / k
            require(pclose(point(got), (float(m[0]), float(m[1])), tol), "intersectionPoint(%r, %r) is %r, expected %r", l1, l2, got, (float(m[0]), float(m[1])))
        elif outside:
            require(got is None, "intersectionPoint(%r, %r) is %r, but one ends before reaching the other", l1, l2, got)
    return "*%scrossing" % lab if inside else "*%sapart" % lab if outside else "marginal"


def c_on_line(case):
    """pointOnLine on integers and halves, mostly points on or right beside the line"""
    x, y = case["x"]
    ux, uy = case["u"]
    f = 2 if case["half"] else 1
    n, k, (ex, ey) = case["n"], case["k"], case["e"]
    a, b = (x / f, y / f), ((x + ux * n) / f, (y + uy * n) / f)
    p = ((x + ux * k + ex) / f, (y + uy * k + ey) / f)
    if f == 1:
        a, b, p = tuple(map(int, a)), tuple(map(int, b)), tuple(map(int, p))
    w = on_segment(p, a, b)
    for l in ([a, b], [b, a], (a, b)):
        g = PU.pointOnLine(p, l)
        require(bool(g) == w, "pointOnLine(%r, %r) is %r", p, l, g)
        for e in (a, b):
            require(bool(PU.pointOnLine(e, l)), "pointOnLine(%r, %r) is false for an end point", e, l)
    kind = "point" if a == b else "vertical" if a[0] == b[0] else "horizontal" if a[1] == b[1] else "diagonal"
    return "*%s %s" % ("on" if w else "off", kind)


def c_neighbour(case):
    """pointOnLine on lattice points right beside long lines"""
    x, y = case["x"]
    p, q = case["d"]
    g = math.gcd(p, q)
    if g == 0:
        return "point"
    p, q = p // g, q // g
    # r * q - s * p == 1
    r = pow(q, -1, abs(p)) if abs(p) > 1 else 0
    s = (r * q - 1) // p if p else 0
    if p == 0:
        r, s = 1, 0
    k = case["k"]
    lab = []
    a, b = (x, y), (x + p * k, y + q * k)
    for m in range(k):
        for e in (1, -1):
            z = (x + m * p + e * r, y + m * q + e * s)
            require(bool(PU.pointOnLine(z, [a, b])) == on_segment(z, a, b), "pointOnLine(%r, %r) is %r", z, [a, b], PU.pointOnLine(z, [a, b]))
            lab.append("*beside" if within(z, a, b) else "outside the box")
        z = (x + m * p, y + m * q)
        require(bool(PU.pointOnLine(z, [a, b])), "pointOnLine(%r, %r) is false, the point is on the line", z, [a, b])
    return lab


def c_ends(case):
    """end points lie on their line, points well away from it do not, whatever the coordinates"""
    a, b = geom.tup(case["l"])
    for l in ([a, b], [b, a]):
        for e in (a, b):
            require(bool(PU.pointOnLine(e, l)), "pointOnLine(%r, %r) is false for an end point", e, l)
    h = math.hypot(b[0] - a[0], b[1] - a[1])
    sc = max(1, abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))
    if h > 1e-3 * sc:
        r, d = case["r"], case["d"]
        q = (a[0] + (b[0] - a[0]) * r - d * (b[1] - a[1]), a[1] + (b[1] - a[1]) * r + d * (b[0] - a[0]))
        if abs(d) > 1e-3:
            require(not PU.pointOnLine(q, [a, b]), "pointOnLine(%r, %r) is true", q, [a, b])
    return "*vertical" if a[0] == b[0] else "*"


def c_misc(case):
    a, b = case["a"], case["b"]
    require(tuple(PU.minMax(a, b)) == (min(a, b), max(a, b)), "minMax(%r, %r) is %r", a, b, PU.minMax(a, b))
    C = [[geom.tup(s) for s in c] for c in case["c"]]
    C0 = copy.deepcopy(C)
    f = PU.flatten(C)
    require(list(f) == [s for c in C for s in c], "flatten(%r) is %r", C, f)
    require(C == C0, "flatten modified the contours")
    u = case["upem"]
    w = a * 1000 / u
    require(close(num(PU.toMicros(a, u)), w, 1e-12 * abs(w)), "toMicros(%r, %r) is %r, expected %r", a, u, PU.toMicros(a, u), w)
    z = PU.pointXY(complex(a, b))
    require(tuple(z) == (a, b) and tuple(PU.pointXY((a, b))) == (a, b), "pointXY(%r) is %r", complex(a, b), z)
    return "*"


small_dir = st.tuples(gen.ints(-4, 4), gen.ints(-4, 4)).map(list)
wide_dir = st.tuples(gen.ints(-90, 90), gen.ints(-90, 90)).map(list)
direction = st.one_of(small_dir, wide_dir)
long_dir = st.tuples(gen.ints(-3000, 3000) | gen.ints(-30000, 30000), gen.ints(-3, 3) | gen.ints(-3000, 3000), st.booleans()).map(lambda t: [t[1], t[0]] if t[2] else [t[0], t[1]])
lattice = st.one_of(gen.pt("small"), gen.pt("font"))
unit_or_near = st.one_of(gen.ints(-30, 130).map(lambda n: n / 100), gen.ints(-3 * 10 ** 8, 13 * 10 ** 8).map(lambda n: n / 1e9))


@st.composite
def exact_quad(draw):
    f = draw(st.sampled_from(["tiny", "small", "font", "half"]))
    q = [draw(gen.pt(f)) for _ in range(4)]
    k = draw(gen.ints(0, 6))
    if k == 0:
        q[1][0] = q[0][0]
    elif k == 1:
        q[3][1] = q[2][1]
    elif k == 2:
        q[1][0] = q[0][0]
        q[3][1] = q[2][1]
    elif k == 3:
        q[2] = list(q[draw(gen.ints(0, 1))])
    return q


@st.composite
def float_line(draw):
    l = draw(gen.pts(2))
    k = draw(gen.ints(0, 4))
    if k == 0:
        l[1][0] = l[0][0]
    elif k == 1:
        l[1][1] = l[0][1]
    return l


CLAUSES = [
    Clause("chord", st.fixed_dictionaries(dict(p=gen.pts_range(2, 5).flatmap(lambda p: st.sampled_from([p, p, [p[0]] + p[1:-1] + [[p[0][0], p[-1][1]]], [p[0]] + p[1:-1] + [[p[-1][0], p[0][1]]]])), complex=st.booleans())),
           c_chord, quick=5100, thorough=40000, rule="every case"),
    Clause("meet-exact", st.fixed_dictionaries(dict(q=exact_quad())), c_meet_exact, quick=5100, thorough=40000, rule="every case (relation label)"),
    Clause("meet-built", st.fixed_dictionaries(dict(x=lattice, u=direction, v=direction, n=st.lists(gen.ints(-5, 5), min_size=4, max_size=4), half=st.booleans())), c_meet_built, quick=5100, thorough=40000, rule="both lines have an extent"),
    Clause("meet-float", st.fixed_dictionaries(dict(l=float_line(), r=unit_or_near, s=unit_or_near, v=gen.pt("font") | gen.pt("noisy") | gen.pt("small") | st.tuples(gen.noisy, st.just(0)).map(list) | st.tuples(st.just(0), gen.noisy).map(list), axis=st.booleans())),
           c_meet_float, quick=6800, thorough=60000, rule="well-conditioned, with a margin of 1e-4 at the ends"),
    Clause("on-line", st.fixed_dictionaries(dict(x=lattice, u=direction | long_dir, n=gen.ints(-6, 6), k=gen.ints(-7, 7), e=st.sampled_from([[0, 0], [0, 0], [0, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [2, 1]]), half=st.booleans())),
           c_on_line, quick=8500, thorough=60000, rule="every case (relation label)"),
    Clause("neighbour", st.fixed_dictionaries(dict(x=gen.pt("font"), d=st.one_of(*[gen.pt(f) for f in ("small", "font", "int16", "big")], st.tuples(gen.ints(-2 ** 24, 2 ** 24), gen.ints(-2 ** 24, 2 ** 24)).map(list)), k=gen.ints(1, 4))),
           c_neighbour, quick=2050, thorough=20000, rule="a lattice point beside the line lies within its bounds"),
    Clause("ends", st.fixed_dictionaries(dict(l=float_line(), r=unit_or_near, d=unit_or_near)), c_ends, quick=3400, thorough=30000, rule="every case"),
    Clause("misc", st.fixed_dictionaries(dict(a=gen.font | gen.noisy, b=gen.font | gen.noisy, c=st.lists(gen.contour(0, 3), max_size=4), upem=st.sampled_from([1000, 2048, 1024, 256, 4096, 1, 3]))), c_misc, quick=1350, thorough=10000, rule="every case"),
    Clause("large", st.fixed_dictionaries(dict(a=gen.font, b=gen.font, c=gen.seeded_log(gen.rnd_contours, 8, 600), upem=st.just(1000))), c_misc, quick=150, thorough=2000, rule="every case"),
]

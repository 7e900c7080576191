"""C12 Offset curves run parallel at the requested distance."""
import functools
import math
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def unit(v):
    h = math.hypot(*v)
    return (v[0] / h, v[1] / h)


def end_dirs(ps, eps=1e-9, sc=None):
    """Direction of travel at both ends, and whether the control point there is retracted."""
    out = []
    for q, s in ((ps, 1), (ps[::-1], -1)):
        e = eps * (sc or geom.scale_of(ps))
        for i, a in enumerate(q[1:]):
            v = (s * (a[0] - q[0][0]), s * (a[1] - q[0][1]))
            if math.hypot(*v) > e:
                out.append((unit(v), i > 0, math.hypot(*v)))
                break
        else:
            return None
    return out


def left(v):
    return (-v[1], v[0])


def nearly_straight(ps):
    c = unit((ps[-1][0] - ps[0][0], ps[-1][1] - ps[0][1])) if ps[0] != ps[-1] else (1, 0)
    return all(abs((p[0] - ps[0][0]) * c[1] - (p[1] - ps[0][1]) * c[0]) < 2e-4 for p in ps)


def check_scaled(ps, got, d0, d1, sc, what, tangents=True):
    """End points at the distances along the normals; tangents parallel."""
    ends = end_dirs(ps)
    # the library takes curves within 0.0001 of their chord for straight and translates them
    straight = nearly_straight(ps)
    slack = math.hypot(ends[0][0][0] - ends[1][0][0], ends[0][0][1] - ends[1][0][1]) if straight else 0
    for k, (d, (u, retracted, h)) in enumerate(zip((d0, d1), ends)):
        n = left(u)
        p = ps[-k]
        want = (p[0] + n[0] * d, p[1] + n[1] * d)
        tol = 1e-9 * sc + abs(d) * min(2.0, 1e-12 * sc / h + slack)
        require(pclose(got[-k], want, tol), "%s of %r by %r ends at %r, the point at distance %r along the normal is %r", what, ps, (d0, d1), got[-k], d, want)
    # (a far control point at the other end says nothing about the rounding at this one)
    g = end_dirs(got, sc=max(sc, abs(d0), abs(d1)))
    if not tangents or straight or g is None:
        return
    # the one inner control point of a quadratic is put on the tangent at its start
    for k in (0, 1) if len(ps) > 3 else (0,):
        (u, retracted, h), (w, lost, h2) = ends[k], g[k]
        if lost and not retracted:
            # legs scale by 1 + d / r, where the normals at the ends meet at distance r
            n, m, d = left(u), left(ends[1 - k][0]), (d0, d1)[k]
            x = n[0] * m[1] - n[1] * m[0]
            v = (ps[-k][0] - ps[k - 1][0], ps[-k][1] - ps[k - 1][1])
            r = (v[0] * m[1] - v[1] * m[0]) / x if x else math.inf
            require(abs(r + d) <= 1e-6 * (sc + abs(r)), "%s of %r by %r = %r: the control point at its %s has become its end", what, ps, d, got, ("start", "end")[k])
            continue
        if retracted or h < 1e-3 * sc or h2 < 1e-3 * sc:
            continue
        require(abs(u[0] * w[1] - u[1] * w[0]) < 1e-5, "%s of %r by %r = %r: the tangent at its %s is %r, not parallel to %r", what, ps, d0, got, ("start", "end")[k], w, u)


def curvature_radius(ps, n=60):
    m = len(ps) - 1
    h = [(m * (b[0] - a[0]), m * (b[1] - a[1])) for a, b in zip(ps, ps[1:])]
    h2 = [((m - 1) * (b[0] - a[0]), (m - 1) * (b[1] - a[1])) for a, b in zip(h, h[1:])]
    r = math.inf
    for k in range(n + 1):
        t = k / n
        a, b = geom.bernf(h, t), geom.bernf(h2, t)
        s = math.hypot(*a)
        x = abs(a[0] * b[1] - a[1] * b[0])
        r = min(r, s ** 3 / x if x > 0 else math.inf)
    return r


def distance_near(ps, q, t):
    """Distance from q to the curve near parameter t, signed to the left, and the foot's normal."""
    lo, hi = max(0.0, t - 0.25), min(1.0, t + 0.25)

    def f(u):
        x, y = geom.bernf(ps, u)
        return math.hypot(x - q[0], y - q[1])

    for _ in range(45):
        a, b = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        if f(a) < f(b):
            hi = b
        else:
            lo = a
    u = (lo + hi) / 2
    x, y = geom.bernf(ps, u)
    m = len(ps) - 1
    h = geom.bernf([(b[0] - a[0], b[1] - a[1]) for a, b in zip(ps, ps[1:])], u)
    return math.copysign(f(u), h[0] * (q[1] - y) - h[1] * (q[0] - x))


def check_parallel(ps, got, d, what):
    # measured on random gentle pieces: 8% / 3% (quadratic / cubic) when no leg is more than
    # twice as long as another, 22% / 7% up to five times, worse beyond
    legs = [math.hypot(a[0] - b[0], a[1] - b[1]) for a, b in zip(ps, ps[1:])]
    part = 0.15 if max(legs) <= 2 * min(legs) else 0.4 if max(legs) <= 5 * min(legs) else 0.8
    for k in range(1, 8):
        t = k / 8
        x = distance_near(ps, geom.bernf(got, t), t)
        require(abs(x - d) <= part * abs(d) + 1e-9 * geom.scale_of(ps), "%s of %r by %r passes at distance %r (near t = %r)", what, ps, d, x, t)


def c_offset(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    R = min(curvature_radius(ps), 1e6)
    d = case["f"] * R
    pieces = [points(p.controlPoints) for p in seq(b.reduce())]
    offs = [points(o.controlPoints, "offset curve") for o in seq(b.offset(d), "offset(%r)" % d)]
    require([tuple(p) for p in b.controlPoints] == ps, "offset altered the curve")
    sc = geom.scale_of(ps) + abs(d)
    require(len(offs) == len(pieces), "offset(%r) of %r has %d curves, reduce() has %d", d, ps, len(offs), len(pieces))
    require(pieces, "no pieces")
    for p, o in zip(pieces, offs):
        require(len(o) == len(p), "offset changes the order of a piece")
        if geom.extent(p) < 1e-4 * sc:
            continue
        check_scaled(p, o, d, d, sc, "offset piece")
        check_parallel(p, o, d, "offset piece")
    for p, p2, o, q in zip(pieces, pieces[1:], offs, offs[1:]):
        # pieces so short that they count as straight are only translated
        bent = not nearly_straight(p) and not nearly_straight(p2)
        require(pclose(o[-1], q[0], 1e-6 * sc + (0 if bent else 0.05 * abs(d))), "the offset curves of %r by %r do not join: %r, %r", ps, d, o, q)
    return "*%s, %d" % ("left" if d > 0 else "right", len(ps) - 1)


def c_straight(case):
    """Straight curves are translated along their normal."""
    a, e = geom.tup(case["ends"])
    if math.hypot(e[0] - a[0], e[1] - a[1]) < 1e-3:
        return "point"
    ps = [a] + [(a[0] + (e[0] - a[0]) * r, a[1] + (e[1] - a[1]) * r) for r in case["r"]] + [e]
    if len(ps) > 2 and (ps[1][0] - ps[0][0]) * (e[0] - a[0]) + (ps[1][1] - ps[0][1]) * (e[1] - a[1]) < 0:
        return "starts backwards"
    # straight within the library's own resolution only
    sc = geom.scale_of(ps)
    if sc > 1e5:
        return "too large"
    d = case["d"]
    r = seq(Bezier(list(ps)).offset(d), "offset", 1)
    got = points(r[0].controlPoints, "offset of a straight curve", len(ps))
    n = left(unit((e[0] - a[0], e[1] - a[1])))
    for p, q in zip(ps, got):
        want = (p[0] + n[0] * d, p[1] + n[1] * d)
        h = math.hypot(e[0] - a[0], e[1] - a[1])
        require(pclose(q, want, 1e-11 * (sc + abs(d)) + abs(d) * min(1, 1e-11 * sc / h)), "offset(%r) of the straight curve %r is %r, expected %r at %r", d, ps, got, want, p)
    return "*straight, order %d" % (len(ps) - 1)


def c_any(case):
    """Any curve with pieces: end points and tangents of every offset piece."""
    ps = geom.tup(case["p"])
    if geom.extent(ps) == 0:
        return "point"
    sc = geom.scale_of(ps)
    d = case["f"] * geom.extent(ps)
    b = Bezier(list(ps))
    pieces = [points(p.controlPoints) for p in b.reduce()]
    # parallel end tangents have no scaling origin: a stated error of the library
    lab = []
    ok = True
    for p in pieces:
        e = end_dirs(p, 1e-6)
        if e is None or abs(e[0][0][0] * e[1][0][1] - e[0][0][1] * e[1][0][0]) < 1e-4:
            ok = False
    try:
        offs = [points(o.controlPoints, "offset curve") for o in seq(b.offset(d), "offset(%r)" % d)]
    except (ValueError, ZeroDivisionError):
        require(not ok, "offset(%r) of %r fails although no piece has parallel end tangents", d, ps)
        return "parallel end tangents"
    if len(offs) == 1 and len(pieces) != 1:
        return "straight"
    require(len(offs) == len(pieces), "offset(%r) of %r has %d curves, reduce() has %d", d, ps, len(offs), len(pieces))
    for p, o in zip(pieces, offs):
        e = end_dirs(p, 1e-6)
        if e is None or geom.extent(p) < 1e-3 * sc:
            continue
        # an end whose control point is retracted but for rounding has a random derivative
        if any(0 < math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-7 * geom.scale_of(p) for a, b in ((p[0], p[1]), (p[-1], p[-2]))):
            continue
        if min(e[0][2], e[1][2]) < 1e-3 * sc or abs(e[0][0][0] * e[1][0][1] - e[0][0][1] * e[1][0][0]) < 1e-3:
            if not (e[0][1] or e[1][1]):
                continue
        check_scaled(p, o, d, d, sc + abs(d), "offset piece", tangents=abs(e[0][0][0] * e[1][0][1] - e[0][0][1] * e[1][0][0]) > 1e-3)
        lab.append("*piece" + (" with retracted end" if e[0][1] or e[1][1] else ""))
    return lab or "none"


class Distance:
    """From a to b, with a hump of k in between."""
    def __init__(self, a, b, k):
        self.a, self.b, self.k = a, b, k

    def at(self, t):
        return (self.a + (self.b - self.a) * t) * (1 + self.k * 4 * t * (1 - t))


def c_flat(case):
    """Long curves that are nearly, but not, straight."""
    L, (e1, e2), (r1, r2) = case["L"], case["e"], case["r"]
    ps = [(0.0, 0.0), (L * r1, e1), (L * r2, e2), (L, 0.0)] if case["cubic"] else [(0.0, 0.0), (L * r1, e1), (L, 0.0)]
    a = math.radians(case["angle"])
    c, s = (math.cos(a), math.sin(a)) if case["angle"] % 90 else ((1, 0), (0, 1), (-1, 0), (0, -1))[case["angle"] // 90]
    ps = [(c * x - s * y, s * x + c * y) for x, y in ps]
    d = case["f"] * L
    b = Bezier(list(ps))
    pieces = [points(p.controlPoints) for p in seq(b.reduce())]
    offs = [points(o.controlPoints, "offset curve") for o in seq(b.offset(d), "offset(%r)" % d)]
    require(len(offs) == len(pieces), "offset(%r) of %r has %d curves, reduce() has %d", d, ps, len(offs), len(pieces))
    n = 0
    for p, o in zip(pieces, offs):
        if geom.extent(p) < 1e-2 * L or nearly_straight(p):
            continue
        check_scaled(p, o, d, d, 2 * L + abs(d), "offset piece", tangents=False)
        n += 1
    return "*%d pieces" % n if n else "straight"


def c_scale(case):
    """scale() of one simple curve, by a number or by a function."""
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    ends = end_dirs(ps)
    turn = abs(ends[0][0][0] * ends[1][0][1] - ends[0][0][1] * ends[1][0][0])
    if turn < 0.03 or not b.simple():
        return "straight or not simple"
    R = min(curvature_radius(ps), 1e5)
    d0, d1 = case["f"][0] * R, case["f"][1] * R
    D = Distance(d0, d1, case["k"])
    kind = case["kind"]
    if kind == "number":
        got = points(b.scale(d0).controlPoints, "scale", len(ps))
        d1 = d0
    else:
        fn = {"lambda": lambda t: D.at(t), "method": D.at, "partial": functools.partial(lambda k, t: k.at(t), D)}[kind]
        got = points(b.scale(fn).controlPoints, "scale")
        # what it does elsewhere is of no account
        thirds = lambda t: fn(t) if abs(3 * t - round(3 * t)) < 1e-6 else 50 * (abs(d0) + abs(d1))
        other = points(Bezier(list(ps)).scale(thirds).controlPoints, "scale")
        require(len(other) == len(got) and all(pclose(p, q, 1e-9 * (geom.scale_of(ps) + abs(d0) + abs(d1))) for p, q in zip(got, other)), "scale of %r by a function with the values %r at thirds is %r, by one with the same values there %r", ps, [D.at(i / 3) for i in range(4)], got, other)
    sc = geom.scale_of(ps) + abs(d0) + abs(d1)
    legs = [math.hypot(p[0] - q[0], p[1] - q[1]) for p, q in zip(ps, ps[1:])]
    check_scaled(ps, got, d0, d1, sc, "scale by a " + kind, tangents=kind == "number")
    if kind == "number":
        check_parallel(ps, got, d0, "scale by a number")
    elif max(abs(d0), abs(d1)) * max(1, 1 + case["k"]) <= 0.3 * R and d0 * d1 > 0:
        # The control points (a quadratic is raised to a cubic first) follow f at thirds. Measured on
        # random gentle curves: within 7% when no leg is more than twice as long as another, 11% up to
        # five times, 21% beyond.
        require(len(got) == 4, "scale of a curve of order %d by a function has order %d", len(ps) - 1, len(got) - 1)
        f = [D.at(i / 3) for i in range(4)]
        m = max(map(abs, f)) * (0.14 if max(legs) <= 2 * min(legs) else 0.25 if max(legs) <= 5 * min(legs) else 0.5)
        for k in range(1, 8):
            t = k / 8
            x = distance_near(ps, geom.bernf(got, t), t)
            w = sum(math.comb(3, i) * t ** i * (1 - t) ** (3 - i) * f[i] for i in range(4))
            require(abs(x - w) <= m + 1e-9 * sc, "scale of %r by the function with the values %r at thirds passes at distance %r near t = %r, expected about %r", ps, f, x, t, w)
    return "*" + kind + (" left turn" if ends[0][0][0] * ends[1][0][1] - ends[0][0][1] * ends[1][0][0] > 0 else " right turn")


def arc(R, start, w, centre, cubic, reverse):
    """An arc of w radians as one curve."""
    k = 4 / 3 * math.tan(w / 4)
    c, s = math.cos(w), math.sin(w)
    P = [(1, 0), (1, k), (c + k * s, s - k * c), (c, s)] if cubic else [(1, 0), (1, math.tan(w / 2)), (c, s)]
    c, s = math.cos(start), math.sin(start)
    P = [(centre[0] + R * (x * c - y * s), centre[1] + R * (x * s + y * c)) for x, y in P]
    return P[::-1] if reverse else P


def c_arc(case):
    """scale() of an arc, of any size: the distance follows the values of the function at thirds."""
    R = case["m"] * 10.0 ** case["e"]
    w = math.radians(case["w"])
    ps = arc(R, math.radians(case["start"]), w, (case["c"][0] * R, case["c"][1] * R), case["cubic"], case["reverse"])
    b = Bezier(list(ps))
    if not b.simple():
        return "not simple"
    sg = case["sign"] * R
    D = Distance(case["f"][0] * sg, case["f"][1] * sg, case["k"])
    if case["number"]:
        D = Distance(case["f"][0] * sg, case["f"][0] * sg, 0)
        got = points(b.scale(D.a).controlPoints, "scale", len(ps))
    else:
        got = points(b.scale(lambda t: D.at(t)).controlPoints, "scale", 4)
    f = [D.at(i / 3) for i in range(4)]
    sc = geom.scale_of(ps) if R >= 1 else max(max(map(abs, p)) for p in ps)
    check_scaled(ps, got, f[0], f[3], sc, "scale of an arc", tangents=False)
    # measured: 1.1% of the largest distance up to 30 degrees, 2.5% up to 45
    part = max(map(abs, f)) * (0.02 if w < 0.53 else 0.04)
    for k in range(1, 12):
        t = k / 12
        x = distance_near(ps, geom.bernf(got, t), t)
        want = sum(math.comb(3, i) * t ** i * (1 - t) ** (3 - i) * f[i] for i in range(4))
        require(abs(x - want) <= part + 1e-9 * sc, "scale of the arc %r by the function with the values %r at thirds passes at distance %r near t = %r, expected about %r", ps, f, x, t, want)
    return "*%s, %s, %s" % ("number" if case["number"] else "function", "cubic" if case["cubic"] else "quadratic", "R<1" if R < 1 else "R<100" if R < 100 else "R>=100")


frac = st.one_of(gen.ints(1, 30).map(lambda n: n / 100), gen.ints(1, 30).map(lambda n: -n / 100))
gentle = st.one_of(gen.tame_curve(turn=25), gen.tame_curve(turn=40))
CLAUSES = [
    Clause("offset", st.fixed_dictionaries(dict(p=gen.tame_curve(turn=60), f=frac)), c_offset, quick=1250, thorough=12000, shards=6, rule="every case"),
    Clause("straight", st.fixed_dictionaries(dict(ends=gen.pts(2, ["small", "font", "half", "milli", "noisy"]), r=st.lists(st.integers(0, 12).map(lambda n: n / 12), max_size=2), d=st.one_of(gen.ints(-500, 500), gen.ints(-5000, 5000).map(lambda v: v / 16)))),
           c_straight, quick=5000, thorough=30000, shards=1, rule="the straight curve has a direction"),
    Clause("flat", st.fixed_dictionaries(dict(L=gen.ints(100, 40000), e=st.lists(gen.ints(1, 600).map(lambda n: n / 100), min_size=2, max_size=2), r=st.tuples(gen.ints(10, 45), gen.ints(55, 90)).map(lambda t: [t[0] / 100, t[1] / 100]),
           cubic=st.booleans(), angle=gen.ints(0, 359) | st.sampled_from([0, 90, 180, 270]), f=frac)), c_flat, quick=1500, thorough=10000, shards=2, rule="some piece is long and not straight to the library"),
    Clause("any", st.fixed_dictionaries(dict(p=gen.curve((2, 3, 3)), f=st.sampled_from([0.01, -0.01, 0.03, -0.002, 0.1, -0.1]))), c_any, quick=1750, thorough=30000, shards=4,
           rule="some piece of the curve has end tangents that are not parallel"),
    Clause("scale", st.fixed_dictionaries(dict(p=gentle, f=st.tuples(frac, frac).map(list), k=st.sampled_from([0, 0, 0.5, 1, -0.5]), kind=st.sampled_from(["number", "number", "lambda", "method", "partial"]))), c_scale, quick=3000, thorough=30000, shards=3,
           rule="a simple curve that is not straight"),
    Clause("arc", st.fixed_dictionaries(dict(m=gen.ints(100, 999).map(lambda n: n / 100), e=gen.ints(-2, 4), w=gen.ints(5, 45), start=gen.ints(0, 359), c=st.tuples(gen.ints(-9, 9), gen.ints(-9, 9)).map(list),
                                             cubic=st.booleans(), reverse=st.booleans(), sign=st.sampled_from([1, -1]), f=st.tuples(gen.ints(1, 30), gen.ints(-30, 30)).map(lambda t: [t[0] / 100, t[1] / 100]),
                                             k=st.sampled_from([0, 0, 0.5, 1, -0.5]), number=st.sampled_from([False, False, True]))), c_arc, quick=2000, thorough=15000, shards=2, rule="a simple curve"),
]

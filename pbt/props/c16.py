"""C16 Named transforms perform the geometric map they name."""
import cmath
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Transform import Transform
from PathLib import PathUtilities as PU

QUARTER = [1, 1j, -1, -1j]


def turn(deg, ccw):
    """Unit complex number of the rotation; exact for multiples of 90."""
    d = math.fmod(deg, 360)
    if d % 90 == 0:
        z = QUARTER[int(d // 90) % 4]
    else:
        z = cmath.exp(1j * math.radians(d))
    return z if ccw else complex(z).conjugate() if isinstance(z, complex) else z


def rot(p, deg, ccw, about=(0, 0)):
    z = turn(deg, ccw) * complex(p[0] - about[0], p[1] - about[1])
    return (z.real + about[0], z.imag + about[1])


def check(T, p, want, mag, what, exact=False):
    got = point(T.applyToPoint(p), what)
    if exact:
        require(got == want, "%s maps %r to %r, expected exactly %r", what, p, got, want)
    require(pclose(got, want, 2e-14 * max(1e-300, mag)), "%s maps %r to %r, expected %r", what, p, got, want)
    return got


def mag(*ps):
    return 1 + sum(abs(v) for p in ps for v in p)


def whole(*vs):
    return all(float(v) == int(v) and abs(v) <= 2 ** 20 for v in vs)


def c_rotation(case):
    deg, ps, c = case["deg"], geom.tup(case["p"]), tuple(case["c"])
    right = math.fmod(deg, 90) == 0
    for p in ps:
        m = mag(p, c)
        ex = right and whole(*p, *c)
        for ccw in (True, False):
            what = "rotation by %r %s" % (deg, "ccw" if ccw else "cw")
            check(Transform.rotation(deg, ccw), p, rot(p, deg, ccw), m, what, ex)
            T = Transform.rotationAbout(c, deg, ccw)
            check(T, p, rot(p, deg, ccw, c), m, what + " about %r" % (c,), ex)
            check(T, c, c, m, what + " about %r" % (c,), ex)
            U = Transform.rotationAbout(c, deg, not ccw)
            q = point(U.applyToPoint(T.applyToPoint(p)))
            require(pclose(q, p, 4e-14 * m), "rotation about %r by %r and back takes %r to %r", c, deg, p, q)
        check(Transform.rotation(deg), p, rot(p, deg, True), m, "rotation(%r)" % deg, ex)
        check(Transform.rotationAbout(c, deg), p, rot(p, deg, True, c), m, "rotationAbout(%r, %r)" % (c, deg), ex)
    check(Transform.rotation(), ps[0], rot(ps[0], 90, True), mag(ps[0]), "rotation()", whole(*ps[0]))
    check(Transform.rotationAbout(c), ps[0], rot(ps[0], 90, True, c), mag(ps[0], c), "rotationAbout(%r)" % (c,), whole(*ps[0], *c))
    return "*multiple of 90" if right else "*other angle"


def c_trig(case):
    deg = case["deg"]
    z = turn(deg, True)
    require(close(num(Transform.cos(deg)), z.real, 2e-15), "cos(%r) is %r", deg, Transform.cos(deg))
    require(close(num(Transform.sin(deg)), z.imag, 2e-15), "sin(%r) is %r", deg, Transform.sin(deg))
    if math.fmod(deg, 90) == 0:
        require((Transform.cos(deg), Transform.sin(deg)) == (z.real, z.imag), "cos, sin of %r are %r", deg, (Transform.cos(deg), Transform.sin(deg)))
        return "*multiple of 90"
    return "*beyond a turn" if abs(deg) > 360 else "*other"


def c_helpers(case):
    """rotate...About of PathUtilities, on points, segments, contours"""
    deg, ccw, c = case["deg"], case["ccw"], tuple(case["c"])
    C = [[geom.tup(s) for s in k] for k in case["k"]]
    args = {0: (), 1: (deg,), 2: (deg, ccw)}[case["n"]]
    d, w = (90, True, )if case["n"] == 0 else (deg, True) if case["n"] == 1 else (deg, ccw)
    want = [[[rot(p, d, w, c) for p in s] for s in k] for k in C]

    def same(got, wanted, src):
        got = points(got, "rotated segment", len(wanted))
        for g, e, p in zip(got, wanted, src):
            require(pclose(g, e, 2e-14 * mag(p, c)), "rotating %r about %r by %r: %r, expected %r", p, c, args, g, e)

    got = seq(PU.rotateContoursAbout(C, c, *args), "rotateContoursAbout", len(C))
    for g, wk, k in zip(got, want, C):
        for gs, ws, s in zip(seq(g, "contour", len(k)), wk, k):
            same(gs, ws, s)
        for gs, ws, s in zip(seq(PU.rotateContourAbout(k, c, *args), "rotateContourAbout", len(k)), wk, k):
            same(gs, ws, s)
        for s, ws in zip(k, wk):
            same(PU.rotateSegmentAbout(s, c, *args), ws, s)
            for p, e in zip(s, ws):
                same([PU.rotatePointAbout(p, c, *args)], [e], [p])
    return "*%s" % ("defaults" if case["n"] == 0 else "angle" if case["n"] == 1 else "cw" if not ccw else "ccw") if any(C) else "empty"


def c_linear(case):
    """translate, scale, shear, mirrors and the two combinations"""
    p, a, b = tuple(case["p"]), tuple(case["a"]), tuple(case["b"])
    sx, sy = case["s"]
    x, y = p
    m = mag(p, a, b)
    f = 1 + abs(sx) + abs(sy)
    check(Transform.translate(a, b), p, (x + b[0] - a[0], y + b[1] - a[1]), m, "translate(%r, %r)" % (a, b), whole(*p, *a, *b))
    check(Transform.translate(a, b), a, b, m, "translate(%r, %r)" % (a, b), whole(*a, *b))
    check(Transform.scale(sx, sy), p, (x * sx, y * sy), m * f, "scale(%r, %r)" % (sx, sy), whole(*p, sx, sy))
    check(Transform.scale(sx), p, (x * sx, y), m * f, "scale(%r)" % sx)
    check(Transform.scale(sy=sy), p, (x, y * sy), m * f, "scale(sy=%r)" % sy)
    check(Transform.shear(sx, sy), p, (x + sx * y, y + sy * x), m * f, "shear(%r, %r)" % (sx, sy), whole(*p, sx, sy))
    check(Transform.shear(sx), p, (x + sx * y, y), m * f, "shear(%r)" % sx)
    check(Transform.shear(sy=sy), p, (x, y + sy * x), m * f, "shear(sy=%r)" % sy)
    for xa in (False, True):
        for ya in (False, True):
            M = Transform.mirror(xa, ya)
            w = "mirror(xAxis=%r, yAxis=%r)" % (xa, ya)
            check(M, p, (-x if ya else x, -y if xa else y), m, w, True)
            check(Transform.mirror(xAxis=xa, yAxis=ya), p, (-x if ya else x, -y if xa else y), m, w, True)
            N = Transform.mirrorAround(a, xa, ya)
            w = "mirrorAround(%r, xAxis=%r, yAxis=%r)" % (a, xa, ya)
            want = (2 * a[0] - x if ya else x, 2 * a[1] - y if xa else y)
            q = check(N, p, want, m, w, whole(*p, *a))
            check(Transform.mirrorAround(a, xAxis=xa, yAxis=ya), p, want, m, w)
            check(N, q, p, m, w + " twice")
            check(N, a, a, m, w)
    # an axis or an amount that is not named is left alone
    check(Transform.mirror(xAxis=True), p, (x, -y), m, "mirror(xAxis=True)", True)
    check(Transform.mirror(yAxis=True), p, (-x, y), m, "mirror(yAxis=True)", True)
    ex = whole(*p, *a)
    check(Transform.mirrorAround(a, xAxis=True), p, (x, 2 * a[1] - y), m, "mirrorAround(%r, xAxis=True)" % (a,), ex)
    check(Transform.mirrorAround(a, yAxis=True), p, (2 * a[0] - x, y), m, "mirrorAround(%r, yAxis=True)" % (a,), ex)
    for T, w in ((Transform.mirror(), "mirror()"), (Transform.mirrorAround(a), "mirrorAround(%r)" % (a,)), (Transform.scale(), "scale()"), (Transform.shear(), "shear()"),
                 (Transform.perspective(), "perspective()"), (Transform.perspectiveFrom(a), "perspectiveFrom(%r)" % (a,))):
        check(T, p, p, m, w, ex)
    d = case["deg"]
    t = (b[0] - a[0], b[1] - a[1])
    check(Transform.moveAndRotate(a, b, d), p, rot((x + t[0], y + t[1]), d, True), 2 * m, "moveAndRotate(%r, %r, %r)" % (a, b, d))
    r = rot(p, d, True)
    check(Transform.rotateAndMove(a, b, d), p, (r[0] + t[0], r[1] + t[1]), 2 * m, "rotateAndMove(%r, %r, %r)" % (a, b, d))
    return "*"


def c_perspective(case):
    p, c = tuple(case["p"]), tuple(case["c"])
    a, b, s = case["a"], case["b"], case["s"]

    def im(x, y, w, e):
        return F(x) / w, F(y) / w

    lab = []
    w = F(p[0]) * F(a) + F(p[1]) * F(b) + F(s)
    wa = abs(p[0] * a) + abs(p[1] * b) + abs(s)
    if abs(w) > 1e-3 * wa:
        want = (float(F(p[0]) / w), float(F(p[1]) / w))
        k = wa / abs(float(w)) * (1 + abs(want[0]) + abs(want[1]))
        check(Transform.perspective(a, b, s), p, want, k, "perspective(%r, %r, %r)" % (a, b, s))
        if s == 1:
            check(Transform.perspective(p=a, q=b), p, want, k, "perspective(%r, %r)" % (a, b))
        lab.append("*perspective")
    dx, dy = F(p[0]) - F(c[0]), F(p[1]) - F(c[1])
    w = dx * F(a) + dy * F(b) + 1
    wa = abs(float(dx) * a) + abs(float(dy) * b) + 1 + abs(c[0] * a) + abs(c[1] * b)
    if abs(w) > 1e-3 * wa:
        want = (float(dx / w + F(c[0])), float(dy / w + F(c[1])))
        k = wa / abs(float(w)) * mag(p, c, c, want) * (1 + 1 / abs(float(w)))
        T = Transform.perspectiveFrom(c, a, b)
        check(T, p, want, k, "perspectiveFrom(%r, %r, %r)" % (c, a, b))
        check(T, c, c, 8 * mag(c) * (1 + abs(c[0] * a) + abs(c[1] * b)), "perspectiveFrom(%r, %r, %r)" % (c, a, b))
        lab.append("*perspectiveFrom")
    return lab or "near the horizon"


angle = st.one_of(gen.ints(-40, 40).map(lambda k: k * 90), gen.ints(-720, 720), gen.ints(-1080, 1080).map(lambda k: k / 2), gen.ints(-10 ** 9, 10 ** 9).map(lambda k: k / 1e6),
                  gen.ints(-10 ** 6, 10 ** 6).map(lambda k: k * 90), gen.ints(-3600, 3600).map(lambda k: float(k * 15)))
P = st.sampled_from(["tiny", "small", "font", "int16", "half", "milli", "noisy"]).flatmap(gen.pt)
factor = st.one_of(gen.ints(-9, 9), gen.ints(-5000, 5000).map(lambda n: n / 1000))
pq = st.one_of(st.just(0), gen.ints(-100, 100).map(lambda n: n / 10000), gen.ints(-5, 5))

CLAUSES = [
    Clause("rotation", st.fixed_dictionaries(dict(deg=angle, p=gen.pts_range(1, 2), c=P)), c_rotation, quick=6250, thorough=40000, shards=2, rule="every case (angle class label)"),
    Clause("trig", st.fixed_dictionaries(dict(deg=angle)), c_trig, quick=6250, thorough=40000, rule="every case (angle class label)"),
    Clause("helpers", st.fixed_dictionaries(dict(deg=angle, ccw=st.booleans(), c=P, n=gen.ints(0, 2), k=st.lists(gen.contour(0, 3), max_size=3))), c_helpers, quick=3750, thorough=20000, rule="at least one contour"),
    Clause("large", st.fixed_dictionaries(dict(deg=angle, ccw=st.booleans(), c=P, n=gen.ints(0, 2), k=gen.seeded_log(gen.rnd_contours, 8, 300))), c_helpers, quick=100, thorough=1500, rule="at least one contour"),
    Clause("linear", st.fixed_dictionaries(dict(p=P, a=P, b=P, s=st.tuples(factor, factor).map(list), deg=angle)), c_linear, quick=5000, thorough=40000, shards=2, rule="every case"),
    Clause("perspective", st.fixed_dictionaries(dict(p=P, c=P, a=pq, b=pq, s=st.sampled_from([1, 1, 2, 0.5, -1, 3.7]))), c_perspective, quick=6250, thorough=40000, rule="the point is not near the horizon"),
]

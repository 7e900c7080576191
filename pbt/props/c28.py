"""C28 Numeric primitives compute what they name."""
import cmath
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib import BezierUtilities as BU

EPS = 2.0 ** -52


def reals(got, what):
    """Roots as floats; NaN stands for 'no real root' as in JavaScript's sqrt."""
    return [num(v, what) for v in seq(got, what) if not (isinstance(v, float) and math.isnan(v))]


# ---- droots ---------------------------------------------------------------------------

def c_droots(case):
    p = case["c"]
    got = reals(BU.droots(list(p)), "droots")
    c = geom.power(p)
    m = max(abs(float(v)) for v in p)
    lab = "%s" % ("quadratic" if len(p) == 3 else "linear")
    for t in got:
        f = abs(float(geom.polyval(c, F(t))))
        require(f <= 1e-12 * m * max(1.0, abs(t)) ** (len(p) - 1), "droots(%r) contains %r, where the value is %g", p, t, f)
    if m == 0:
        return "zero"
    c = geom.trim(c)
    if len(c) == 1:
        require(not got, "droots(%r) = %r, but the coefficients are constant", p, got)
        return "*constant"
    if len(c) == 2:
        want = [-c[0] / c[1]]
    else:
        disc = c[1] * c[1] - 4 * c[0] * c[2]
        if disc < 0:
            if float(-disc) > 1e-11 * m * m:
                require(not got, "droots(%r) = %r, but there is no real root", p, got)
                return "*no real root " + lab
            return "nearly double root"
        if float(disc) < 1e-11 * m * m:
            return "nearly double root"
        # exact enough roots: integer square root of a scaled rational
        k = 10 ** 40
        s = F(math.isqrt(int(disc * k * k)), k)
        q = -(c[1] + (s if c[1] >= 0 else -s)) / 2
        want = [q / c[2], c[0] / q] if q != 0 else [F(0)]
    for w in want:
        if abs(w) > 10 ** 6:
            continue
        w = float(w)
        # the derivative at the root decides how accurately it is determined
        d = abs(float(geom.polyval(geom.polyder(c), F(w))))
        if d == 0:
            continue
        tol = 1e-13 * m * max(1.0, abs(w)) ** 2 / d + 1e-12 * max(1, abs(w))
        require(any(close(g, w, tol) for g in got), "droots(%r) = %r misses the root %r", p, got, w)
        if 0 <= w <= 1:
            lab += " inside"
    return "*" + lab


@st.composite
def coefficients(draw):
    f = draw(st.sampled_from(gen.ALL))
    v = gen.FLAVOURS[f]
    n = draw(st.sampled_from([2, 3, 3, 3]))
    p = [draw(v) for _ in range(n)]
    k = draw(st.sampled_from(["free", "free", "nearlinear", "linear", "zeroend", "double", "roots", "equal", "huge"]))
    if n == 3:
        if k in ("linear", "nearlinear"):
            p[2] = 2 * p[1] - p[0]
            if k == "nearlinear":
                p[2] += draw(gen.tiny) * 10.0 ** -draw(gen.ints(0, 12))
        elif k == "double":
            # a = u^2, b = u v, c = v^2
            u, w = draw(gen.small), draw(gen.small)
            p = [u * u, u * w, w * w]
        elif k == "roots":
            # (t - r)(t - s)
            r, s = draw(gen.unit), draw(gen.unit)
            g = draw(gen.ints(1, 500)) * draw(st.sampled_from([1, -1]))
            p = [g * r * s, g * (r * s - (r + s) / 2), g * (1 - r) * (1 - s)]
    if k == "zeroend":
        p[draw(st.sampled_from([0, n - 1]))] = 0
    elif k == "equal":
        p = [p[0]] * n
    elif k == "huge":
        p = [x * 1e6 for x in p]
    if draw(gen.ints(0, 5)) == 0:
        z = 10.0 ** -draw(gen.ints(1, 15))
        p = [x * z for x in p]
    return dict(c=p)


# ---- line intersection ----------------------------------------------------------------

def c_lli(case):
    a, b, c, d = ps = geom.tup(case["p"])
    form = case["form"]
    if form == "lli8":
        q = BU.lli8(*a, *b, *c, *d)
    elif form == "lli4":
        q = BU.lli4(a, b, c, d)
    else:
        q = BU.lli([a, b], [c, d])
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = [geom.fr(p) for p in ps]
    ux, uy, vx, vy = bx - ax, by - ay, dx - cx, dy - cy
    den = ux * vy - uy * vx
    exact = all(float(v) == int(v) and abs(v) <= 2 ** 20 for p in ps for v in p)
    if den == 0:
        if exact:
            require(q is None, "%s of parallel lines %r is %r", form, ps, q)
            return "*parallel"
        return "parallel in floats"
    L1, L2, D = math.hypot(float(ux), float(uy)), math.hypot(float(vx), float(vy)), abs(float(den))
    if D < 1e-13 * L1 * L2 and not exact:
        return "nearly parallel"
    require(q is not None, "%s of %r is None", form, ps)
    s = ((cx - ax) * vy - (cy - ay) * vx) / den
    want = geom.f2((ax + s * ux, ay + s * uy))
    M = geom.scale_of(ps)
    tol = 16 * EPS * (M * M * (L1 + L2) / D + max(abs(want[0]), abs(want[1])) * (1 + L1 * L2 / D))
    require(pclose(point(q), want, tol), "%s of %r is %r, the lines meet at %r", form, ps, q, want)
    inside = 0 <= s <= 1
    return "*%s %s" % (form, "within the first segment" if inside else "beyond it")


@st.composite
def two_lines(draw):
    f = draw(st.sampled_from(gen.ALL))
    P = gen.pt(f)
    a, b, c, d = [draw(P) for _ in range(4)]
    k = draw(st.sampled_from(["free", "free", "parallel", "shared", "axis", "cross", "collinear"]))
    if k == "parallel":
        m = draw(gen.tiny)
        d = [c[0] + m * (b[0] - a[0]), c[1] + m * (b[1] - a[1])]
    elif k == "collinear":
        m, n = draw(gen.tiny), draw(gen.tiny)
        c = [a[0] + m * (b[0] - a[0]), a[1] + m * (b[1] - a[1])]
        d = [a[0] + n * (b[0] - a[0]), a[1] + n * (b[1] - a[1])]
    elif k == "shared":
        c = list(draw(st.sampled_from([a, b])))
    elif k == "axis":
        b = [a[0], b[1]] if draw(st.booleans()) else [b[0], a[1]]
        if draw(st.booleans()):
            d = [c[0], d[1]] if draw(st.booleans()) else [d[0], c[1]]
    elif k == "cross":
        b = [a[0], b[1]]
        d = [d[0], c[1]]
        if draw(st.booleans()):
            a, b, c, d = c, d, a, b
    return dict(p=[a, b, c, d], form=draw(st.sampled_from(["lli", "lli4", "lli8"])))


# ---- small functions ------------------------------------------------------------------

def c_map(case):
    v, ds, de, ts, te = case["v"]
    if ds == de:
        return "empty range"
    w = F(ts) + (F(te) - F(ts)) * (F(v) - F(ds)) / (F(de) - F(ds))
    r = abs(float((F(v) - F(ds)) / (F(de) - F(ds))))
    tol = 8 * EPS * (abs(ts) + (abs(te) + abs(ts)) * r + abs(float(w)))
    got = num(BU.map(v, ds, de, ts, te), "map")
    require(close(got, float(w), tol), "map(%r) = %r, expected %r", case["v"], got, float(w))
    return "*%s%s" % ("inside" if 0 <= r <= 1 else "outside", " falling" if (ds < de) != (ts < te) else "")


def c_lerp(case):
    a, b = geom.tup(case["p"])
    r = case["r"]
    got = point(BU.lerp(r, a, b))
    want = geom.f2(tuple(F(x) + F(r) * (F(y) - F(x)) for x, y in zip(a, b)))
    require(pclose(got, want, 8 * EPS * geom.scale_of([a, b]) * (1 + abs(r))), "lerp(%r, %r, %r) = %r, expected %r", r, a, b, got, want)
    if r == 0:
        require(got == geom.f2(a), "lerp(0, %r, %r) = %r", a, b, got)
    return "*%s" % ("ends" if r in (0, 1) else "inside" if 0 < r < 1 else "outside")


def c_angle(case):
    o, a, b = geom.tup(case["p"])
    oo, aa, bb = [geom.fr(p) for p in (o, a, b)]
    z, w = [complex(float(p[0] - oo[0]), float(p[1] - oo[1])) for p in (aa, bb)]
    if z == 0 or w == 0:
        return "no direction"
    got = num(BU.angle(o, a, b), "angle")
    ux, uy, vx, vy = aa[0] - oo[0], aa[1] - oo[1], bb[0] - oo[0], bb[1] - oo[1]
    cross, dot = ux * vy - uy * vx, ux * vx + uy * vy
    m = max(abs(cross), abs(dot))
    want = math.atan2(float(cross / m), float(dot / m))
    diff = abs(cmath.phase(cmath.exp(1j * (got - want))))
    require(-math.pi - 1e-12 <= got <= math.pi + 1e-12 and diff <= 1e-12, "angle(%r, %r, %r) = %r, expected %r", o, a, b, got, want)
    if abs(want) < 3:
        require(abs(got - want) < 1e-12, "angle(%r, %r, %r) = %r, expected %r", o, a, b, got, want)
    return "*%s" % ("counter-clockwise" if want > 0 else "clockwise" if want < 0 else "same direction")


def c_tests(case):
    v, lo, hi, e = case["v"], case["lo"], case["hi"], case["e"]
    # approximately
    for x, y in ((v, lo), (lo, v), (v, hi)):
        d = abs(F(x) - F(y))
        for prec in (None, e):
            p = F(1, 10 ** 6) if prec is None else F(prec)
            margin = p / 1000 + F(4 * EPS) * (abs(F(x)) + abs(F(y)))
            got = bool(BU.approximately(x, y) if prec is None else BU.approximately(x, y, prec))
            if d <= p - margin:
                require(got, "approximately(%r, %r, %r) is False", x, y, prec)
            elif d > p + margin:
                require(not got, "approximately(%r, %r, %r) is True", x, y, prec)
    if lo > hi:
        return "empty range"
    got = bool(BU.between(v, lo, hi))
    slack = F(1, 10 ** 6)
    margin = slack / 1000 + F(4 * EPS) * (abs(F(v)) + abs(F(lo)) + abs(F(hi)))
    d = max(F(lo) - F(v), F(v) - F(hi))
    if d <= 0 or d <= slack - margin:
        require(got, "between(%r, %r, %r) is False", v, lo, hi)
        return "*inside" if d <= 0 else "*within epsilon"
    if d > slack + margin:
        require(not got, "between(%r, %r, %r) is True", v, lo, hi)
        return "*outside"
    return "at the limit"


@st.composite
def test_values(draw):
    f = gen.FLAVOURS[draw(st.sampled_from(gen.MODERATE))]
    lo, hi = sorted([draw(f), draw(f)])
    v = draw(st.one_of(f, st.sampled_from([lo, hi, (lo + hi) / 2])))
    if draw(st.booleans()):
        v = draw(st.sampled_from([lo, hi])) + draw(gen.ints(-30, 30)) * 1e-7
    if draw(gen.ints(0, 9)) == 0:
        lo, hi = hi, lo
    return dict(v=v, lo=lo, hi=hi, e=draw(st.sampled_from([1e-9, 1e-4, 0.25, 1, 100])))


def c_radicals(case):
    x = case["x"]
    r = BU.sqrt(x)
    if x >= 0:
        want = float(F(math.isqrt(int(F(x) * 10 ** 120)), 10 ** 60))
        require(close(num(r), want, 8 * EPS * want + 1e-50), "sqrt(%r) = %r", x, r)
    else:
        require(isinstance(r, float) and math.isnan(r), "sqrt(%r) = %r, expected NaN", x, r)
    c = num(BU.crt(x), "crt")
    if x == 0:
        require(c == 0, "crt(0) = %r", c)
        return "*zero"
    require((c > 0) == (x > 0), "crt(%r) = %r", x, c)
    e = abs(float((F(c) ** 3 - F(x)) / F(x)))
    require(e <= 64 * EPS, "crt(%r) = %r, off by a factor of %g", x, c, e)
    return "*positive" if x > 0 else "*negative"


def c_dups(case):
    l = case["l"]
    l = [tuple(v) if isinstance(v, list) else v for v in l]
    keep = list(l)
    got = seq(BU.removeDuplicates(l), "removeDuplicates")
    require(l == keep, "removeDuplicates altered its argument")
    want = []
    for v in l:
        if not any(v == w for w in want):
            want.append(v)
    require(got == want, "removeDuplicates(%r) = %r", l, got)
    return "*duplicates" if len(want) < len(l) else "all different"


def c_ratio(case):
    t = case["t"]
    T = F(t)
    for n, f in ((2, BU.quadraticRatio), (3, BU.cubicRatio)):
        s = T ** n + (1 - T) ** n
        want = float(abs((s - 1) / s))
        got = num(f(t), f.__name__)
        require(close(got, want, 64 * EPS * (1 + want)), "%s(%r) = %r, expected %r", f.__name__, t, got, want)
    return "*end" if t in (0, 1) else "*inner"


def c_gauss(case):
    """the Legendre-Gauss table integrates every polynomial of degree up to 47"""
    x, w = list(BU.tValues), list(BU.cValues)
    require(len(x) == len(w), "tables differ in length")
    n = len(x)
    c = case["c"][:2 * n]
    r = F(case["s"]) / 16
    got = F(0)
    # shifted and scaled powers: sum c_k (x - r)^k / 2^k
    for xi, wi in zip(x, w):
        z = (F(xi) - r) / 2
        got += F(wi) * geom.polyval([F(v) for v in c], z)
    want = F(0)
    for k, v in enumerate(c):
        want += v * 2 * (((1 - r) / 2) ** (k + 1) - ((-1 - r) / 2) ** (k + 1)) / (k + 1)
    m = max([abs(v) for v in c] + [1])
    require(abs(got - want) <= F(1, 10 ** 13) * m, "the Gauss table integrates the polynomial %r about %s to %r instead of %r", c, r, float(got), float(want))
    return "*degree %s" % ("<12" if len(c) < 13 else "12-47")


moderate = st.sampled_from(gen.ALL).flatmap(lambda f: gen.FLAVOURS[f])
ratio = st.one_of(gen.unit, gen.ints(-3000, 4000).map(lambda n: n / 1000))
item = st.one_of(gen.tiny, st.tuples(gen.tiny, gen.tiny).map(list), gen.ints(-4, 4).map(lambda n: n / 2), st.sampled_from(["a", "b"]))


def same_flavour(n):
    return st.sampled_from(gen.ALL).flatmap(lambda f: st.lists(gen.FLAVOURS[f], min_size=n, max_size=n))


CLAUSES = [
    Clause("droots", coefficients(), c_droots, quick=20400, thorough=200000, shards=3, rule="number of real roots is numerically certain"),
    Clause("lli", two_lines(), c_lli, quick=17000, thorough=150000, shards=3, rule="lines numerically not parallel, or parallel with integer coordinates"),
    Clause("map", st.fixed_dictionaries(dict(v=same_flavour(5))), c_map, quick=5100, thorough=40000, rule="source range not empty"),
    Clause("lerp", st.fixed_dictionaries(dict(p=gen.pts(2), r=ratio)), c_lerp, quick=5100, thorough=40000, rule="all"),
    Clause("angle", st.fixed_dictionaries(dict(p=gen.pts(3))), c_angle, quick=6800, thorough=60000, rule="both directions defined"),
    Clause("tests", test_values(), c_tests, quick=6800, thorough=60000, rule="not within rounding of the limit"),
    Clause("radicals", st.fixed_dictionaries(dict(x=st.one_of(moderate, moderate.map(lambda v: v * 1e-9), moderate.map(lambda v: v * v * v)))), c_radicals, quick=5100, thorough=40000, rule="all"),
    Clause("duplicates", st.fixed_dictionaries(dict(l=gen.lists(st.one_of(item, item, item, gen.ints(-60, 60)), 0, 10, 60) | gen.seeded_log(lambda r, n: [r.choice([r.randint(-n, n), r.randint(0, 4 * n), r.random(), [r.randint(0, 9), r.randint(0, 9)]]) for _ in range(n)], 30, 400))), c_dups, quick=3400, thorough=30000, rule="list has duplicates"),
    Clause("ratio", st.fixed_dictionaries(dict(t=gen.unit)), c_ratio, quick=3400, thorough=30000, rule="all"),
    Clause("gauss", st.fixed_dictionaries(dict(c=gen.ints(1, 48).flatmap(lambda n: st.lists(gen.small, min_size=n, max_size=n)), s=gen.ints(-16, 16))), c_gauss, quick=500, thorough=3000, shards=2, rule="all"),
]

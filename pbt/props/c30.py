"""C30 Curve geometry does not depend on position, orientation or direction of travel."""
import cmath
import math
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from .c03 import direction, accuracy
from PathLib.Bezier import BContour, BOutline, Bezier


class Map:
    """p -> A p + d; the linear part is a turn by an angle, perhaps after a mirror, times a factor; turns by quarters are exact."""

    def __init__(self, turn, flip, factor, shift):
        z = [1, 1j, -1, -1j][int(turn // 90) % 4] if turn % 90 == 0 else cmath.exp(1j * math.radians(turn))
        z = complex(z)
        self.z, self.flip, self.k, self.d = z, flip, factor, shift
        self.quarters = turn % 90 == 0
        # orientation
        self.sign = -1 if flip else 1

    def vec(self, v):
        x, y = v
        if self.flip:
            y = -y
        a, b = self.z.real * self.k, self.z.imag * self.k
        return (a * x - b * y, b * x + a * y)

    def __call__(self, p):
        x, y = self.vec(p)
        return (x + self.d[0], y + self.d[1])


def rect(r, what):
    return (num(r.left, what), num(r.bottom, what), num(r.right, what), num(r.top, what))


def each(a, b, f, tol, what):
    a, b = points(a, what), points(b, what)
    require(len(a) == len(b), "%s: %d and %d points", what, len(a), len(b))
    for p, q in zip(a, b):
        require(pclose(f(p), q, tol), "%s: %r moves to %r, but the moved curve has %r", what, p, f(p), q)


def c_moved(case):
    ps = geom.tup(case["p"])
    m = Map(case["turn"], case["flip"], case["factor"], case["shift"])
    qs = [m(p) for p in ps]
    a, b = Bezier(list(ps)), Bezier(list(qs))
    n = len(ps) - 1
    sc = max(geom.scale_of(ps) * max(1, m.k), geom.scale_of(qs))
    tol = 4e-14 * (n + 1) * sc
    what = "moving %r by turn %r, flip %r, factor %r, shift %r" % (ps, case["turn"], case["flip"], case["factor"], case["shift"])
    lab = ["*order %d" % n]
    for t in case["t"]:
        each([a.get(t)], [b.get(t)], m, tol, "%s: get(%r)" % (what, t))
        each(a.hull(t), b.hull(t), m, tol, "%s: hull(%r)" % (what, t))
        d, kind = direction(ps, t)
        if kind == "regular":
            e = accuracy(ps, d, kind) + accuracy(qs, m.vec(geom.f2(d)), kind)
            na, nb = point(a.normal(t)), point(b.normal(t))
            x, y = m.vec(na)
            w = (m.sign * x / m.k, m.sign * y / m.k)
            require(pclose(w, nb, 2 * e), "%s: normal(%r) is %r, expected %r", what, t, nb, w)
            oa, ob = seq(a.offset(t, case["d"]), "offset", 3), seq(b.offset(t, case["d"] * m.k * m.sign), "offset", 3)
            require(pclose(m(point(oa[2])), point(ob[2]), tol + 3 * e * abs(case["d"]) * m.k), "%s: offset(%r, %r) is %r, expected %r", what, t, case["d"], point(ob[2]), m(point(oa[2])))
            lab.append("*normal")
        if n in (2, 3) and 0 < t < 1:
            ra, rb = seq(a.split(t), "split", 3), seq(b.split(t), "split", 3)
            for i, w in ((0, "left"), (1, "right")):
                each(ra[i].controlPoints, rb[i].controlPoints, m, tol, "%s: split(%r) %s" % (what, t, w))
            lab.append("*split")
    e, levels = tol, seq(b.dcPoints, "dcPoints", n)
    for k, lv in enumerate(seq(a.dcPoints, "dcPoints", n)):
        e *= 2 * n
        each(lv, levels[k], m.vec, e, "%s: derivative %d" % (what, k + 1))
    i, j = case["i"]
    if n in (2, 3) and j > 0:
        each(a.split(i, j).controlPoints, b.split(i, j).controlPoints, m, tol, "%s: split(%r, %r)" % (what, i, j))
    each([a.midpoint], [b.midpoint], m, tol, what + ": midpoint")
    each(a.raiseOrder().controlPoints, b.raiseOrder().controlPoints, m, tol, what + ": raiseOrder")
    for k in (2, case["steps"]):
        each(a.getLUT(k), b.getLUT(k), m, tol, "%s: getLUT(%d)" % (what, k))
    la, lb = num(a.length), num(b.length)
    require(close(la * m.k, lb, tol * 8 + 1e-12 * lb), "%s: the length %r becomes %r", what, la, lb)
    if n <= 3:
        ra, rb = rect(a.boundsRectangle, "bounds"), rect(b.boundsRectangle, "bounds")
        e = 1e-11 * sc
        if m.quarters:
            c = [m(ra[:2]), m(ra[2:])]
            w = (min(c[0][0], c[1][0]), min(c[0][1], c[1][1]), max(c[0][0], c[1][0]), max(c[0][1], c[1][1]))
            require(all(close(x, y, e) for x, y in zip(rb, w)), "%s: the bounds %r become %r, expected %r", what, ra, rb, w)
            lab.append("*bounds")
        else:
            # the image of the old box encloses the moved curve, and the other way round
            c = [m((x, y)) for x in (ra[0], ra[2]) for y in (ra[1], ra[3])]
            for d in (0, 1):
                require(min(x[d] for x in c) <= rb[d] + e and rb[d + 2] <= max(x[d] for x in c) + e, "%s: the bounds %r become %r", what, ra, rb)
    if n in (2, 3) and 0 < case["u"] < 1:
        A, B = seq(a.getABC(case["u"]), "getABC"), seq(b.getABC(case["u"]), "getABC")
        each(A[:2], B[:2], m, tol, "%s: getABC(%r)" % (what, case["u"]))
        require(close(num(A[3]), num(B[3]), 1e-12), "%s: getABC(%r) has the ratios %r and %r", what, case["u"], A[3], B[3])
        lab.append("*getABC")
    return lab


def c_reversed(case):
    ps = geom.tup(case["p"])
    a, b = Bezier(list(ps)), Bezier(list(ps[::-1]))
    n = len(ps) - 1
    sc = geom.scale_of(ps)
    tol = 4e-14 * (n + 1) * sc
    ident = lambda p: p
    what = "travelling %r the other way" % (ps,)
    lab = ["*order %d" % n]
    for k in case["k"]:
        # both parameters exact
        t, u = k / 1024, 1 - k / 1024
        each([a.get(t)], [b.get(u)], ident, tol, "%s: get(%r)" % (what, t))
        each(a.hull(t)[-1:], b.hull(u)[-1:], ident, tol, "%s: hull(%r)" % (what, t))
        d, kind = direction(ps, t)
        if kind == "regular":
            na, nb = point(a.normal(t)), point(b.normal(u))
            require(pclose(na, (-nb[0], -nb[1]), 2 * accuracy(ps, d, kind)), "%s: normal(%r) is %r and %r", what, t, na, nb)
        if n in (2, 3) and 0 < t < 1:
            r, s = seq(a.split(t), "split", 3), seq(b.split(u), "split", 3)
            each(r[0].controlPoints, list(s[1].controlPoints)[::-1], ident, tol, "%s: split(%r) left" % (what, t))
            each(r[1].controlPoints, list(s[0].controlPoints)[::-1], ident, tol, "%s: split(%r) right" % (what, t))
            lab.append("*split")
    e, levels = tol, seq(b.dcPoints, "dcPoints", n)
    for i, lv in enumerate(seq(a.dcPoints, "dcPoints", n)):
        e *= 2 * n
        s = -1 if i % 2 == 0 else 1
        each(lv, list(levels[i])[::-1], lambda v: (s * v[0], s * v[1]), e, "%s: derivative %d" % (what, i + 1))
    k = sorted(case["k"])
    if n in (2, 3) and k[0] < k[-1] and k[0] < 1024:
        each(a.split(k[0] / 1024, k[-1] / 1024).controlPoints, list(b.split(1 - k[-1] / 1024, 1 - k[0] / 1024).controlPoints)[::-1], ident, tol, "%s: split(%r, %r)" % (what, k[0] / 1024, k[-1] / 1024))
    each(a.getLUT(case["steps"]), list(b.getLUT(case["steps"]))[::-1], ident, tol, what + ": getLUT")
    each([a.midpoint], [b.midpoint], ident, tol, what + ": midpoint")
    each(a.raiseOrder().controlPoints, list(b.raiseOrder().controlPoints)[::-1], ident, tol, what + ": raiseOrder")
    la, lb = num(a.length), num(b.length)
    require(close(la, lb, tol + 1e-12 * lb), "%s: length %r and %r", what, la, lb)
    if n <= 3:
        ra, rb = rect(a.boundsRectangle, "bounds"), rect(b.boundsRectangle, "bounds")
        require(all(close(x, y, 1e-11 * sc) for x, y in zip(ra, rb)), "%s: bounds %r and %r", what, ra, rb)
        lab.append("*bounds")
    return lab


def c_contours(case):
    """a contour moved or travelled the other way"""
    C = [geom.tup(s) for s in case["c"]]
    m = Map(case["turn"], case["flip"], case["factor"], case["shift"])
    D = [[m(p) for p in s] for s in C]
    R = [s[::-1] for s in C[::-1]]
    a, b, r = BContour([list(s) for s in C]), BContour([list(s) for s in D]), BContour([list(s) for s in R])
    sc = max(geom.scale_of(*C) * max(1, m.k), geom.scale_of(*D))
    tol = 1e-12 * sc
    what = "contour %r, turn %r, flip %r, factor %r, shift %r" % (C, case["turn"], case["flip"], case["factor"], case["shift"])
    require(pclose(m(point(a.start)), point(b.start), tol) and pclose(m(point(a.end)), point(b.end), tol), "%s: from %r to %r", what, b.start, b.end)
    require(point(a.start) == point(r.end) and point(a.end) == point(r.start), "%s: the other way from %r to %r", what, r.start, r.end)
    n = case["steps"]
    each(a.getLUT(n), b.getLUT(n), m, tol, what + ": getLUT")
    each(a.getLUT(n), list(r.getLUT(n))[::-1], lambda p: p, tol, what + ": getLUT the other way")
    ra, rr = rect(a.boundsRectangle, "bounds"), rect(r.boundsRectangle, "bounds")
    require(all(close(x, y, 1e-11 * sc) for x, y in zip(ra, rr)), "%s: bounds %r, the other way %r", what, ra, rr)
    for f, w in ((lambda z: z, "contour"), (lambda z: BOutline([[list(s) for s in C], [list(s) for s in C]]) if z is a else BOutline([[list(s) for s in D]]), "outline")):
        ra, rb = rect(f(a).boundsRectangle, "bounds"), rect(f(b).boundsRectangle, "bounds")
        if m.quarters:
            c = [m(ra[:2]), m(ra[2:])]
            want = (min(c[0][0], c[1][0]), min(c[0][1], c[1][1]), max(c[0][0], c[1][0]), max(c[0][1], c[1][1]))
            require(all(close(x, y, 1e-11 * sc) for x, y in zip(rb, want)), "%s: the bounds of the %s %r become %r, expected %r", what, w, ra, rb, want)
    return ["*%d curves" % min(len(C), 12), "*quarter turn" if m.quarters else "*turn"]


angle = st.one_of(st.sampled_from([0, 90, 180, 270]), st.sampled_from([0, 90, 180, 270]), gen.ints(0, 359), gen.ints(0, 3600).map(lambda v: v / 10),
                  # all but a quarter turn: directions all but along the axes
                  st.tuples(gen.ints(0, 3), gen.ints(2, 12), gen.ints(-9, 9)).map(lambda v: 90 * v[0] + v[2] * 10.0 ** -v[1]))
factor = st.sampled_from([1, 1, 1, 2, 0.5, 4])
shift = st.one_of(st.just([0, 0]), gen.pt("font"), gen.pt("int16"), gen.pt("big"), gen.pt("half"))
motion = dict(turn=angle, flip=st.booleans(), factor=factor, shift=shift)
steps = gen.ints(2, 24)
u = gen.ints(1, 99).map(lambda v: v / 100)
FLAV = ["small", "font", "half", "milli", "noisy", "int16"]

CLAUSES = [
    Clause("moved", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3, 3, 4, 5, 6), FLAV), t=st.lists(gen.unit, min_size=1, max_size=2), i=gen.interval, u=u, d=gen.ints(-300, 300).map(lambda v: v / 4), steps=steps, **motion)), c_moved,
           quick=7000, thorough=80000, shards=5, rule="every case (order and query labels)"),
    Clause("reversed", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3, 3, 4, 5, 6), FLAV), k=st.lists(st.one_of(gen.ints(0, 1024), gen.ints(0, 32).map(lambda v: 32 * v)), min_size=1, max_size=3), steps=steps)), c_reversed,
           quick=7000, thorough=80000, shards=4, rule="every case (order and query labels)"),
    Clause("contours", st.fixed_dictionaries(dict(c=gen.contour(1, 4, flavours=FLAV), steps=steps, **motion)), c_contours, quick=2500, thorough=30000, shards=3, rule="every case"),
]

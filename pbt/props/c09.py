"""C09 Line intersections are sound and complete."""
import itertools
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


class Crossings:
    """Signed distance of the curve from the infinite line, as an exact polynomial."""

    def __init__(self, ps, line):
        (x0, y0), (x1, y1) = [geom.fr(p) for p in (line[0], line[-1])]
        dx, dy = x1 - x0, y1 - y0
        self.ok = dx != 0 or dy != 0
        if not self.ok:
            return
        # scaled so that it can be converted to float safely
        m = max(abs(dx), abs(dy))
        self.len = F(math.hypot(float(dx / m), float(dy / m))) * m
        self.c = geom.power([(dx * (F(p[1]) - y0) - dy * (F(p[0]) - x0)) / self.len for p in ps])
        self.size = float(max([abs(v) for v in self.c]))
        self.der = geom.polyder(self.c) or [F(0)]

    def at(self, t):
        return float(geom.polyval(self.c, F(t)))

    def clear(self):
        """Well separated transversal crossings in [0, 1]."""
        if self.size == 0:
            return []
        return [float(r) for r in geom.isolate(self.c) if abs(float(geom.polyval(self.der, r))) > 0.02 * self.size]


def judge(ps, line, got, sc, what):
    k = Crossings(ps, line)
    got = [num(t, "root") for t in seq(got, what)]
    lab = ["order%d" % (len(ps) - 1)]
    for t in got:
        require(-1.0001e-6 <= t <= 1 + 1.0001e-6, "%s contains %r, not in [0, 1]", what, t)
        require(abs(k.at(t)) <= 2e-6 + 1e-9 * sc, "%s of %r contains %r, where the curve is %g away from the line %r", what, ps, t, k.at(t), line)
    if k.size < 1e-2 + 1e-9 * sc:
        return k, got, [], lab + ["curve lies along the line"]
    roots = k.clear()
    # crossings right at an end may be missed or found
    inside = [r for r in roots]
    for r in inside:
        n = sum(close(t, r, 1e-5) for t in got)
        require(n >= 1, "%s of %r = %r misses the crossing of the line %r at %r", what, ps, got, line, r)
        require(n == 1, "%s of %r = %r lists the crossing of the line %r at %r twice", what, ps, got, line, r)
        lab.append("*crossing")
    if len(inside) > 1:
        lab.append("*several crossings")
    if not got:
        lab.append("no roots")
    return k, got, roots, lab


def c_roots(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    line = case["l"] and geom.tup(case["l"])
    if geom.extent(ps) < 0.1:
        return "tiny curve"
    if line is None:
        k, got, roots, lab = judge(ps, [(0, 0), (1, 0)], b.roots(), geom.scale_of(ps), "roots()")
        return lab + ["x axis"]
    if not Crossings(ps, line).ok:
        return "line is a point"
    keep = list(line)
    r = b.roots(line)
    require(line == keep and [tuple(p) for p in b.controlPoints] == ps, "roots altered its operands")
    return judge(ps, line, r, geom.scale_of(ps, line), "roots(line)")[3]


def c_line(case):
    ps = geom.tup(case["p"])
    line = geom.tup(case["l"])
    if geom.extent(ps) < 0.1 or not Crossings(ps, line).ok:
        return "tiny curve or line is a point"
    b = Bezier(list(ps))
    sc = geom.scale_of(ps, line)
    got = [num(t) for t in seq(b.lineIntersects(line), "lineIntersects")]
    k = Crossings(ps, line)
    box = [sorted((float(line[0][d]), float(line[1][d]))) for d in (0, 1)]
    for t in got:
        require(-1.0001e-6 <= t <= 1 + 1.0001e-6, "lineIntersects contains %r, not in [0, 1]", t)
        require(abs(k.at(t)) <= 2e-6 + 1e-9 * sc, "lineIntersects of %r contains %r, where the curve is %g away from the line %r", ps, t, k.at(t), line)
        q = geom.f2(geom.bern(ps, F(t)))
        for d in (0, 1):
            require(box[d][0] - 2e-6 - 1e-9 * sc <= q[d] <= box[d][1] + 2e-6 + 1e-9 * sc,
                    "lineIntersects of %r contains %r, where the curve is at %r, beyond the end of the line %r", ps, t, q, line)
    if k.size < 1e-2 + 1e-9 * sc:
        return "curve lies along the line"
    lab = ["order%d" % (len(ps) - 1)]
    L = float(k.len)
    ux, uy = (float(F(line[1][0]) - F(line[0][0])) / L, float(F(line[1][1]) - F(line[0][1])) / L)
    for r in k.clear():
        q = geom.f2(geom.bern(ps, F(r)))
        s = (q[0] - float(line[0][0])) * ux + (q[1] - float(line[0][1])) * uy
        # the ends of the line count as parts of it
        m = 1e-6 * sc if sc > 1e4 else -1e-9
        M = 10 * m if sc > 1e4 else 1e-5
        n = sum(close(t, r, 1e-5) for t in got)
        # a slanted line's extent is judged per coordinate
        if m < s < L - m:
            require(n == 1, "lineIntersects of %r = %r, but the curve crosses the line %r at %r", ps, got, line, r)
            lab.append("*crossing at the line's end" if min(abs(s), abs(s - L)) < 1e-9 else "*crossing within the line")
        elif s < -M or s > L + M:
            require(n == 0, "lineIntersects of %r = %r, but at %r the curve passes beyond the end of %r", ps, got, r, line)
            lab.append("*crossing beyond the line")
    return lab


def c_with(case):
    ps = geom.tup(case["p"])
    line = geom.tup(case["l"])
    k = Crossings(ps, line)
    if geom.extent(ps) < 0.1 or not k.ok:
        return "tiny curve or line is a point"
    sc = geom.scale_of(ps, line)
    if len(ps) == 2:
        if ps[0] == ps[1]:
            return "curve is a point"
        q = Bezier(list(ps)).intersectWithLine(Bezier(list(line)))
        (ax, ay), (bx, by) = geom.fr(ps[0]), geom.fr(ps[1])
        (cx, cy), (dx, dy) = geom.fr(line[0]), geom.fr(line[-1])
        ux, uy, vx, vy = bx - ax, by - ay, dx - cx, dy - cy
        den = ux * vy - uy * vx
        exact = all(float(v) == int(v) and abs(v) < 10 ** 6 for p in ps + line for v in p)
        if den == 0:
            if exact:
                require(q is None, "intersectWithLine of parallel lines %r and %r is %r", ps, line, q)
            return "*parallel" if exact else "parallel"
        sin = float(abs(den)) / (math.hypot(float(ux), float(uy)) * math.hypot(float(vx), float(vy)))
        if exact:
            require(q is not None, "intersectWithLine of %r and %r is None", ps, line)
        if sin < 1e-3 or min(math.hypot(float(ux), float(uy)), math.hypot(float(vx), float(vy))) < 1e-3 * sc:
            return "grazing"
        s = ((cx - ax) * vy - (cy - ay) * vx) / den
        want = geom.f2((ax + s * ux, ay + s * uy))
        require(q is not None and pclose(point(q), want, 1e-6 * geom.scale_of([want], ps, line)), "intersectWithLine of %r and %r is %r, the lines meet at %r", ps, line, q, want)
        return "*lines"
    q = Bezier(list(ps)).intersectWithLine(Bezier(list(line)))
    roots = [] if k.size < 1e-2 + 1e-9 * sc else k.clear()
    if q is None:
        require(not roots, "intersectWithLine of %r is None, but the line %r crosses it at %r", ps, line, roots)
        return "none"
    q = point(q)
    (x0, y0), (x1, y1) = line[0], line[-1]
    L = float(k.len)
    off = float((F(x1) - F(x0)) * (F(q[1]) - F(y0)) - (F(y1) - F(y0)) * (F(q[0]) - F(x0))) / L
    slack = 1e-5 + 1e-9 * sc + 2e-6 * max(1.0, 3 * geom.extent(ps))
    require(abs(off) <= slack, "intersectWithLine of %r is %r, %g away from the line %r", ps, q, off, line)
    d, t = geom.nearest(ps, q, good=1e-7 * sc)
    require(d <= 1e-6 * sc, "intersectWithLine returns %r, which is %g away from the curve %r", q, d, ps)
    return "*crossing" if roots else "tangent or at an end"


@st.composite
def rooted(draw, allow_none):
    """A curve that meets the (infinite) line at chosen parameters, double and triple ones included."""
    n = draw(st.sampled_from([2, 3, 3, 3]))
    at = st.one_of(gen.ints(-2, 6).map(lambda k: k / 4), gen.ints(-20, 30).map(lambda k: k / 10), gen.ints(0, 1000).map(lambda k: k / 1000))
    r = [draw(at) for _ in range(n)]
    kind = draw(st.sampled_from(["free", "double", "triple", "near", "pair"]))
    if kind in ("double", "near"):
        r[1] = r[0] + (10.0 ** -draw(gen.ints(1, 9)) if kind == "near" else 0)
    elif kind == "triple":
        r = [r[0]] * n
    k = draw(st.sampled_from([1, -1, 100, 250, -1000, 3000, 0.5]))
    # blossom of k (t - r0)(t - r1)...: the mean over all ways to put 0 or 1 for t
    y = []
    for i in range(n + 1):
        a = [F(0)] * (n - i) + [F(1)] * i
        ways = list(itertools.permutations(a))
        y.append(F(k) * sum(math.prod(u - F(v) for u, v in zip(w, r)) for w in ways) / len(ways))
    if kind == "pair" and n == 3:
        # only one real root
        c = F(draw(gen.ints(1, 50)), 100)
        q0 = [(F(0) - F(r[0])) ** 2 + c, -F(r[0]) * (1 - F(r[0])) + c, (1 - F(r[0])) ** 2 + c]
        l = [-F(r[2]), 1 - F(r[2])]
        y = [F(k) * v for v in (q0[0] * l[0], (q0[0] * l[1] + 2 * q0[1] * l[0]) / 3, (2 * q0[1] * l[1] + q0[2] * l[0]) / 3, q0[2] * l[1])]
    f = draw(st.sampled_from(["small", "font", "half", "noisy"]))
    ps = [[draw(gen.FL(f)), float(v)] for v in y]
    if allow_none and draw(st.booleans()):
        return dict(p=ps, l=None)
    xs = sorted([draw(gen.font), draw(gen.font)])
    l = [[xs[0], 0], [xs[1] + 1, 0]]
    if draw(st.booleans()):
        l = [[-3000, 0], [3000, 0]]
    (c, s), (dx, dy) = draw(st.sampled_from([(1, 0), (0, 1), (-1, 0), (0.8, 0.6), (0.28, -0.96)])), draw(gen.pt("small"))
    turn = lambda p: [p[0] * c - p[1] * s + dx, p[0] * s + p[1] * c + dy]
    return dict(p=[turn(p) for p in ps], l=[turn(p) for p in l][::draw(st.sampled_from([1, -1]))])


@st.composite
def curve_and_line(draw, orders=(2, 3, 3), allow_none=False):
    if max(orders) > 2 and draw(st.integers(0, 5)) == 0:
        return draw(rooted(allow_none))
    f = draw(st.sampled_from(gen.ALL))
    ps = draw(gen.curve(orders, [f]))
    kind = draw(st.sampled_from(["free", "through1", "through1", "through2", "axis", "axis", "tangent", "end", "chord", "poly"] + (["none"] if allow_none else [])))
    if kind == "none":
        # bring the x axis near the curve
        if draw(st.booleans()):
            y = geom.bernf(ps, draw(gen.unit))[1]
            ps = [[x, v - y] for x, v in ps]
        return dict(p=ps, l=None)
    P = gen.pt(f)
    a = draw(P)
    b = draw(P)
    at = lambda: list(geom.bernf(ps, draw(gen.unit)))
    if kind in ("through1", "axis"):
        c = at()
        if kind == "axis":
            d = draw(st.booleans())
            a = [c[0], a[1]] if d else [a[0], c[1]]
            b = [c[0], b[1]] if d else [b[0], c[1]]
            if draw(st.booleans()) and a != b:
                pass
        else:
            r = draw(st.sampled_from([2, 1.5, 3, 1, -1, 0.5]))
            b = [a[0] + (c[0] - a[0]) * r, a[1] + (c[1] - a[1]) * r]
    elif kind == "through2":
        c, d = at(), at()
        r, s = draw(st.sampled_from([(0, 1), (-1, 2), (-0.5, 1.5), (0.25, 0.75), (-1, 0.5), (1, 0)]))
        a = [c[0] + (d[0] - c[0]) * r, c[1] + (d[1] - c[1]) * r]
        b = [c[0] + (d[0] - c[0]) * s, c[1] + (d[1] - c[1]) * s]
    elif kind == "tangent":
        t = draw(gen.unit)
        c = geom.bernf(ps, t)
        h = geom.bernf(geom.hodograph(ps), t)
        a, b = [c[0] - h[0], c[1] - h[1]], [c[0] + h[0], c[1] + h[1]]
    elif kind == "end":
        a = list(draw(st.sampled_from([ps[0], ps[-1]])))
    elif kind == "chord":
        a, b = list(ps[0]), list(ps[-1])
    elif kind == "poly":
        i = draw(st.integers(0, len(ps) - 2))
        a, b = list(ps[i]), list(ps[i + 1])
    return dict(p=ps, l=[a, b])


CLAUSES = [
    Clause("roots", curve_and_line(allow_none=True), c_roots, quick=11900, thorough=150000, shards=3, rule="the line crosses the curve transversally"),
    Clause("segment", curve_and_line(), c_line, quick=8500, thorough=100000, shards=2, rule="a transversal crossing lies clearly within or clearly beyond the line's ends"),
    Clause("withline", curve_and_line((1, 2, 3)), c_with, quick=4250, thorough=60000, shards=3, rule="a transversal crossing exists, or two straight lines"),
]

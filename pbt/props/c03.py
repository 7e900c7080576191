"""C03 Derivatives, normals and offset points are geometrically right."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def c_dc(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    levels = seq(b.dcPoints, "dcPoints", len(ps) - 1)
    want = [geom.fr(p) for p in ps]
    tol = 0
    for k, lv in enumerate(levels):
        # rounding of this level, and that of the level before carried along
        tol = (len(want) - 1) * (2 * tol + 4e-15 * geom.scale_of(want))
        want = geom.hodograph(want)
        got = points(lv, "derivative %d" % (k + 1), len(want))
        for g, w in zip(got, want):
            require(pclose(g, geom.f2(w), tol), "control points of derivative %d are %r, expected %r", k + 1, got, [geom.f2(x) for x in want])
    return ["order%d" % (len(ps) - 1), "*" if len(ps) > 2 else "line"]


def direction(ps, t):
    """Direction of travel at t, exact (unnormalised, Fractions), and whether it is well
    conditioned; at an end with vanishing derivative, the limit."""
    h = geom.hodograph(ps)
    d = geom.bern(h, t)
    size = max(geom.extent(ps), 1e-300)
    if math.hypot(float(d[0]), float(d[1])) > 1e-4 * size and geom.extent(ps) > 1e-9 * geom.scale_of(ps):
        return d, "regular"
    if t in (0, 1) and d == (0, 0):
        q = [geom.fr(p) for p in ps]
        if t == 1:
            q.reverse()
        for p in q[1:]:
            v = (p[0] - q[0][0], p[1] - q[0][1])
            if v != (0, 0):
                return (v if t == 0 else (-v[0], -v[1])), "limit"
    return None, "undefined"


def accuracy(ps, d, kind):
    """How precisely rounding lets the normal be determined, given the exact direction d."""
    return 1e-12 + (1e-14 * len(ps) * geom.scale_of(ps) / math.hypot(float(d[0]), float(d[1])) if kind == "regular" else 0)


def want_normal(d):
    x, y = d
    # normalise in extended precision: scale first
    m = max(abs(x), abs(y))
    x, y = float(x / m), float(y / m)
    q = math.hypot(x, y)
    return (-y / q, x / q)


def c_normal(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    lab = ["order%d" % (len(ps) - 1)]
    for t in case["t"]:
        d, kind = direction(ps, t)
        lab.append(kind)
        if d is None:
            continue
        got = point(b.normal(t), "normal(%r)" % t)
        want = want_normal(d)
        tl = accuracy(ps, d, kind)
        require(pclose(got, want, tl), "normal(%r) = %r, direction of travel rotated by 90 degrees is %r (control points %r)", t, got, want, ps)
        require(close(math.hypot(*got), 1, 1e-12), "normal(%r) = %r is not a unit vector", t, got)
        lab.append("*" + kind)
    return lab


def c_offset_point(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    t, d = case["t"], case["d"]
    dr, kind = direction(ps, t)
    if dr is None:
        return "undefined direction"
    r = seq(b.offset(t, d), "offset(%r, %r)" % (t, d), 3)
    c, n, p = point(r[0]), point(r[1]), point(r[2])
    sc = geom.scale_of(ps)
    want = geom.f2(geom.bern(ps, t))
    require(pclose(c, want, 1e-12 * sc), "offset(%r, %r)[0] = %r is not the curve point %r", t, d, c, want)
    wn = want_normal(dr)
    tl = accuracy(ps, dr, kind)
    require(pclose(n, wn, tl), "offset(%r, %r)[1] = %r is not the normal %r", t, d, n, wn)
    require(pclose(p, (want[0] + d * wn[0], want[1] + d * wn[1]), 1e-12 * sc + 2 * tl * abs(d)), "offset(%r, %r)[2] = %r, expected %r", t, d, p, (want[0] + d * wn[0], want[1] + d * wn[1]))
    return ["*d=0" if d == 0 else "*d<0" if d < 0 else "*d>0"]


HI = (1, 2, 3, 4, 5, 6)
CLAUSES = [
    Clause("hodographs", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 4, 5, 6)))), c_dc, quick=3750, thorough=20000, rule="order >= 2"),
    Clause("normal", st.fixed_dictionaries(dict(p=gen.curve(HI), t=st.lists(gen.unit, min_size=1, max_size=4))), c_normal,
           quick=12500, thorough=80000, shards=3, rule="a parameter with a well-conditioned direction of travel"),
    Clause("offset_point", st.fixed_dictionaries(dict(p=gen.curve(HI), t=gen.unit, d=st.one_of(st.sampled_from([0, 0.0, 1, -1, 10]), gen.ints(-3000, 3000).map(lambda n: n / 10)))),
           c_offset_point, quick=6250, thorough=40000, shards=2, rule="well-conditioned direction of travel"),
]

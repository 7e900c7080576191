"""C01 Curve evaluation equals the Bernstein polynomial."""
from decimal import Decimal
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier

ORDERS = (1, 2, 3, 4, 5, 6)


def tol(ps):
    return 1e-12 * geom.scale_of(ps)


def c_eval(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps) if len(case["t"]) % 2 else tuple(ps))
    n = len(ps) - 1
    for t in case["t"]:
        got = point(b.get(t), "get(%r)" % t)
        want = geom.f2(geom.bern(ps, t))
        require(pclose(got, want, tol(ps)), "get(%r) = %r, Bernstein value %r, control points %r", t, got, want, ps)
    require(tuple(b.get(0)) == ps[0], "get(0) = %r is not the first control point %r", b.get(0), ps[0])
    require(tuple(b.get(1)) == ps[-1], "get(1) = %r is not the last control point %r", b.get(1), ps[-1])
    require(tuple(b.get(0.0)) == ps[0] and tuple(b.get(1.0)) == ps[-1], "get(0.0)/get(1.0) are not the end points")
    m = point(b.midpoint, "midpoint")
    require(pclose(m, geom.f2(geom.bern(ps, 0.5)), tol(ps)), "midpoint = %r is not the point at 0.5", m)
    require(b.order == n, "order = %r for %d control points", b.order, n + 1)
    require([tuple(p) for p in b.controlPoints] == ps, "controlPoints = %r, given %r", b.controlPoints, ps)
    require(tuple(b.start) == ps[0] and tuple(b.end) == ps[-1], "start/end = %r/%r", b.start, b.end)
    require((b.startX, b.startY) == ps[0] and (b.endX, b.endY) == ps[-1], "startX.. = %r", (b.startX, b.startY, b.endX, b.endY))
    lab = ["order%d" % n]
    if any(0 < t < 1 for t in case["t"]) and len(set(ps)) > 1:
        lab.append("*interior parameter, not a point curve")
    return lab


def c_lut(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    for n in case["steps"]:
        lut = points(b.getLUT(n), "getLUT(%d)" % n, n)
        for i, q in enumerate(lut):
            want = geom.bernf(ps, i / (n - 1))
            require(pclose(q, want, 10 * tol(ps)), "getLUT(%d)[%d] = %r, curve at %d/%d is %r", n, i, q, i, n - 1, want)
        require(lut[0] == geom.f2(ps[0]) and lut[-1] == geom.f2(ps[-1]), "getLUT(%d) does not start and end at the end points", n)
    if case.get("default"):
        points(b.getLUT(), "getLUT()", 100)
    lab = ["order%d" % (len(ps) - 1)]
    if len(case["steps"]) > 1 and len(set(case["steps"])) > 1:
        lab.append("*several table sizes on one curve")
    return lab


def c_hull(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    t = case["t"]
    h = points(b.hull(t), "hull(%r)" % t)
    n = len(ps)
    require(len(h) == n * (n + 1) // 2, "hull(%r) has %d points for %d control points", t, len(h), n)
    level = [geom.fr(p) for p in ps]
    want = list(level)
    T = F(t)
    while len(level) > 1:
        level = [(a[0] + (c[0] - a[0]) * T, a[1] + (c[1] - a[1]) * T) for a, c in zip(level, level[1:])]
        want += level
    for i, (g, w) in enumerate(zip(h, want)):
        require(pclose(g, geom.f2(w), tol(ps)), "hull(%r)[%d] = %r, de Casteljau gives %r", t, i, g, geom.f2(w))
    return ["order%d" % (n - 1), "*interior" if 0 < t < 1 else "end"]


def c_decimal(case):
    den = case["den"]
    ps = [(Decimal(x) / den, Decimal(y) / den) for x, y in case["p"]]
    b = Bezier(ps)
    for k in case["t"]:
        t = Decimal(k) / 1000
        got = b.get(t)
        want = geom.f2(geom.bern([(F(x), F(y)) for x, y in ps], F(t)))
        require(pclose(point(got), want, 1e-12 * geom.scale_of(ps)), "get(%r) = %r on Decimal control points, expected %r", t, got, want)
    return ["order%d" % (len(ps) - 1), "*decimal" if any(0 < k < 1000 for k in case["t"]) else "ends"]


CLAUSES = [
    Clause("evaluate", st.fixed_dictionaries(dict(p=gen.curve(ORDERS), t=st.lists(gen.unit, min_size=1, max_size=6))), c_eval,
           quick=15000, thorough=120000, shards=3, rule="an interior parameter on a curve with at least two distinct control points"),
    Clause("lut", st.fixed_dictionaries(dict(p=gen.curve(ORDERS), steps=st.lists(st.one_of(gen.ints(2, 130), gen.ints(2, 130), gen.ints(2, 1100)), min_size=1, max_size=4), default=st.booleans())), c_lut,
           quick=1500, thorough=8000, shards=2, rule="two different table sizes requested from one curve"),
    Clause("hull", st.fixed_dictionaries(dict(p=gen.curve(ORDERS), t=gen.unit)), c_hull, quick=6250, thorough=40000, rule="interior parameter"),
    Clause("high", st.fixed_dictionaries(dict(p=gen.seeded(lambda r, n: gen.rnd_points(r, n + 1), 7, 20), t=st.lists(gen.unit, min_size=1, max_size=4))), c_eval, quick=400, thorough=6000, rule="an interior parameter on a curve with at least two distinct control points"),
    Clause("high-hull", st.fixed_dictionaries(dict(p=gen.seeded(lambda r, n: gen.rnd_points(r, n + 1), 7, 20), t=gen.unit)), c_hull, quick=250, thorough=3000, rule="interior parameter"),
    Clause("high-lut", st.fixed_dictionaries(dict(p=gen.seeded(lambda r, n: gen.rnd_points(r, n + 1), 7, 14), steps=st.lists(gen.ints(2, 40), min_size=1, max_size=3))), c_lut, quick=150, thorough=1500, rule="two different table sizes requested from one curve"),
    Clause("decimal", st.fixed_dictionaries(dict(p=gen.pts_range(2, 6, ["tiny", "small", "font"]), den=st.sampled_from([1, 2, 10, 64]),
                                                 t=st.lists(gen.ints(0, 1000), min_size=1, max_size=4))), c_decimal,
           quick=2000, thorough=10000, rule="Decimal coordinates with an interior Decimal parameter"),
]
